"""C06 reductions and scans."""
from oracle import *
from lifecycle import *
ID = 'C06'
RULE = ('every reduction/scan (function, method and alias form) x every input shape x every axis argument (none, positive, negative) '
        'x every history of up to N changes among {new values, new shape, another axis on the existing object} with every pattern of reads '
        'in between, plus every memory layout of the input and every placement of up to two NaNs for the nan variants.')
ASSUMPTIONS = ['shapes up to 4 dimensions with extents 1-4', 'derivatives of extrema are compared where the extremum is unique']

SH = [(1,), (3,), (2, 3), (3, 1), (1, 4), (2, 1, 3), (2, 3, 2), (1, 1)]
SHT = SH + [(4,), (2, 2), (3, 3), (1, 2, 1), (3, 2, 2), (2, 1, 2, 3), (5, 2)]


def take(a, idx, axis):
    if axis is None:
        return np.asarray(a).reshape(-1)[idx]
    return np.take_along_axis(a, np.expand_dims(idx, axis), axis).squeeze(axis)

def c_ext(argf):
    return lambda x, axis=None: take(x, argf(np.real(x), axis=axis), axis)

def c_mom(m):
    def f(x, axis=0):
        return np.mean((x - np.mean(x, axis=axis, keepdims=True)) ** m, axis=axis)
    return f

def v_uncentred(x, axis=None): return np.mean(x ** 2, axis=axis)

# name: (builder(leaf, params), reference, complex reference, takes axis)
OPS = {
 'sum': (lambda l, p: ch.sum(l, axis=p['axis']), np.sum, None),
 'sum_m': (lambda l, p: l.sum(axis=p['axis']), np.sum, None),
 'mean': (lambda l, p: ch.mean(l, axis=p['axis']), np.mean, None),
 'mean_m': (lambda l, p: l.mean(axis=p['axis']), np.mean, None),
 'amax': (lambda l, p: ch.amax(l, axis=p['axis']), np.amax, c_ext(np.argmax)),
 'amin': (lambda l, p: ch.amin(l, axis=p['axis']), np.amin, c_ext(np.argmin)),
 'max_m': (lambda l, p: l.max(axis=p['axis']), np.amax, c_ext(np.argmax)),
 'min_m': (lambda l, p: l.min(axis=p['axis']), np.amin, c_ext(np.argmin)),
 'max': (lambda l, p: ch.max(l, axis=p['axis']), np.amax, c_ext(np.argmax)),
 'min': (lambda l, p: ch.min(l, axis=p['axis']), np.amin, c_ext(np.argmin)),
 'nanmax': (lambda l, p: ch.nanmax(l, axis=p['axis']), np.nanmax, c_ext(np.nanargmax)),
 'nanmin': (lambda l, p: ch.nanmin(l, axis=p['axis']), np.nanmin, c_ext(np.nanargmin)),
 'cumsum': (lambda l, p: ch.cumsum(l, axis=p['axis']), np.cumsum, None),
 'cumsum_m': (lambda l, p: l.cumsum(axis=p['axis']), np.cumsum, None),
}
NOAX = {
 'SumOfSquares': (lambda l, p: ch.SumOfSquares(l), lambda x: np.sum(x ** 2), None),
 'norm': (lambda l, p: ch.linalg.norm(l), lambda x: np.sqrt(np.sum(x ** 2)), None),
 'sum_def': (lambda l, p: ch.sum(l), np.sum, None),
 'mean_def': (lambda l, p: ch.mean(l), np.mean, None),
 'sum_defm': (lambda l, p: l.sum(), np.sum, None),
 'mean_defm': (lambda l, p: l.mean(), np.mean, None),
 'amax_def': (lambda l, p: ch.amax(l), np.amax, c_ext(np.argmax)),
 'amin_def': (lambda l, p: ch.amin(l), np.amin, c_ext(np.argmin)),
 'nanmax_def': (lambda l, p: ch.nanmax(l), np.amax, c_ext(np.argmax)),
 'nanmin_def': (lambda l, p: ch.nanmin(l), np.amin, c_ext(np.argmin)),
 'cumsum_def': (lambda l, p: ch.cumsum(l), np.cumsum, None),
}
LAYOUTS = ['C', 'F', 'newaxis', 'bcast', 'T', 'strided', 'rev', 'f32', 'int']


def axes_for(s):
    return [None] + list(range(len(s))) + [-i - 1 for i in range(len(s))]


def cases(tier):
    sh = SHT if tier == 'thorough' else SH
    out = []
    for n in sorted(OPS):
        for s in sh:
            ax = axes_for(s)
            if tier == 'quick' and n in ('max_m', 'min_m', 'max', 'min', 'sum_m', 'mean_m', 'cumsum_m'):
                if s not in ((2, 3), (2, 3, 2), (3,)):
                    continue
            for a in ax:
                out.append(['ax', n, list(s), a])
    for n in sorted(NOAX):
        for s in sh:
            out.append(['noax', n, list(s)])
    for s in sh:
        for a in axes_for(s):
            for m in (2, 3, 4):
                out.append(['moment', m, list(s), a])
            out.append(['varstd', list(s), a])
            out.append(['mom1', list(s), a])
    out += [['tour', n] for n in sorted(OPS) if not n.startswith('cumsum')] + [['tour', n] for n in sorted(NOAX)]
    for lay in LAYOUTS:
        for s in sh:
            out.append(['layout', lay, list(s)])
    for n in ('nanmax', 'nanmin', 'amax', 'amin'):
        for s in ((3,), (2, 3), (2, 2)):
            out.append(['nan', n, list(s)])
    for n in ('amax', 'amin', 'sum', 'mean'):
        out.append(['perm', n])
    return [c + [tier] for c in out]


def other(s):
    t = tuple({2: 3, 3: 2}.get(d, d) for d in s)
    return t if t != s else tuple(list(s[:-1]) + [s[-1] + 1])


def other_axes(s, a):
    ax = axes_for(s)
    i = ax.index(a)
    return ax[(i + 1) % len(ax)], ax[(i + 2) % len(ax)]


def run(case, ctx):
    kind, tier = case[0], case[-1]
    nch = 2 if tier == 'thorough' else 1
    if kind == 'ax':
        n, s, a = case[1], tuple(case[2]), case[3]
        b, f, cf = OPS[n]
        s2 = other(s)
        a2, a3 = other_axes(s, a)
        cfgs = [([vals(s, 0)], {'axis': a}), ([vals(s, 5)], {'axis': a}), ([vals(s2, 2)], {'axis': a}), ([vals(s, 8)], {'axis': a2})]
        if nch == 1:
            cfgs.append(([vals(s2, 9)], {'axis': a3}))
        op = OpCase('C06|' + n, lambda l, p: b(l[0], p), f, cf)
        if n.startswith('cumsum'):
            return cumsum(ctx, op, cfgs, nch)
        run_histories(ctx, op, cfgs, nch)
    elif kind == 'tour':
        tour(ctx, case[1], tier)
    elif kind == 'noax':
        n, s = case[1], tuple(case[2])
        b, f, cf = NOAX[n]
        op = OpCase('C06|' + n, lambda l, p: b(l[0], p), f, cf)
        run_histories(ctx, op, [([vals(s, 0)], {}), ([vals(s, 5)], {}), ([vals(other(s), 2)], {})], nch)
    elif kind == 'moment':
        m, s, a = case[1], tuple(case[2]), case[3]
        if a is None:
            return
        f = c_mom(m)
        op = OpCase('C06|moment', lambda l, p: ch.extras.moment(l[0], m, axis=a), lambda x: f(x, a))
        run_histories(ctx, op, [([vals(s, 0)], {}), ([vals(s, 5)], {})], nch)
    elif kind == 'mom1':
        s, a = tuple(case[1]), case[2]
        if a is None:
            return
        ctx.hist(case); ctx.step(); ctx.state(*map(str, case))
        x = ch.Ch(vals(s, 0))
        m = ch.extras.moment(x, 1, axis=a)
        got = np.atleast_1d(np.asarray(m.r if hasattr(m, 'dterms') else m))
        want = np.atleast_1d(np.zeros(np.sum(vals(s, 0), axis=a).shape))
        if not close(got, want):
            ctx.fail('C06|moment1', 'first central moment of shape %s along %s: %s' % (s, a, summ(got)))
    elif kind == 'varstd':
        varstd(ctx, tuple(case[1]), case[2], nch)
    elif kind == 'layout':
        layout(ctx, case[1], tuple(case[2]))
    elif kind == 'nan':
        nans(ctx, case[1], tuple(case[2]))
    elif kind == 'perm':
        perms(ctx, case[1])


TSH = [(6,), (2, 3), (3, 2), (1, 6), (6, 1), (2, 3, 1), (2, 1, 3), (12,), (2, 2, 3), (3, 2, 2), (2, 3, 2), (1,), (2,)]


def tour(ctx, n, tier):
    """one object through every ordered pair of (shape, axis), several shapes of one size"""
    if n in NOAX:
        b, f, cf = NOAX[n]
        return run_tour(ctx, OpCase('C06|' + n, lambda l, p: b(l[0], p), f, cf), [([vals(s, i)], {}) for i, s in enumerate(TSH)])
    b, f, cf = OPS[n]
    cfgs = []
    for i, s in enumerate(TSH):
        for a in axes_for(s):
            if a is not None and a < 0 and (tier == 'quick' and s not in ((2, 3), (2, 2, 3))):
                continue
            if tier == 'quick' and n not in ('sum', 'mean', 'amax', 'nanmin') and len(s) == 3 and a not in (0, 1):
                continue
            cfgs.append(([vals(s, i + len(cfgs))], {'axis': a}))
    run_tour(ctx, OpCase('C06|' + n, lambda l, p: b(l[0], p), f, cf), cfgs, orders=('value', 'jac') if tier == 'thorough' else ('jac',))


def cumsum(ctx, op, cfgs, nch):
    class P(object):
        pass
    for c in range(nch + 1):
        for seq in itertools.product(range(len(cfgs)), repeat=c + 1):
            if any(seq[i] == seq[i + 1] for i in range(c)):
                continue
            for pats in itertools.product(('none', 'r', 'dr'), repeat=c):
                ctx.hist({'op': op.key, 'configs': list(seq), 'reads': list(pats)}); ctx.state(op.key, str(cfgs), seq, pats)
                cur = cfgs[seq[0]]
                l = ch.Ch(cur[0][0])
                node = op.build([l], cur[1])
                for p, k in zip(pats, seq[1:]):
                    if p == 'r': node.r
                    if p == 'dr':
                        try: node.dr_wrt(l)
                        except NotImplementedError: pass
                    apply_cfg([l], node, cur, cfgs[k], False, setattr)
                    cur = cfgs[k]; ctx.step()
                v, js = op.ref(seq[-1], cur)
                tag = '%s history %s reads %s axis %s shape %s' % (op.key, seq, pats, cur[1], cur[0][0].shape)
                check_value(ctx, op.key, node, v, tag)
                try:
                    J = node.dr_wrt(l)
                except NotImplementedError:
                    if cur[1]['axis'] is None:
                        raise
                    continue
                check_jac(ctx, op.key, node, l, js[0], tag, J=J)


def varstd(ctx, s, a, nch):
    """var/std: NumPy's definition; the recorded defect (not centred on the mean) is told apart from any other divergence"""
    for n, b, f, g in (('var', ch.var, np.var, v_uncentred), ('std', ch.std, np.std, lambda x, axis=None: np.sqrt(v_uncentred(x, axis)))):
        cf = (lambda x, axis=None: np.mean((x - np.mean(x, axis=axis, keepdims=True)) ** 2, axis=axis))
        if n == 'std':
            cf0 = cf
            cf = lambda x, axis=None: np.sqrt(cf0(x, axis))
        data = [vals(s, 0, 'nz'), vals(s, 5, 'nz')]
        if nch == 2:
            data.append(vals(other(s), 7, 'nz'))
        for i in range(len(data)):
            for pat in ('none', 'r', 'dr', 'both'):
                for j in range(len(data)):
                    ctx.hist([n, list(s), a]); ctx.step(); ctx.state(n, s, a, pat, i, j)
                    l = ch.Ch(data[i])
                    node = b(l, axis=a)
                    if pat in ('r', 'both'): node.r
                    if pat in ('dr', 'both'): node.dr_wrt(l)
                    l.x = data[j]
                    x = data[j]
                    r = node.r
                    J = node.dr_wrt(l)
                    ctx.seen('r', r.tobytes())
                    def matches(fv, fc):
                        w = np.atleast_1d(fv(x, axis=a))
                        if not close(r, w): return False
                        wj = cjac(lambda y: fc(y, axis=a), [x], 0)
                        if not np.all(np.isfinite(wj)): return True
                        return close(dense(J, *wj.shape), wj, 1e-6, 1e-7)
                    if matches(f, cf): continue
                    if matches(g, g):
                        ctx.fail('C06|%s|uncentred' % n, '%s(a) is computed without subtracting the mean' % n)
                        continue
                    ctx.fail('C06|%s|other' % n, '%s of shape %s axis %s: value %s, NumPy %s (uncentred %s)'
                             % (n, s, a, summ(r), summ(f(x, axis=a)), summ(g(x, axis=a))))


def mk(v, lay):
    if lay == 'F': return np.array(v, order='F')
    if lay == 'newaxis':
        return np.array(np.squeeze(v))[tuple(None if d == 1 else slice(None) for d in v.shape)] if v.size > 1 else np.array(7.)[(None,) * v.ndim] * 1
    if lay == 'bcast': return np.broadcast_to(np.array(v), v.shape)
    if lay == 'T': return np.array(v.T).T
    if lay == 'strided': return np.repeat(v, 2, axis=-1)[..., ::2]
    if lay == 'rev': return np.array(v[::-1])[::-1]
    if lay == 'f32': return np.array(v, dtype=np.float32)
    if lay == 'int': return np.array(np.argsort(np.argsort(v.ravel())).reshape(v.shape), dtype=np.int64)
    return np.array(v)


def layout(ctx, lay, s):
    arr = mk(vals(s, 3), lay)
    ref = np.array(arr, dtype=np.float64)
    for n in sorted(OPS):
        b, f, cf = OPS[n]
        for a in axes_for(s):
            for how in ('ctor', 'assign', 'derived'):
                ctx.hist([n, lay, list(s), a]); ctx.step(); ctx.state('lay', n, lay, s, a, how)
                l = ch.Ch(arr) if how != 'assign' else ch.Ch(np.zeros(s))
                if how == 'assign': l.x = arr
                src = l if how != 'derived' else (l + 1.)
                node = b(src, {'axis': a})
                tag = '%s axis %s on %s input of shape %s (%s)' % (n, a, lay, s, how)
                x = ref if how != 'derived' else ref + 1
                check_value(ctx, 'C06|%s|layout' % n, node, f(x, axis=a), tag)
                try:
                    J = node.dr_wrt(l)
                except NotImplementedError:
                    if not n.startswith('cumsum') or a is None: raise
                    continue
                check_jac(ctx, 'C06|%s|layout' % n, node, l, cjac(lambda y: (cf or f)(y, axis=a), [x], 0), tag, J=J)


def nans(ctx, n, s):
    """every placement of one or two NaNs, every axis (slices that are NaN throughout raise in NumPy and are skipped)"""
    b, f, cf = OPS[n]
    size = int(np.prod(s))
    for k in (1, 2):
        for pos in itertools.combinations(range(size), k):
            x = vals(s, 1).copy(); x.ravel()[list(pos)] = np.nan
            for a in axes_for(s):
                ctx.hist(); ctx.step(); ctx.state('nan', n, s, pos, a)
                if np.any(np.all(np.isnan(x), axis=a)):
                    continue
                l = ch.Ch(x)
                node = b(l, {'axis': a})
                check_value(ctx, 'C06|%s|nan' % n, node, f(x, axis=a), '%s axis %s of %s' % (n, a, summ(x)))
                if n.startswith('nan'):
                    idx = (np.nanargmax if n == 'nanmax' else np.nanargmin)(x, axis=a)
                    cols = take(np.arange(size).reshape(s), idx, a).ravel()
                    want = np.zeros((cols.size, size)); want[np.arange(cols.size), cols] = 1
                    check_jac(ctx, 'C06|%s|nan' % n, node, l, want, '%s axis %s of %s' % (n, a, summ(x)))


def perms(ctx, n):
    """every order of four values in a 2x2 array: the derivative follows the position of the extremum through the changes"""
    b, f, cf = OPS[n]
    ps = list(itertools.permutations((-1.5, .25, 1., 3.)))
    for a in (None, 0, 1, -1):
        l = ch.Ch(np.zeros((2, 2)))
        node = b(l, {'axis': a})
        for p in ps:
            ctx.hist(); ctx.step(); ctx.state('perm', n, a, p)
            x = np.array(p).reshape(2, 2)
            l.x = x
            check_value(ctx, 'C06|%s|perm' % n, node, f(x, axis=a))
            check_jac(ctx, 'C06|%s|perm' % n, node, l, cjac(lambda y: (cf or f)(y, axis=a), [x], 0))
