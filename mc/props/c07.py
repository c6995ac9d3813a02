"""C07 indexing, reordering and stacking."""
from oracle import *
from lifecycle import *
ID = 'C07'
RULE = ('every index tuple over an alphabet of integers, slices, ellipsis, new axes, integer arrays and masks; every reordering operation with '
        'every argument of a grid; every stacking of up to three operands (also one object several times, plain arrays, nested) x every history of '
        'up to N changes among {new values, new shape, another argument on the existing object} with every pattern of reads in between.')
ASSUMPTIONS = ['arrays up to 3 dimensions with extents 0-4', 'squeeze, expand_dims and index expressions fix the layout when they are written, so '
               'shape changes are only applied to them where the meaning is the same']

SL = {'all': slice(None), 'tail': slice(1, None), 'head': slice(None, -1), 'step': slice(None, None, 2), 'rev': slice(None, None, -1),
      'empty': slice(0, 0), 'one': slice(1, 2), 'negstep': slice(-1, 0, -1)}
ALPH = [0, -1, 'all', 'tail', 'head', 'step', 'rev', 'empty', 'one', 'negstep', '...', 'new', 'arr01', 'arr101', 'arrneg', 'mask']
ALPH_S = [0, -1, 'all', 'tail', 'rev', '...', 'new', 'arr101', 'mask']
SHI = [(1,), (3,), (4,), (2, 3), (3, 1), (1, 1), (2, 1, 3)]


def atom(k, ext):
    if isinstance(k, int): return k
    if k in SL: return SL[k]
    if k == '...': return Ellipsis
    if k == 'new': return None
    if k == 'arr01': return [0, ext - 1]
    if k == 'arr101': return np.array([ext - 1, 0, ext - 1])
    if k == 'arrneg': return np.array([-1, 0])
    if k == 'mask': return np.arange(ext) % 2 == 0
    raise KeyError(k)


def mkindex(toks, shape):
    """tokens -> index, tracking which axis each token consumes"""
    n = sum(1 for t in toks if t not in ('...', 'new'))
    if n > len(shape) or toks.count('...') > 1:
        return None
    out, ax = [], 0
    for t in toks:
        if t == '...':
            out.append(Ellipsis); ax = len(shape) - sum(1 for u in toks[toks.index('...') + 1:] if u != 'new')
        elif t == 'new':
            out.append(None)
        else:
            out.append(atom(t, shape[ax])); ax += 1
    return tuple(out)


FULL = {'boolmask': lambda s: vals(s, 3) > 0, 'nomask': lambda s: np.zeros(s, bool), 'ix': lambda s: np.ix_(*[list(range(d))[::-1] for d in s]),
        'intarr2d': lambda s: np.array([[0, s[0] - 1], [0, 0]]), 'bare0': lambda s: 0, 'bareneg': lambda s: -1, 'bareslice': lambda s: slice(None),
        'bareell': lambda s: Ellipsis, 'barenew': lambda s: None, 'barelist': lambda s: [0], 'npint': lambda s: np.int64(0)}


def perms(n):
    return [list(p) for p in itertools.permutations(range(n))]


def table():
    """name -> (build(leaf, params), reference(x, **params), param grids per shape, follows shape changes)"""
    T = {}
    def reg(name, build, ref, grid, shapes, reshape_ok=True):
        T[name] = (build, ref, grid, shapes, reshape_ok)
    A = [(1,), (3,), (2, 3), (3, 1), (1, 1), (2, 3, 2), (2, 1, 3)]
    def newshapes(s):
        n = int(np.prod(s))
        out = [(n,), (-1,), (1, n), (n, 1), (-1, 1), (1, -1), -1, n]
        for d in range(2, n):
            if n % d == 0:
                out += [(d, n // d), (d, -1)]
        return [dict(newshape=o) for o in out]
    reg('reshape', lambda l, p: ch.reshape(l, p['newshape']), lambda x, newshape: np.reshape(x, newshape), newshapes, A)
    reg('reshape_m', lambda l, p: l.reshape(p['newshape']), lambda x, newshape: np.reshape(x, newshape), newshapes, A)
    reg('reshape_star', lambda l, p: l.reshape(*p['newshape']) if isinstance(p['newshape'], tuple) else l.reshape(p['newshape']),
        lambda x, newshape: np.reshape(x, newshape), newshapes, A)
    reg('ravel', lambda l, p: ch.ravel(l), lambda x: x.ravel(), lambda s: [{}], A)
    reg('ravel_m', lambda l, p: l.ravel(), lambda x: x.ravel(), lambda s: [{}], A)
    tg = lambda s: [dict(axes=None)] + [dict(axes=tuple(p)) for p in perms(len(s))] + [dict(axes=[q - len(s) for q in p]) for p in perms(len(s))]
    reg('transpose', lambda l, p: ch.transpose(l, p['axes']), lambda x, axes: np.transpose(x, axes), tg, A)
    reg('transpose_m', lambda l, p: l.transpose(p['axes']), lambda x, axes: np.transpose(x, axes), tg, A)
    reg('T', lambda l, p: l.T, lambda x: x.T, lambda s: [{}], A)
    reg('transpose_m0', lambda l, p: l.transpose(), lambda x: x.T, lambda s: [{}], A)
    reg('transpose_star', lambda l, p: l.transpose(*p['perm']), lambda x, perm: x.transpose(*perm), lambda s: [dict(perm=tuple(p)) for p in perms(len(s))],
        [(2, 3), (2, 3, 2)], False)
    reg('rollaxis', lambda l, p: ch.rollaxis(l, p['axis'], p['start']), lambda x, axis, start: np.rollaxis(x, axis, start),
        lambda s: [dict(axis=a, start=b) for a in range(-len(s), len(s)) for b in range(len(s) + 1)], [(3,), (2, 3), (2, 3, 2), (2, 1, 3)])
    reg('rollaxis1', lambda l, p: ch.rollaxis(l, p['axis']), lambda x, axis: np.rollaxis(x, axis), lambda s: [dict(axis=a) for a in range(len(s))], A)
    reg('swapaxes', lambda l, p: ch.swapaxes(l, p['axis1'], p['axis2']), lambda x, axis1, axis2: np.swapaxes(x, axis1, axis2),
        lambda s: [dict(axis1=a, axis2=b) for a in range(-len(s), len(s)) for b in range(len(s))], [(3,), (2, 3), (2, 3, 2)])
    reg('tile', lambda l, p: ch.tile(l, p['reps']), lambda x, reps: np.tile(x, reps),
        lambda s: [dict(reps=r) for r in (1, 2, (1,), (3,), (2, 1), (1, 2), [2, 2], (2, 1, 2), (1, 2, 2))], A)
    reg('repeat', lambda l, p: ch.repeat(l, p['repeats'], p['axis']), lambda x, repeats, axis: np.repeat(x, repeats, axis),
        lambda s: [dict(repeats=r, axis=a) for r in (1, 2, 3) for a in [None] + list(range(-len(s), len(s)))] +
                  [dict(repeats=[(i % 3) for i in range(s[a])], axis=a) for a in range(len(s))] +
                  [dict(repeats=np.array([(i + 1) % 3 for i in range(int(np.prod(s)))]), axis=None)], [(3,), (2, 3), (3, 1), (2, 3, 2)], 'int')
    reg('roll', lambda l, p: ch.roll(l, p['shift'], p['axis']), lambda x, shift, axis: np.roll(x, shift, axis),
        lambda s: [dict(shift=r, axis=a) for r in (-2, -1, 0, 1, 2, 5) for a in [None] + list(range(-len(s), len(s)))] +
                  ([dict(shift=(1, 2), axis=(0, 1)), dict(shift=1, axis=(0, 1))] if len(s) > 1 else []), [(1,), (3,), (2, 3), (2, 3, 2)])
    reg('roll_def', lambda l, p: ch.roll(l, p['shift']), lambda x, shift: np.roll(x, shift), lambda s: [dict(shift=2)], A)
    reg('rot90', lambda l, p: ch.rot90(l, p['k']), lambda x, k: np.rot90(x, k), lambda s: [dict(k=k) for k in (-1, 0, 1, 2, 3, 4, 5)], [(2, 3), (3, 1), (1, 1), (2, 3, 2)])
    reg('rot90_def', lambda l, p: ch.rot90(l), lambda x: np.rot90(x), lambda s: [{}], [(2, 3)])
    reg('sort', lambda l, p: ch.sort(l, axis=p['axis'], kind=p['kind']), lambda x, axis, kind: np.sort(x, axis, kind),
        lambda s: [dict(axis=a, kind=k) for a in [None] + list(range(-len(s), len(s))) for k in ('quicksort', 'mergesort')], [(1,), (3,), (2, 3), (2, 3, 2)])
    reg('sort_def', lambda l, p: ch.sort(l), lambda x: np.sort(x), lambda s: [{}], A)
    reg('diag', lambda l, p: ch.diag(l, p['k']), lambda x, k: np.diag(x, k), lambda s: [dict(k=k) for k in (-3, -2, -1, 0, 1, 2, 3)], [(1,), (3,), (2, 3), (3, 1), (3, 3)])
    reg('diag_def', lambda l, p: ch.diag(l), lambda x: np.diag(x), lambda s: [{}], [(3,), (3, 3)])
    reg('diagflat', lambda l, p: ch.diagflat(l, p['k']), lambda x, k: np.diagflat(x, k), lambda s: [dict(k=k) for k in (-2, -1, 0, 1, 2)], [(1,), (3,), (2, 2), (3, 1)])
    reg('squeeze', lambda l, p: ch.squeeze(l), lambda x: np.squeeze(x), lambda s: [{}], A, False)
    reg('squeeze_m', lambda l, p: l.squeeze(), lambda x: np.squeeze(x), lambda s: [{}], A, False)
    reg('squeeze_ax', lambda l, p: ch.squeeze(l, p['ax']), lambda x, ax: np.squeeze(x, ax), lambda s: [dict(ax=i) for i in range(-len(s), len(s)) if s[i] == 1], [(3, 1), (1, 1), (2, 1, 3)], False)
    reg('squeeze_axm', lambda l, p: l.squeeze(p['ax']), lambda x, ax: np.squeeze(x, ax), lambda s: [dict(ax=i) for i in range(-len(s), len(s)) if s[i] == 1], [(3, 1), (2, 1, 3)], False)
    reg('expand_dims', lambda l, p: ch.expand_dims(l, p['ax']), lambda x, ax: np.expand_dims(x, ax), lambda s: [dict(ax=i) for i in range(-len(s) - 1, len(s) + 1)], A, False)
    reg('fliplr', lambda l, p: ch.fliplr(l), lambda x: np.fliplr(x), lambda s: [{}], [(2, 3), (3, 1), (2, 3, 2)], False)
    reg('flipud', lambda l, p: ch.flipud(l), lambda x: np.flipud(x), lambda s: [{}], A, False)
    for n, f in ((1, np.atleast_1d), (2, np.atleast_2d), (3, np.atleast_3d)):
        reg('atleast_%dd' % n, (lambda n: lambda l, p: getattr(ch, 'atleast_%dd' % n)(l))(n), (lambda f: lambda x: f(np.atleast_1d(x)))(f), lambda s: [{}], [()] + A)
    return T

T = table()

STACKS = ['concatenate', 'vstack', 'hstack', 'dstack', 'nested', 'nested_first', 'arrays']


def stack_sets(tier):
    """lists of operand shapes with the axis"""
    out = []
    for axis in (0, -1):
        out += [[[(2,)], axis], [[(2,), (3,)], axis], [[(1,), (1,)], axis], [[(2,), (1,), (3,)], axis]]
    for axis in (0, 1, -1, -2):
        for base in ((2, 3), (3, 1), (1, 1)):
            a = axis % 2
            b2 = list(base); b2[a] += 1
            out += [[[base, base], axis], [[base, tuple(b2)], axis], [[base, tuple(b2), base], axis]]
    for axis in (0, 1, 2, -1, -2, -3):
        b2 = [2, 1, 3]; b2[axis] += 1
        out += [[[(2, 1, 3), tuple(b2)], axis]]
        if tier == 'thorough':
            out += [[[(2, 1, 3), tuple(b2), (2, 1, 3)], axis]]
    return out


def cases(tier):
    out = []
    for s in SHI:
        al = ALPH if len(s) == 1 or (len(s) == 2 and tier == 'thorough') else ALPH_S
        for n in range(1, len(s) + 2):
            combos = list(itertools.product(al, repeat=n))
            combos = [list(c) for c in combos if mkindex(list(c), s) is not None]
            if tier == 'quick' and n == 3 and len(s) == 3:
                combos = [c for c in combos if c.count('new') <= 1]
            if n == 4:
                continue
            for i in range(0, len(combos), 40):
                out.append(['idx', list(s), combos[i:i + 40]])
        for f in sorted(FULL):
            out.append(['full', f, list(s)])
    for n in sorted(T):
        for s in T[n][3]:
            for i in range(len(T[n][2](s))):
                out.append(['re', n, list(s), i])
    for shapes, axis in stack_sets(tier):
        out.append(['cat', [list(s) for s in shapes], axis])
    for n in ('vstack', 'hstack', 'dstack'):
        for s in ((1,), (2,), (2, 3), (3, 1), (2, 1, 3), ()):
            for k in (1, 2, 3):
                out.append(['stk', n, list(s), k])
    out += [['nested', a, b, k] for a in (0, 1, -1) for b in (0, 1, -1) for k in range(4)]
    out += [['tour', n] for n in sorted(T)]
    out += [['cattour', k] for k in range(len(CATS))]
    out += [['multi']]
    out += [['layout', i] for i in range(len(LAY))]
    return [c + [tier] for c in out]


def other(s):
    t = tuple({2: 3, 3: 2}.get(d, d) for d in s)
    return t if t != s else (tuple(list(s[:-1]) + [s[-1] + 1]) if s else (2,))


def run(case, ctx):
    kind, tier = case[0], case[-1]
    nch = 2 if tier == 'thorough' else 1
    if kind == 'idx':
        s = tuple(case[1])
        for toks in case[2]:
            one_index(ctx, mkindex(list(toks), s), s, str(toks))
    elif kind == 'full':
        s = tuple(case[2])
        one_index(ctx, FULL[case[1]](s), s, case[1])
    elif kind == 're':
        reorder(ctx, case[1], tuple(case[2]), case[3], nch, tier)
    elif kind == 'cat':
        cat(ctx, [tuple(s) for s in case[1]], case[2], nch)
    elif kind == 'stk':
        stk(ctx, case[1], tuple(case[2]), case[3], nch)
    elif kind == 'nested':
        nested(ctx, case[1], case[2], case[3])
    elif kind == 'tour':
        tour(ctx, case[1], tier)
    elif kind == 'cattour':
        op = OpCase('C07|concatenate', lambda l, p: ch.concatenate(l, axis=p['axis']), lambda *a, **k: np.concatenate(a, axis=k['axis']))
        run_tour(ctx, op, [([vals(t, 3 * i + j) for j, t in enumerate(sh)], dict(axis=a)) for i, (sh, a) in enumerate(CATS[case[1]])])
    elif kind == 'multi':
        multi(ctx)
    elif kind == 'layout':
        layouts(ctx, case[1])


def one_index(ctx, ix, s, tag):
    x = vals(s, 0)
    try:
        want = x[ix]
    except IndexError:
        return
    ctx.hist([tag, list(s)]); ctx.step(); ctx.state('idx', s, tag)
    cols = np.arange(x.size).reshape(s)[ix].ravel()
    J = np.zeros((cols.size, x.size)); J[np.arange(cols.size), cols] = 1
    l = ch.Ch(x)
    v = l[ix]
    tag = 'x[%s] of shape %s' % (tag, s)
    if cols.size == 0:      # an empty selection: shape only
        if v.r.shape != np.atleast_1d(want).shape:
            ctx.fail('C07|index|empty', '%s: shape %s, NumPy %s' % (tag, v.r.shape, np.atleast_1d(want).shape))
        return
    check_value(ctx, 'C07|index', v, want, tag)
    check_jac(ctx, 'C07|index', v, l, J, tag)
    l.x = vals(s, 4)
    check_value(ctx, 'C07|index|changed', v, vals(s, 4)[ix], tag + ' after a change')
    check_jac(ctx, 'C07|index|changed', v, l, J, tag + ' after a change')
    w = ch.sin(l)[ix]       # of an expression
    check_value(ctx, 'C07|index|expr', w, np.sin(vals(s, 4))[ix], tag + ' of an expression')
    check_jac(ctx, 'C07|index|expr', w, l, J * np.cos(vals(s, 4)).ravel()[None, :], tag + ' of an expression')
    if len(s) == 1 and not isinstance(ix, np.ndarray):
        # flat positions keep their meaning when a vector grows
        l.x = vals((s[0] + 2,), 6)
        J2 = np.zeros((cols.size, s[0] + 2)); J2[np.arange(cols.size), cols] = 1
        check_value(ctx, 'C07|index|grown', v, vals((s[0] + 2,), 6)[cols].reshape(v.shape), tag + ' after growing')
        check_jac(ctx, 'C07|index|grown', v, l, J2, tag + ' after growing')
        # other positions on the existing object
        alt = (cols + 1) % (s[0] + 2)
        v.idxs = alt
        J3 = np.zeros((cols.size, s[0] + 2)); J3[np.arange(cols.size), alt] = 1
        check_value(ctx, 'C07|index|moved', v, vals((s[0] + 2,), 6)[alt].reshape(v.shape), tag + ' after moving')
        check_jac(ctx, 'C07|index|moved', v, l, J3, tag + ' after moving')


def ok(f, *a, **k):
    try:
        f(*a, **k)
        return True
    except Exception:
        return False


def reorder(ctx, n, s, i, nch, tier):
    build, ref, grid, shapes, reshape_ok = T[n]
    ps = grid(s)
    p0 = ps[i]
    if not ok(ref, vals(s, 0), **p0):
        return
    cfgs = [([vals(s, 0)], p0), ([vals(s, 5)], p0)]
    s2 = other(s)
    if reshape_ok and ok(ref, vals(s2, 2), **p0):
        cfgs.append(([vals(s2, 2)], p0))
        s3 = tuple(s[::-1])
        if len(s) > 1 and s3 != s and s3 != s2 and ok(ref, vals(s3, 2), **p0):
            cfgs.append(([vals(s3, 3)], p0))
    if n not in ('transpose_star', 'squeeze_ax', 'squeeze_axm', 'expand_dims', 'reshape_star', 'roll_def'):
        for d in (1, 2):
            q = ps[(i + d) % len(ps)]
            if len(ps) > d and ok(ref, vals(s, 0), **q):
                cfgs.append(([vals(s, 8 + d)], q))
                if d == 1 and tier == 'thorough' and reshape_ok and ok(ref, vals(s2, 0), **q):
                    cfgs.append(([vals(s2, 8 + d)], q))
    op = OpCase('C07|' + n, lambda l, p: build(l[0], p), ref)
    run_histories(ctx, op, cfgs, nch if len(cfgs) < 6 else min(nch, 2), patterns=('none', 'dr', 'both') if tier == 'quick' else ('none', 'r', 'dr', 'both'))


NOPARAM = ('transpose_star', 'squeeze_ax', 'squeeze_axm', 'expand_dims', 'reshape_star', 'roll_def')
TSH = [(6,), (2, 3), (3, 2), (1, 6), (6, 1), (2, 1, 3), (3, 2, 1), (2, 3, 2), (3, 2, 2), (1,), (2, 2), (3,)]
CATS = [[([(6,), (6,)], 0), ([(2, 3), (2, 3)], 0), ([(2, 3), (2, 3)], 1), ([(3, 2), (3, 2)], 0), ([(3, 2), (3, 2)], 1), ([(6, 1), (6, 1)], 0), ([(6, 1), (6, 1)], 1),
         ([(1, 6), (1, 6)], 0), ([(1, 6), (1, 6)], -1), ([(4,), (2,)], 0), ([(2, 2), (2, 1)], 1), ([(2, 2), (1, 2)], 0), ([(1, 2, 3), (1, 2, 3)], 0), ([(1, 2, 3), (1, 2, 3)], 1)],
        [([(2, 2), (2, 1), (2, 3)], 1), ([(2, 2), (1, 2), (3, 2)], 0), ([(2, 1), (2, 2), (2, 3)], 1), ([(2, 3), (2, 2), (2, 1)], 1), ([(4,), (2,), (6,)], 0), ([(6,), (4,), (2,)], 0),
         ([(2, 2), (2, 2), (2, 2)], 0), ([(2, 2), (2, 2), (2, 2)], -1), ([(4,), (4,), (4,)], 0), ([(1, 4), (1, 4), (1, 4)], 0), ([(1, 4), (1, 4), (1, 4)], 1), ([(1,), (1,), (1,)], 0)]]


def tour(ctx, n, tier):
    """one object through every ordered pair of (shape, argument); operations whose meaning is fixed by the shape keep it"""
    build, ref, grid, shapes, reshape_ok = T[n]
    cap = 40 if tier == 'quick' else 200
    groups = []
    if reshape_ok:
        if n in NOPARAM:
            ps = []
            for s in TSH:
                ps += [q for q in grid(s) if not any(_eqp(q, r) for r in ps)]
            groups = [[(s, q) for s in TSH if ok(ref, vals(s, 0), **q)] for q in ps]
        else:
            g = [(s, q) for s in TSH for q in (grid(s) if reshape_ok is True or tier != 'quick' else grid(s)[:6]) if ok(ref, vals(s, 0), **q)]
            # at most cap configurations at a time: every ordered pair is in some tour
            half = cap // 2
            blocks = [g[i::max(1, -(-len(g) // half))] for i in range(max(1, -(-len(g) // half)))] if len(g) > cap else [g]
            if tier == 'quick' and len(blocks) > 1:
                groups = [blocks[i] + blocks[(i + 1) % len(blocks)] for i in range(len(blocks))][:4]
            else:
                groups = [a + b for a, b in itertools.combinations(blocks, 2)] if len(blocks) > 1 else blocks
    elif n not in NOPARAM:
        groups = [[(s, q) for q in grid(s)] for s in TSH if s in shapes]
    for g in groups:
        cfgs = [([vals(s, i)], q) for i, (s, q) in enumerate(g)]
        if len(cfgs) > 1:
            run_tour(ctx, OpCase('C07|' + n, lambda l, p: build(l[0], p), ref), cfgs, orders=('jac',) if tier == 'quick' else ('value', 'jac'))


def _eqp(a, b):
    return repr(a) == repr(b)


def cat(ctx, shapes, axis, nch):
    ref = lambda *a, **k: np.concatenate(a, axis=k['axis'])
    c0 = ([vals(s, i) for i, s in enumerate(shapes)], dict(axis=axis))
    cfgs = [c0, ([vals(s, 10 + i) for i, s in enumerate(shapes)], dict(axis=axis))]
    nd = len(shapes[0])
    grown = []
    for i, s in enumerate(shapes):
        t = list(s)
        t[axis] += (i + 1) % 3
        grown.append(tuple(t))
    cfgs.append(([vals(s, 20 + i) for i, s in enumerate(grown)], dict(axis=axis)))
    # another extent across the axis
    if nd > 1:
        wide = []
        for s in shapes:
            t = list(s); t[(axis + 1) % nd] += 1
            wide.append(tuple(t))
        cfgs.append(([vals(s, 30 + i) for i, s in enumerate(wide)], dict(axis=axis)))
        if len(set(shapes)) == 1:
            cfgs.append(([vals(s, 40 + i) for i, s in enumerate(shapes)], dict(axis=(axis + 1) % nd)))
    op = OpCase('C07|concatenate', lambda l, p: ch.concatenate(l, axis=p['axis']), ref)
    run_histories(ctx, op, cfgs, nch, patterns=('none', 'r', 'dr', 'both', 'lop'))
    if len(set(shapes)) == 1 and len(shapes) > 1:
        op = OpCase('C07|concatenate_same', lambda l, p: ch.concatenate(l, axis=p['axis']), ref, same=True)
        sc = [([vals(shapes[0], 3)] * len(shapes), dict(axis=axis)), ([vals(shapes[0], 4)] * len(shapes), dict(axis=axis)),
              ([vals(other(shapes[0]), 4)] * len(shapes), dict(axis=axis))]
        run_histories(ctx, op, sc, nch)
    # operands re-bound on the existing object, one at a time and all orders of reads
    for pat in PATTERNS:
        for k in range(len(shapes)):
            ctx.hist(['rebind', k, pat]); ctx.step(); ctx.state('rebind', tuple(shapes), axis, pat, k)
            ls = [ch.Ch(vals(s, i)) for i, s in enumerate(shapes)]
            node = ch.concatenate(ls, axis=axis)
            read(ctx, op, node, ls, pat)
            new = ch.Ch(vals(grown[k], 77))
            setattr(node, 'm%d' % k, new) if False else node.replace(ls[k], new)
            old, ls[k] = ls[k], new
            arrs = [l.r for l in ls]
            check_value(ctx, 'C07|concatenate|rebind', node, np.concatenate(arrs, axis))
            for j, l in enumerate(ls):
                check_jac(ctx, 'C07|concatenate|rebind', node, l, cjac(lambda *a: np.concatenate(a, axis), arrs, j))
            check_jac(ctx, 'C07|concatenate|rebind_old', node, old, np.zeros((node.r.size, old.size)))


def stk(ctx, n, s, k, nch):
    f, g = getattr(np, n), getattr(ch, n)
    at = lambda a: [np.atleast_1d(x) for x in a]
    ref = lambda *a: f(at(a))
    cfgs = [([vals(s, i) for i in range(k)], {}), ([vals(s, 10 + i) for i in range(k)], {})]
    if s not in ((), (1,)):
        cfgs.append(([vals(other(s), 20 + i) for i in range(k)], {}))
    op = OpCase('C07|' + n, lambda l, p: g(l), ref)
    run_histories(ctx, op, cfgs, nch)
    op = OpCase('C07|%s_tuple' % n, lambda l, p: g(tuple(l)), ref)
    run_histories(ctx, op, cfgs[:1], 0)
    if k > 1:
        op = OpCase('C07|%s_same' % n, lambda l, p: g(l), ref, same=True)
        run_histories(ctx, op, [([vals(s, 3)] * k, {}), ([vals(s, 4)] * k, {})], nch)
        # plain arrays among the operands
        for pos in range(k):
            ctx.hist([n, 'array', pos]); ctx.step(); ctx.state(n, s, k, 'arr', pos)
            ls = [ch.Ch(vals(s, i)) for i in range(k)]
            ops = [vals(s, i) if i == pos else l for i, l in enumerate(ls)]
            node = g(ops)
            arrs = [vals(s, i) for i in range(k)]
            check_value(ctx, 'C07|%s|arrays' % n, node, ref(*arrs))
            for i in range(k):
                if i != pos:
                    check_jac(ctx, 'C07|%s|arrays' % n, node, ls[i], cjac(ref, arrs, i))


def nested(ctx, a1, a2, k):
    """concatenations of concatenations along equal or different axes, first/last/both, with one operand shared"""
    x, y, z = (vals((2, 2), i) for i in range(3))
    for pat in PATTERNS:
        ctx.hist(['nested', a1, a2, k, pat]); ctx.step(); ctx.state('nested', a1, a2, k, pat)
        X, Y, Z = ch.Ch(x), ch.Ch(y), ch.Ch(z)
        inner = ch.concatenate((X, Y), axis=a1)
        ninner = lambda x, y: np.concatenate((x, y), axis=a1)
        if k == 0:
            node, f = ch.concatenate((inner, inner), axis=a2), lambda x, y, z: np.concatenate((ninner(x, y), ninner(x, y)), axis=a2)
        elif k == 1:
            node, f = ch.concatenate((inner, ch.concatenate((Z, X), axis=a1)), axis=a2), lambda x, y, z: np.concatenate((ninner(x, y), ninner(z, x)), axis=a2)
        elif k == 2:
            node, f = ch.concatenate((ch.concatenate((Z, Z), axis=a1), inner), axis=a2) * 2., lambda x, y, z: np.concatenate((ninner(z, z), ninner(x, y)), axis=a2) * 2.
        else:
            node, f = ch.concatenate((inner, ch.sin(inner)), axis=a2), lambda x, y, z: np.concatenate((ninner(x, y), np.sin(ninner(x, y))), axis=a2)
        keep = [inner]
        op = OpCase('C07|nested', None, f)
        full = [X, Y, Z]
        read(ctx, op, node, full, pat)
        if pat != 'none':
            inner.r; inner.dr_wrt(X)
        for new in (None, 7):
            if new:
                X.x, Z.x = vals((2, 2), new), vals((2, 2), new + 1)
            arrs = [X.r, Y.r, Z.r]
            full_check(ctx, op, node, full, (new, 0), (arrs, {}), 'nested %s %s kind %d reads %s' % (a1, a2, k, pat))


def multi(ctx):
    for n in (1, 2, 3):
        f, g = getattr(np, 'atleast_%dd' % n), getattr(ch, 'atleast_%dd' % n)
        ls = [ch.Ch(vals(s, 0)) for s in ((2,), (2, 3), (1,))]
        out = g(*ls)
        ctx.hist(); ctx.step(); ctx.state('multi', n)
        for o, l in zip(out, ls):
            check_value(ctx, 'C07|atleast_multi', o, f(l.r))
            check_jac(ctx, 'C07|atleast_multi', o, l, np.eye(l.size))
        # followed by other operations and sums of both
        e = ch.sin(out[0]) + out[0] * 3.
        check_jac(ctx, 'C07|atleast_sum', e, ls[0], np.diag(np.cos(ls[0].r) + 3.))


LAY = ['F', 'newaxis', 'bcast', 'T', 'strided', 'rev', 'f32', 'int']


def layouts(ctx, i):
    """memory layout of the input makes no difference to any operation"""
    from props.c06 import mk
    for n in sorted(T):
        build, ref, grid, shapes, rok = T[n]
        for s in shapes:
            if s == ():
                continue
            for p in grid(s)[:2]:
                ctx.hist([n, LAY[i], list(s)]); ctx.step(); ctx.state('lay', n, LAY[i], s, str(p))
                arr = mk(vals(s, 3), LAY[i])
                l = ch.Ch(arr)
                node = build(l, p)
                x = np.array(arr, dtype=np.float64)
                check_value(ctx, 'C07|%s|layout' % n, node, ref(x, **p), '%s %s on %s input of shape %s' % (n, p, LAY[i], s))
                check_jac(ctx, 'C07|%s|layout' % n, node, l, cjac(lambda y: ref(y, **p), [x], 0), '%s %s on %s input of shape %s' % (n, p, LAY[i], s))
