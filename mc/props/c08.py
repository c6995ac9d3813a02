"""C08 linear algebra."""
from oracle import *
from lifecycle import *
ID = 'C08'
RULE = ('every linear-algebra operation x every supported operand shape (vectors, square, tall, wide, stacked) x operand form (two inputs, one input twice, '
        'plain array on either side, an expression as operand) x every history of up to N changes among {new values, new shapes} with every pattern of reads '
        'in between; for the SVD every order of reading the three factors and their derivatives.')
ASSUMPTIONS = ['well-conditioned inputs with distinct singular values, extents 1-4', 'SVD factors are compared up to the common sign of a pair of singular vectors',
               'derivatives of pinv/lstsq/svd factors are compared with complex-step or 4th-order central differences of the NumPy routine']

DOT = [((3,), (3,)), ((1,), (1,)), ((2, 3), (3,)), ((1, 3), (3,)), ((3,), (3, 2)), ((3,), (3, 1)), ((2, 3), (3, 2)), ((1, 2), (2, 1)), ((2, 1), (1, 2)), ((1, 1), (1, 1)),
       ((3, 1), (1,)), ((2, 2), (2, 2)), ((2, 1, 3), (3,)), ((2, 1, 3), (3, 2)), ((2, 2, 2), (2, 2)),
       ((3,), (2, 3, 2)), ((2, 3), (2, 3, 2)), ((2, 1, 3), (2, 3, 2)), ((1, 2), (1, 2, 3))]
TD = [((2, 3), (3, 2), 1), ((2, 3), (2, 3), 2), ((2, 3), (3, 2), [[1], [0]]), ((2, 3), (2, 3), [[0, 1], [0, 1]]), ((2, 3), (3, 2), [[0, 1], [1, 0]]),
      ((2, 3, 2), (3, 2), [[1], [0]]), ((2, 3, 2), (2, 3), [[0, 1], [0, 1]]), ((2, 3, 2), (3, 2), [[1, 2], [0, 1]]), ((2, 3, 2), (2, 3, 2), 3 - 2),
      ((2, 3, 2), (3, 2, 2), [[-1, -2], [1, 0]]), ((3,), (3,), 1), ((2, 3), (2, 2), [0, 0]), ((2,), (3,), 0), ((1, 1), (1, 1), 1), ((2, 3), (3, 2), [1, 0])]


def mat(n, k=0, m=None):
    """well-conditioned, generic"""
    m = m or n
    a = vals((n, m), k) * .5
    for i in range(min(n, m)):
        a[i, i] += 1.5 + .6 * i + .1 * k % .5
    return a


def stack(sh, k=0):
    n = sh[-1]
    cnt = int(np.prod(sh[:-2])) if len(sh) > 2 else 1
    return np.array([mat(n, k + i) for i in range(cnt)]).reshape(sh)


def cpinv(a):
    t = np.swapaxes(a, -1, -2)
    if a.shape[0] >= a.shape[1]:
        return np.linalg.inv(t.dot(a)).dot(t)
    return t.dot(np.linalg.inv(a.dot(t)))


def cases(tier):
    out = []
    for i in range(len(DOT)):
        out.append(['dot', i])
    for i in range(len(TD)):
        out.append(['td', i])
    out += [['tour', n] for n in ('dot', 'cross', 'inv', 'det', 'slogdet', 'pinv', 'dotsame', 'norm')]
    for s in ((3,), (1, 1), (2, 2), (3, 3)):
        out.append(['dotsame', list(s)])
    for n in (1, 2, 3, 4):
        out.append(['cross', n])
    for mt in ('dense', 'csc', 'csr', 'coo'):
        for rows in (1, 2, 4):
            for vs in ((3,), (3, 1), (1, 3), (3, 2), (2, 3)):
                out.append(['mvm', mt, rows, list(vs)])
    for s in ((1, 1), (2, 2), (3, 3), (1, 2, 2), (2, 2, 2), (3, 1, 1), (2, 3, 3), (2, 1, 2, 2)) + (((2, 2, 3, 3), (4, 4)) if tier == 'thorough' else ()):
        out.append(['inv', list(s)])
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        out.append(['det', n]); out.append(['slogdet', n])
        for k in (2, 3):
            out.append(['slogdetn', n, k])
    for s in ((1, 1), (2, 2), (3, 2), (2, 3), (4, 2), (1, 3), (3, 1), (4, 3)):
        out.append(['pinv', list(s)])
    for s in ((2, 2), (3, 2), (4, 2), (3, 1), (2, 3)):
        for kb in (0, 1, 2):
            for form in ('chch', 'charr', 'arrch', 'expr'):
                out.append(['lstsq', list(s), kb, form])
    for s in ((1, 1), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (3, 1), (1, 3)):
        for ex in (0, 1):
            out.append(['svd', list(s), ex])
    return [c + [tier] for c in out]


def grow(s):
    return tuple({1: 2, 2: 3, 3: 2, 4: 3}[d] for d in s)


def forms(ctx, key, mk, ref, a, b, a2, b2):
    """plain arrays on either side, expressions as operands, and one changed operand"""
    for form in ('cc', 'ca', 'ac', 'ee'):
        for pat in ('none', 'r', 'dr'):
            ctx.hist([key, form, pat]); ctx.step(); ctx.state(key, form, pat, a.shape, b.shape)
            A, B = ch.Ch(a), ch.Ch(b)
            if form == 'cc': n = mk(A, B)
            elif form == 'ca': n = mk(A, b)
            elif form == 'ac':
                n = mk(ch.Ch(a), B) if key != 'C08|tensordot' else mk(a, B)
            else: n = mk(A * 2., ch.sin(B))
            f = ref if form != 'ee' else (lambda x, y: ref(x * 2., np.sin(y)))
            use = {'cc': (0, 1), 'ca': (0,), 'ac': (1,), 'ee': (0, 1)}[form]
            if pat == 'r': n.r
            if pat == 'dr':
                for i in use: n.dr_wrt((A, B)[i])
            cur = [a, b]
            for step in (0, 1):
                if step:
                    if 0 in use: A.x = a2; cur[0] = a2
                    else: B.x = b2; cur[1] = b2
                tag = '%s form %s reads %s step %d shapes %s %s' % (key, form, pat, step, a.shape, b.shape)
                check_value(ctx, key + '|form', n, f(*cur), tag)
                for i in use:
                    check_jac(ctx, key + '|form', n, (A, B)[i], cjac(f, cur, i), tag)


def run(case, ctx):
    kind, tier = case[0], case[-1]
    nch = 2 if tier == 'thorough' else 1
    P = ('none', 'r', 'dr', 'both', 'lop')
    if kind == 'dot':
        s1, s2 = DOT[case[1]]
        f = lambda a, b: np.dot(a, b)
        cfgs = [([vals(s1, 0), vals(s2, 9)], {}), ([vals(s1, 3), vals(s2, 12)], {}), ([vals(grow(s1), 5), vals(grow(s2), 15)], {})]
        for n, b in (('dot', lambda l, p: ch.dot(l[0], l[1])), ('dot_m', lambda l, p: l[0].dot(l[1]))):
            run_histories(ctx, OpCase('C08|' + n, b, f), cfgs, nch, P if n == 'dot' else ('none', 'both'))
        forms(ctx, 'C08|dot', lambda a, b: ch.dot(a, b), f, vals(s1, 0), vals(s2, 9), vals(s1, 3), vals(s2, 4))
    elif kind == 'tour':
        tour(ctx, case[1])
    elif kind == 'td':
        s1, s2, ax = TD[case[1]]
        f = lambda a, b: np.tensordot(a, b, ax)
        op = OpCase('C08|tensordot', lambda l, p: ch.tensordot(l[0], l[1], ax), f)
        run_histories(ctx, op, [([vals(s1, 0), vals(s2, 9)], {}), ([vals(s1, 3), vals(s2, 12)], {})], nch, P)
        forms(ctx, 'C08|tensordot', lambda a, b: ch.tensordot(a, b, ax), f, vals(s1, 0), vals(s2, 9), vals(s1, 3), vals(s2, 4))
    elif kind == 'dotsame':
        s = tuple(case[1])
        op = OpCase('C08|dot_same', lambda l, p: l[0].dot(l[0]), lambda a, b: np.dot(a, b), same=True)
        run_histories(ctx, op, [([vals(s, 0)] * 2, {}), ([vals(s, 3)] * 2, {}), ([vals(grow(s), 4)] * 2, {})], nch, P)
        op = OpCase('C08|dot_sameT', lambda l, p: l[0].T.dot(l[0]), lambda a, b: np.dot(a.T, b), same=True)
        run_histories(ctx, op, [([vals(s, 0)] * 2, {}), ([vals(s, 3)] * 2, {}), ([vals(grow(s), 4)] * 2, {})], nch, P)
    elif kind == 'cross':
        n = case[1]
        f = lambda a, b: np.stack([a[:, 1] * b[:, 2] - a[:, 2] * b[:, 1], a[:, 2] * b[:, 0] - a[:, 0] * b[:, 2], a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]], axis=1)
        cfgs = [([vals((n, 3), 0), vals((n, 3), 9)], {}), ([vals((n, 3), 3), vals((n, 3), 12)], {}), ([vals((n + 1, 3), 5), vals((n + 1, 3), 15)], {})]
        run_histories(ctx, OpCase('C08|cross', lambda l, p: ch.cross(l[0], l[1]), f), cfgs, nch, P)
        run_histories(ctx, OpCase('C08|cross_same', lambda l, p: ch.cross(l[0], l[0]), f, same=True), [([c[0][0]] * 2, {}) for c in cfgs], nch, P)
        forms(ctx, 'C08|cross', lambda a, b: ch.cross(a, b), f, *[vals((n, 3), k) for k in (0, 9, 3, 4)])
    elif kind == 'mvm':
        mt, rows, vs = case[1], case[2], tuple(case[3])
        conv = {'dense': np.array, 'csc': sp.csc_matrix, 'csr': sp.csr_matrix, 'coo': sp.coo_matrix}[mt]
        n = int(np.prod(vs))
        rows *= (vs[1] if len(vs) > 1 else 1)
        m0, m1 = vals((rows, n), 20), vals((rows + (vs[1] if len(vs) > 1 else 1), n), 21)
        m0[0, 0] = 0
        def f(v, mtx):
            d = np.asarray(mtx.toarray() if sp.issparse(mtx) else mtx)
            r = d.dot(v.ravel())
            return r.reshape((-1, v.shape[1])) if v.ndim > 1 and v.shape[1] > 1 else r
        M0, M1 = conv(m0), conv(m1)
        op = OpCase('C08|MatVecMult', lambda l, p: ch.MatVecMult(mtx=p['mtx'], vec=l[0]), f)
        run_histories(ctx, op, [([vals(vs, 0)], {'mtx': M0}), ([vals(vs, 4)], {'mtx': M0}), ([vals(vs, 0)], {'mtx': M1})], nch, P)
    elif kind == 'inv':
        s = tuple(case[1])
        op = OpCase('C08|inv', lambda l, p: ch.linalg.inv(l[0]), np.linalg.inv)
        cf = [([stack(s, 0)], {}), ([stack(s, 3)], {})]
        if s[-1] < 3: cf.append(([stack(s[:-2] + (s[-1] + 1,) * 2, 5)], {}))
        if len(s) == 3: cf.append(([stack((s[0] + 1,) + s[1:], 5)], {}))
        run_histories(ctx, op, cf, nch, P)
    elif kind in ('det', 'slogdet'):
        n = case[1]
        f = np.linalg.det if kind == 'det' else (lambda a: np.linalg.slogdet(a)[1])
        cdet = lambda a: a[0, 0] if a.shape[0] == 1 else sum((-1) ** j * a[0, j] * cdet(np.delete(a[1:], j, 1)) for j in range(a.shape[0]))
        cf = cdet if kind == 'det' else (lambda a: np.log(cdet(a) * np.sign(np.real(cdet(a)))))
        neg = mat(n, 2).copy(); neg[0] *= -1
        cfgs = [([mat(n, 0)], {}), ([neg], {}), ([mat(n + 1, 1)], {})]
        b = (lambda l, p: ch.linalg.det(l[0])) if kind == 'det' else (lambda l, p: ch.linalg.slogdet(l[0])[1])
        run_histories(ctx, OpCase('C08|' + kind, b, f, cf), cfgs, nch, P)
        if kind == 'slogdet':
            # sign and log from one call, every order of reading, through changes of sign
            for order in itertools.permutations(('sign', 'log', 'dlog')):
                for seq in itertools.product(range(3), repeat=3):
                    ctx.hist(['slogdet', order, seq]); ctx.state('slogdet', n, order, seq)
                    x = ch.Ch(cfgs[seq[0]][0][0])
                    sg, lg = ch.linalg.slogdet(x)
                    for k, c in enumerate(seq):
                        a = cfgs[c][0][0]
                        if k: x.x = a; ctx.step()
                        for o in (order if k else order[:1]):
                            if o == 'sign':
                                check_value(ctx, 'C08|slogdet|sign', sg, np.linalg.slogdet(a)[0])
                            elif o == 'log':
                                check_value(ctx, 'C08|slogdet|log', lg, np.linalg.slogdet(a)[1])
                            else:
                                check_jac(ctx, 'C08|slogdet|dlog', lg, x, cjac(cf, [a], 0))
                    check_jac(ctx, 'C08|slogdet|dsign', sg, x, np.zeros((1, x.size)))
    elif kind == 'slogdetn':
        n, k = case[1], case[2]
        xs = [ch.Ch(mat(n, i)) for i in range(k)]
        ctx.hist(case); ctx.state(*map(str, case))
        sg, lg = ch.linalg.slogdet(*xs)
        for ch_i in [None] + list(range(k)):
            ctx.step()
            if ch_i is not None: xs[ch_i].x = -mat(n, 5 + ch_i)
            check_value(ctx, 'C08|slogdetn', lg, [np.linalg.slogdet(x.r)[1] for x in xs])
            for i in range(k):
                check_value(ctx, 'C08|slogdetn|sign', sg[i], np.linalg.slogdet(xs[i].r)[0])
                w = np.zeros((k, n * n)); w[i] = np.linalg.inv(xs[i].r).T.ravel()
                check_jac(ctx, 'C08|slogdetn', lg, xs[i], w)
    elif kind == 'pinv':
        s = tuple(case[1])
        op = OpCase('C08|pinv', lambda l, p: ch.linalg.pinv(l[0]), np.linalg.pinv, cpinv, rtol=1e-6, atol=1e-7)
        cfgs = [([mat(s[0], 0, s[1])], {}), ([mat(s[0], 3, s[1])], {}), ([mat(s[1], 4, s[0])], {})]
        if s[0] == s[1]: cfgs = cfgs[:2]
        run_histories(ctx, op, cfgs, nch, P)
    elif kind == 'lstsq':
        lstsq(ctx, tuple(case[1]), case[2], case[3], nch)
    elif kind == 'svd':
        svd(ctx, tuple(case[1]), case[2], tier)


TDOT = [((3,), (3,)), ((6,), (6,)), ((2, 3), (3,)), ((3, 2), (2,)), ((1, 3), (3,)), ((6, 1), (1,)), ((3,), (3, 2)), ((2,), (2, 3)), ((6,), (6, 1)), ((3,), (3, 1)), ((2, 3), (3, 2)), ((3, 2), (2, 3)),
        ((1, 6), (6, 1)), ((6, 1), (1, 6)), ((1, 1), (1, 1)), ((1,), (1,)), ((2, 2), (2, 2)), ((1, 4), (4, 1)), ((4, 1), (1, 4)), ((2, 1, 3), (3,)), ((2, 1, 3), (3, 2)), ((1, 2, 3), (3, 2)),
        ((3,), (2, 3, 2)), ((2, 3), (2, 3, 2))]


def tour(ctx, n):
    """one object through every ordered pair of operand shapes, several with equal sizes"""
    if n == 'dot':
        return run_tour(ctx, OpCase('C08|dot', lambda l, p: ch.dot(l[0], l[1]), lambda a, b: np.dot(a, b)), [([vals(s, i), vals(t, i + 40)], {}) for i, (s, t) in enumerate(TDOT)])
    if n == 'cross':
        f = lambda a, b: np.stack([a[:, 1] * b[:, 2] - a[:, 2] * b[:, 1], a[:, 2] * b[:, 0] - a[:, 0] * b[:, 2], a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]], axis=1)
        return run_tour(ctx, OpCase('C08|cross', lambda l, p: ch.cross(l[0], l[1]), f), [([vals((k, 3), k), vals((k, 3), k + 40)], {}) for k in (1, 2, 3, 4, 5)])
    if n == 'inv':
        sh = [(1, 1), (2, 2), (3, 3), (1, 2, 2), (4, 1, 1), (1, 4, 4), (4, 2, 2), (2, 2, 2), (1, 1, 2, 2), (2, 1, 2, 2), (4, 4)]
        return run_tour(ctx, OpCase('C08|inv', lambda l, p: ch.linalg.inv(l[0]), np.linalg.inv), [([stack(s, i)], {}) for i, s in enumerate(sh)])
    if n in ('det', 'slogdet'):
        cdet = lambda a: a[0, 0] if a.shape[0] == 1 else sum((-1) ** j * a[0, j] * cdet(np.delete(a[1:], j, 1)) for j in range(a.shape[0]))
        cfgs = [([mat(k, k)], {}) for k in (1, 2, 3, 4)] + [([mat(k, k) * np.array([-1.] + [1.] * (k - 1))], {}) for k in (1, 2, 3)]
        if n == 'det':
            return run_tour(ctx, OpCase('C08|det', lambda l, p: ch.linalg.det(l[0]), np.linalg.det, cdet), cfgs)
        return run_tour(ctx, OpCase('C08|slogdet', lambda l, p: ch.linalg.slogdet(l[0])[1], lambda a: np.linalg.slogdet(a)[1], lambda a: np.log(cdet(a) * np.sign(np.real(cdet(a))))), cfgs)
    if n == 'pinv':
        sh = [(1, 1), (2, 2), (3, 2), (2, 3), (6, 1), (1, 6), (4, 1), (1, 4), (4, 3), (3, 4)]
        return run_tour(ctx, OpCase('C08|pinv', lambda l, p: ch.linalg.pinv(l[0]), np.linalg.pinv, cpinv, rtol=1e-6, atol=1e-7), [([mat(s[0], i, s[1])], {}) for i, s in enumerate(sh)])
    if n == 'dotsame':
        op = OpCase('C08|dot_same', lambda l, p: l[0].dot(l[0]), lambda a, b: np.dot(a, b), same=True)
        return run_tour(ctx, op, [([vals(s, i)] * 2, {}) for i, s in enumerate([(4,), (2, 2), (1, 1), (1,), (9,), (3, 3), (3,)])])
    if n == 'norm':
        op = OpCase('C08|norm', lambda l, p: ch.linalg.norm(l[0]), lambda x: np.sqrt(np.sum(x ** 2)))
        return run_tour(ctx, op, [([vals(s, i)], {}) for i, s in enumerate([(6,), (2, 3), (3, 2), (1, 6), (6, 1), (1,), (1, 1), (2,)])])


def lstsq(ctx, s, kb, form, nch):
    bs = (s[0],) if kb == 0 else (s[0], kb)
    f = lambda a, b: cpinv(a).dot(b)
    res = lambda a, b: np.sum((a.dot(f(a, b)) - b) ** 2, axis=0)
    for pats in itertools.product(('none', 'r', 'dr', 'res', 'dres'), repeat=nch):
        for seq in itertools.product((0, 1, 2), repeat=nch):
            ctx.hist(['lstsq', list(s), kb, form, pats, seq]); ctx.state('lstsq', s, kb, form, pats, seq)
            a, b = mat(s[0], 0, s[1]), vals(bs, 5)
            A, B = ch.Ch(a), ch.Ch(b)
            X, R = {'chch': lambda: ch.linalg.lstsq(A, B), 'charr': lambda: ch.linalg.lstsq(A, b),
                    'arrch': lambda: ch.linalg.lstsq(a, B), 'expr': lambda: ch.linalg.lstsq(A * 1.5, ch.sin(B))}[form]()[:2]
            ff, rr = (f, res) if form != 'expr' else (lambda a, b: f(a * 1.5, np.sin(b)), lambda a, b: res(a * 1.5, np.sin(b)))
            use = {'chch': (0, 1), 'charr': (0,), 'arrch': (1,), 'expr': (0, 1)}[form]
            cur = [a, b]
            for p, q in zip(pats, seq):
                if p == 'r': X.r
                if p == 'res': R.r
                if p in ('dr', 'dres'):
                    for i in use: (X if p == 'dr' else R).dr_wrt((A, B)[i])
                ctx.step()
                if q in (0, 2) and 0 in use: cur[0] = mat(s[0], 4, s[1]); A.x = cur[0]
                if q in (1, 2) and 1 in use: cur[1] = vals(bs, 8); B.x = cur[1]
            tag = 'lstsq %s b%s %s reads %s changes %s' % (s, bs, form, pats, seq)
            check_value(ctx, 'C08|lstsq', X, ff(*cur), tag)
            if s[0] > s[1] and not close(np.atleast_1d(ff(*cur)), np.atleast_1d(np.linalg.lstsq(*(cur if form != 'expr' else (cur[0] * 1.5, np.sin(cur[1]))), rcond=None)[0]), 1e-7, 1e-8):
                raise AssertionError('reference')
            check_value(ctx, 'C08|lstsq|residuals', R, rr(*cur), tag)
            for i in use:
                check_jac(ctx, 'C08|lstsq', X, (A, B)[i], cjac(ff, cur, i), tag, rtol=1e-6, atol=1e-7)
                if s[0] > s[1]:
                    check_jac(ctx, 'C08|lstsq|residuals', R, (A, B)[i], cjac(rr, cur, i), tag, rtol=1e-6, atol=1e-7)


def aligned(a, uref):
    u, s, v = np.linalg.svd(a, full_matrices=False)
    g = np.sign(np.sum(u * uref, axis=0))
    return u * g, s, v * g[:, None]


def svd(ctx, s, ex, tier):
    k = min(s)
    pre = (lambda x: x) if not ex else (lambda x: np.tanh(x * .3) * 4)
    datas = [mat(s[0], 0, s[1]), mat(s[0], 3, s[1])]
    for d in datas:
        sv = np.linalg.svd(pre(d))[1]
        assert np.all(sv > .1) and (k == 1 or np.min(-np.diff(sv)) > .05), ('conditioning', s, sv)
    memo = {}
    reads = ['u', 's', 'v', 'du', 'ds', 'dv']
    pats = [()] + [(r,) for r in reads] + list(itertools.permutations(reads, 2))
    orders = [('u', 's', 'v', 'du', 'ds', 'dv'), ('dv', 'du', 'ds', 'v', 's', 'u'), ('ds', 'dv', 's', 'du', 'u', 'v')]
    if tier == 'thorough':
        orders = list(itertools.permutations(reads))[::7]
    for pat in pats:
        for order in orders:
            ctx.hist(['svd', list(s), pat, order]); ctx.step(2); ctx.state('svd', s, ex, pat, order)
            x = ch.Ch(datas[0])
            z = x if not ex else ch.divide(ch.exp(x * .6) - 1., ch.exp(x * .6) + 1.) * 4.
            U, S, V = ch.linalg.svd(z)
            nodes = dict(u=U, s=S, v=V)
            for r in pat:
                nodes[r].r if r in nodes else nodes[r[1]].dr_wrt(x)
            x.x = datas[1]
            a = datas[1]
            got = {}
            for r in order:
                got[r] = np.array(nodes[r].r) if r in nodes else nodes[r[1]].dr_wrt(x)
            tag = 'svd of shape %s, reads before the change %s, order after it %s' % (s, pat, order)
            key = got['u'].tobytes()
            if key not in memo:
                uref = got['u']
                ref = aligned(pre(a), uref)
                memo[key] = ref, [fdjac(lambda y: aligned(pre(y), uref)[i], [a], 0, 1e-5) for i in range(3)]
            ref, jac = memo[key]
            for i, n in enumerate('usv'):
                ctx.seen(n, got[n].tobytes())
                if not close(got[n], ref[i], 1e-7, 1e-8):
                    ctx.fail('C08|svd|%s' % n, '%s: factor %s is %s, NumPy (up to sign) %s' % (tag, n, summ(got[n]), summ(ref[i])))
                check_jac(ctx, 'C08|svd|d%s' % n, nodes[n], x, jac[i], tag + ' factor ' + n, rtol=1e-5, atol=1e-6, J=got['d' + n])
