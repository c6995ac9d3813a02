"""C19: the part of the API that has no derivative, against NumPy."""
from oracle import *
from lifecycle import *
import contextlib, io, operator, warnings
ID = 'C19'
RULE = ('every element-wise test, rounding and comparison on every vector over an alphabet of special and ordinary numbers; every index-returning and reducing test on every small array over an alphabet with ties, zeros and NaN, every axis; '
        'every creation routine and random wrapper on a grid of argument tuples; every attribute and conversion on every shape; each for inputs, expressions, plain arrays and numbers, through functions, methods and operators, '
        'and over every history of up to N changes (values, shape, operands, parameters) with every pattern of reads in between; derivatives of them and of expressions containing them, in both modes')
ASSUMPTIONS = ['values are stored as floating point numbers with at least one dimension (the documented convention of the library), so results are compared as numbers',
               '== compares identities (documented), the function equal compares values']
CHUNKS = 24
inf, nan = np.inf, np.nan
AL = [-inf, -2.5, -1., -0., 0., .5, 1., 3.7, inf, nan]
AL5 = [-1., 0., .5, inf, nan]
AL3 = [-1., 0., 2., nan]

ELEM = ['floor', 'ceil', 'sign', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not']
CMP = {'greater': operator.gt, 'greater_equal': operator.ge, 'less': operator.lt, 'less_equal': operator.le, 'not_equal': operator.ne, 'equal': None}
ARG = ['argmax', 'argmin', 'nanargmax', 'nanargmin']
WHERE = ['nonzero', 'argwhere', 'flatnonzero']
RED = ['all', 'any']
ATTR = ['shape', 'size', 'ndim', 'dtype', 'len', 'itemsize', 'flat', 'asarray', 'array', 'float', 'int', 'iter', 'chshape', 'str', 'asarray32', 'npfunc', 'chasarray']
SH = [(), (1,), (3,), (2, 3), (1, 1), (3, 1), (2, 1, 3), (2, 3, 2), (0,), (0, 3)]

CREATE = {
    'eye': [((3,), {}), ((2, 3), {}), ((3, 2, 1), {}), ((3,), dict(k=-1)), ((1,), {}), ((3,), dict(M=4, k=2)), ((2,), dict(dtype=int))],
    'identity': [((1,), {}), ((3,), {})],
    'ones': [((3,), {}), (((2, 3),), {}), (((1, 1),), {}), (((2, 1, 3),), {}), ((2,), dict(dtype=int)), ((0,), {})],
    'zeros': [((3,), {}), (((2, 3),), {}), (((1, 1),), {}), (((2, 1, 3),), {}), ((2,), dict(dtype=int)), (((0, 2),), {})],
    'ones_like': [((vals((2, 3)),), {}), ((np.arange(3),), {}), (([1, 2],), {}), ((5.,), {})],
    'zeros_like': [((vals((2, 3)),), {}), ((np.arange(3),), {}), (([1, 2],), {}), ((5.,), {})],
    'array': [(([1, 2, 3],), {}), (([[1, 2], [3, 4]],), {}), ((5,), {}), ((vals((2, 3)),), {}), (((1., 2.),), {}), (([True, False],), {}), (([1],), dict(ndmin=2)), ((vals((3,)),), dict(copy=False)), (([],), {})],
    'arange': [((5,), {}), ((1, 7, 2), {}), ((2., 3., .25), {}), ((5, 1, -1), {}), ((3,), dict(dtype=float))],
    'linspace': [((0, 1, 5), {}), ((2., -1., 4), {}), ((0, 1), dict(num=3, endpoint=False)), ((3, 3, 1), {})],
    'logspace': [((0, 1, 5), {}), ((2., -1., 4), {}), ((0, 1), dict(num=3, base=2.))],
    'meshgrid': [(([1, 2], [3, 4]), {}), ((np.arange(3.), np.arange(3.)), {}), (([1, 2], [3, 4]), dict(indexing='ij'))],
    'fromfunction': [((lambda i, j: i + 2 * j, (2, 3)), {}), ((lambda i: i * i, (4,)), {})],
    'tri': [((3,), {}), ((2, 3), {}), ((3, 3, -1), {}), ((3,), dict(k=1))],
}
SHAPES_ONLY = {'empty': [((3,), {}), (((2, 3),), {})], 'empty_like': [((vals((2, 3)),), {}), ((vals((3,)),), {})]}
_m = ([1., -1.], [[2., .3], [.3, 1.]])
RANDOM = {
    'rand': [(), (3,), (2, 3)], 'randn': [(), (3,), (2, 3)], 'randint': [(5,), (2, 9), (0, 10, (2, 3))], 'random_integers': [(5,), (2, 9, 3)], 'random_sample': [(), (3,), ((2, 3),)],
    'random': [(), (3,), ((2, 3),)], 'ranf': [(), (3,)], 'sample': [(), ((2, 2),)], 'beta': [(1., 2.), (1., 2., 3)], 'binomial': [(10, .5), (10, .3, 4)], 'chisquare': [(2,), (2, 3)],
    'dirichlet': [([1., 2., 3.],), ([1., 2.], 3)], 'exponential': [(), (2., 3)], 'f': [(2, 3), (2, 3, 4)], 'gamma': [(2.,), (2., 3., (2, 2))], 'geometric': [(.3,), (.3, 4)],
    'gumbel': [(), (1., 2., 3)], 'hypergeometric': [(5, 6, 3), (5, 6, 3, 4)], 'laplace': [(), (1., 2., 3)], 'logistic': [(), (1., 2., 3)], 'lognormal': [(), (1., .2, 3)], 'logseries': [(.6,), (.6, 3)],
    'multinomial': [(10, [.2, .3, .5]), (10, [.5, .5], 3)], 'multivariate_normal': [_m, _m + (3,)], 'negative_binomial': [(3, .4), (3, .4, 3)], 'noncentral_chisquare': [(2, 1.), (2, 1., 3)],
    'noncentral_f': [(2, 3, 1.), (2, 3, 1., 3)], 'normal': [(), (1., 2.), (1., 2., (2, 3))], 'pareto': [(2.,), (2., 3)], 'poisson': [(), (3., 4)], 'power': [(2.,), (2., 3)], 'rayleigh': [(), (2., 3)],
    'standard_cauchy': [(), (3,)], 'standard_exponential': [(), (3,)], 'standard_gamma': [(2.,), (2., 3)], 'standard_normal': [(), (3,)], 'standard_t': [(3,), (3, 4)], 'triangular': [(0, 1, 2), (0, 1, 2, 3)],
    'uniform': [(), (1., 2.), (1., 2., (2, 3))], 'vonmises': [(0, 1.), (0, 1., 3)], 'wald': [(1., 2.), (1., 2., 3)], 'weibull': [(2.,), (2., 3)], 'zipf': [(2.,), (2., 3)],
}


def cases(tier):
    out = []
    T = tier == 'thorough'
    out += [['elem', f] for f in ELEM]
    for f in CMP:
        out += [['cmp', f, i] for i in range(len(AL))]
        out += [['cmpsh', f, i] for i in range(len(BC))]
    for f in ARG + WHERE + RED:
        out += [['arr', f, i, T] for i in range(4)]
        out += [['arrsh', f, list(s)] for s in SH]
    for f in ELEM:
        out += [['life', f, i, T] for i in range(len(LIFE_SH))]
    for f in CMP:
        out += [['lifecmp', f, i, T] for i in range(len(BC))]
    for f in RED:
        out += [['lifered', f, i, T] for i in range(len(LIFE_SH))]
    out += [['create', f, i] for f in sorted(CREATE) for i in range(len(CREATE[f]))]
    out += [['shape', f, i] for f in sorted(SHAPES_ONLY) for i in range(len(SHAPES_ONLY[f]))]
    out += [['random', f] for f in sorted(RANDOM)]
    out += [['rstate', 0], ['creation_misc', 0]]
    out += [['attr', list(s), T] for s in SH]
    out += [['mixed', f] for f in ELEM + sorted(CMP) + RED]
    return out


BC = [((3,), (3,)), ((3,), (1,)), ((1,), (3,)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((1,), (1,)), ((2, 3), (2, 3)), ((2, 1, 3), (2, 1))]
LIFE_SH = [(1,), (3,), (2, 3), (2, 1, 3)]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a.astype(np.float64), b.astype(np.float64), equal_nan=True))


def expect(ctx, key, tag, got, want, plain=False):
    """got: expression (or plain result); want: NumPy's"""
    ctx.seen(key, np.asarray(want).tobytes() if not isinstance(want, tuple) else str(want))
    if isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != len(want) or not all(same(g, w) for g, w in zip(got, want)):
            ctx.fail(key, '%s: got %s, NumPy %s' % (tag, got, want))
        return
    w = np.asarray(want) if plain else np.atleast_1d(want)
    g = got.r if hasattr(got, 'r') else np.asarray(got)
    if not plain and not hasattr(got, 'r'):
        ctx.fail(key, '%s: got %s instead of an expression' % (tag, type(got)))
        return
    if not same(g, w):
        ctx.fail(key, '%s: got %s %s, NumPy %s %s' % (tag, g.shape, summ(g), w.shape, summ(w)))


def raises(f, *a, **k):
    try:
        f(*a, **k)
        return None
    except Exception as e:
        return e


def zero(ctx, key, tag, node, leaves):
    for l in leaves:
        for how, J in (('forward', node.dr_wrt(l)), ('reverse', node.dr_wrt(l, reverse_mode=True)), ('product', node.lop(l, np.ones((2, node.r.size))))):
            n = 2 if how == 'product' else node.r.size
            D = None if J is None else (J.toarray() if sp.issparse(J) else np.atleast_2d(np.asarray(J)))
            if D is not None and (D.shape != (n, l.r.size) or np.any(D != 0)):
                ctx.fail(key + '|dr', '%s: the derivative (%s) should be none or zero, is %s' % (tag, how, summ(D)))


def run(case, ctx):
    warnings.simplefilter('ignore')
    globals()['k_' + case[0]](ctx, *case[1:])


def k_elem(ctx, f):
    fn, nf = getattr(ch, f), getattr(np, f)
    for v in itertools.product(AL, repeat=2):
        ctx.hist([f, list(map(str, v))]); ctx.step(); ctx.state(f, str(v))
        x = np.array(v)
        l = ch.Ch(x)
        n = fn(l)
        tag = '%s(%s)' % (f, summ(x))
        expect(ctx, 'C19|' + f, tag, n, nf(x))
        zero(ctx, 'C19|' + f, tag, n, [l])
        e = l + 0.
        expect(ctx, 'C19|%s|expr' % f, tag + ' of an expression', fn(e), nf(x + 0.))
        if f in ('floor', 'ceil'):
            expect(ctx, 'C19|%s|method' % f, tag + ' as a method', getattr(l, f)(), nf(x))
        l.x = x[::-1] * 1.
        expect(ctx, 'C19|%s|changed' % f, tag + ' after reversal', n, nf(x[::-1]))
    for s in SH:
        x = vals(s, 2) * 2
        ctx.hist(); ctx.step(); ctx.state(f, s)
        expect(ctx, 'C19|%s|shape' % f, '%s of shape %s' % (f, s), fn(ch.Ch(x)), nf(np.atleast_1d(x)))
        expect(ctx, 'C19|%s|plain' % f, '%s of a plain array of shape %s' % (f, s), fn(x), nf(np.atleast_1d(x)))


def k_cmp(ctx, f, i):
    fn, nf, op = getattr(ch, f), getattr(np, f), CMP[f]
    for b in AL:
        for (x, y) in ((np.array([AL[i], b]), np.array([b, AL[i]])), (np.array([AL[i], 1.]), np.array([b, 1.]))):
            ctx.hist([f, summ(x), summ(y)]); ctx.step(); ctx.state(f, str(x), str(y))
            want = nf(x, y)
            tag = '%s(%s, %s)' % (f, summ(x), summ(y))
            X, Y = ch.Ch(x), ch.Ch(y)
            n = fn(X, Y)
            expect(ctx, 'C19|' + f, tag, n, want)
            zero(ctx, 'C19|' + f, tag, n, [X, Y])
            expect(ctx, 'C19|%s|array' % f, tag + ' with a plain array', fn(X, y), want)
            expect(ctx, 'C19|%s|array' % f, tag + ' with a plain array', fn(x, Y), want)
            expect(ctx, 'C19|%s|expr' % f, tag + ' of expressions', fn(X + 0., Y * 1.), want)
            if op:
                expect(ctx, 'C19|%s|op' % f, tag + ' as an operator', op(X, Y), want)
                expect(ctx, 'C19|%s|op' % f, tag + ' as an operator with a plain array', op(X, y), want)
                expect(ctx, 'C19|%s|op' % f, tag + ' as an operator with a number', op(X, float(y[0])), nf(x, y[0]))
                expect(ctx, 'C19|%s|rop' % f, tag + ' as a reflected operator', op(float(x[0]), Y), nf(x[0], y))
                expect(ctx, 'C19|%s|rop' % f, tag + ' as a reflected operator with an array', op(x, Y), want)
            expect(ctx, 'C19|%s|same' % f, tag + ' with itself', fn(X, X), nf(x, x))
            X.x = y.copy()
            expect(ctx, 'C19|%s|changed' % f, tag + ' after a change', n, nf(y, y))
            Y.x = x.copy()
            expect(ctx, 'C19|%s|changed' % f, tag + ' after changes', n, nf(y, x))


def k_cmpsh(ctx, f, i):
    fn, nf, op = getattr(ch, f), getattr(np, f), CMP[f]
    s1, s2 = BC[i]
    for (p, q) in ((s1, s2), (s2, s1)):
        x, y = np.round(vals(p, 1)), np.round(vals(q, 2))
        ctx.hist([f, list(p), list(q)]); ctx.step(); ctx.state(f, p, q)
        X, Y = ch.Ch(x), ch.Ch(y)
        expect(ctx, 'C19|%s|bc' % f, '%s of shapes %s %s' % (f, p, q), fn(X, Y), nf(x, y))
        zero(ctx, 'C19|%s|bc' % f, '%s of shapes %s %s' % (f, p, q), fn(X, Y), [X, Y])
        expect(ctx, 'C19|%s|bc' % f, '%s of shapes %s %s' % (f, p, q), fn(x, Y), nf(x, y))
        if op:
            expect(ctx, 'C19|%s|bc' % f, '%s of shapes %s %s' % (f, p, q), op(X, Y), nf(x, y))
            expect(ctx, 'C19|%s|bc' % f, '%s of shapes %s %s' % (f, p, q), op(x, Y), nf(x, y))


def arrays(i, T):
    if i == 0:
        for v in itertools.product(AL5, repeat=3): yield np.array(v)
    elif i == 1:
        for v in itertools.product(AL3 if T else AL3[:3], repeat=4): yield np.array(v).reshape(2, 2)
    elif i == 2:
        for v in itertools.product(AL, repeat=1): yield np.array(v)
        for v in itertools.product(AL3, repeat=2): yield np.array(v).reshape(2, 1)
        for v in itertools.product(AL3, repeat=2): yield np.array(v).reshape(1, 2)
    else:
        for v in itertools.product(AL3[:2] if not T else AL3[1:], repeat=6 if not T else 4): yield np.array(v).reshape((2, 3) if not T else (2, 1, 2))


def calls(f, nd):
    if f in WHERE:
        return [((), {})]
    out = [((), {})] + [((a,), {}) for a in list(range(-nd, nd))] + [((), dict(axis=a)) for a in [None] + list(range(nd))]
    if f in RED:
        out += [((), dict(axis=0, keepdims=True))]
    return out


def one_array(ctx, f, x, tag=''):
    fn, nf = getattr(ch, f), getattr(np, f)
    l = ch.Ch(x)
    e = l * 1.
    xx = np.atleast_1d(x)
    for a, k in calls(f, xx.ndim):
        ctx.hist([f, summ(x), str(a), str(k)]); ctx.step(); ctx.state(f, str(x), str(a), str(k))
        t = '%s(%s%s)' % (f, summ(x), ', %s %s' % (a, k) if a or k else '')
        err = raises(nf, xx, *a, **k)
        if err is not None:
            if raises(lambda: fn(l, *a, **k).r if f in RED else fn(l, *a, **k)) is None:
                ctx.fail('C19|%s|error' % f, '%s: NumPy refuses (%s), got a result' % (t, err))
            continue
        want = nf(xx, *a, **k)
        if f in RED:
            n = fn(l, *a, **k)
            expect(ctx, 'C19|' + f, t, n, want)
            if x.size:
                zero(ctx, 'C19|' + f, t, n, [l])
            expect(ctx, 'C19|%s|expr' % f, t + ' of an expression', fn(e, *a, **k), want)
        else:
            expect(ctx, 'C19|' + f, t, fn(l, *a, **k), want, True)
            expect(ctx, 'C19|%s|expr' % f, t + ' of an expression', fn(e, *a, **k), want, True)
            expect(ctx, 'C19|%s|plain' % f, t + ' of a plain array', fn(xx, *a, **k), want, True)
    # later changes
    y = np.atleast_1d(x)[::-1] * 1.
    l.x = y
    for a, k in calls(f, y.ndim)[:3]:
        if raises(nf, y, *a, **k) is None:
            if f in RED:
                expect(ctx, 'C19|%s|changed' % f, '%s after a change to %s' % (f, summ(y)), fn(e, *a, **k), nf(y, *a, **k))
            else:
                expect(ctx, 'C19|%s|changed' % f, '%s after a change to %s' % (f, summ(y)), fn(e, *a, **k), nf(y, *a, **k), True)


def k_arr(ctx, f, i, T):
    for x in arrays(i, T):
        one_array(ctx, f, x)


def k_arrsh(ctx, f, s):
    x = np.round(vals(tuple(s), 3))
    one_array(ctx, f, x)
    one_array(ctx, f, np.asfortranarray(x))
    if x.ndim > 1:
        one_array(ctx, f, x.T)


CZ = lambda val: (lambda *a, **k: np.asarray(val(*[x.real for x in a], **k), dtype=np.float64) * 1.)


def k_life(ctx, f, i, T):
    fn, nf = getattr(ch, f), getattr(np, f)
    s = LIFE_SH[i]
    sp_ = vals(s, 3).copy(); sp_.ravel()[0] = nan if 'nan' in f or 'fin' in f else inf
    cfgs = [([vals(s, 1) * 2], {}), ([np.round(vals(s, 2))], {}), ([vals(tuple(d + 1 for d in s), 3) * 2], {}), ([sp_], {})]
    op = OpCase('C19|%s|history' % f, lambda l, p: fn(l[0]), nf, cval=CZ(nf))
    run_histories(ctx, op, cfgs[:3], 2 if T else 1)
    op = OpCase('C19|%s|history' % f, lambda l, p: fn(l[0]), nf, skip_jac=True)
    run_histories(ctx, op, cfgs, 2, patterns=('none', 'r'))
    op = OpCase('C19|%s|history expr' % f, lambda l, p: fn(l[0] * 2. - l[1]), lambda x, y: nf(x * 2. - y), cval=CZ(lambda x, y: nf(x * 2. - y)))
    run_histories(ctx, op, [([vals(s, 1) * 2, vals(s, 4)], {}), ([vals(s, 2), vals(s, 5)], {}), ([vals(s, 1) * 2, vals(s, 9) * 4], {})], 1)


def k_lifecmp(ctx, f, i, T):
    fn, nf = getattr(ch, f), getattr(np, f)
    p, q = BC[i]
    mk = lambda k: ([np.round(vals(p, k)), np.round(vals(q, k + 1))], {})
    cfgs = [mk(0), mk(3), ([np.round(vals(q, 2)), np.round(vals(p, 3))], {})]
    op = OpCase('C19|%s|history' % f, lambda l, pp: fn(l[0], l[1]), nf, cval=CZ(nf))
    run_histories(ctx, op, cfgs, 2 if T else 1)
    op = OpCase('C19|%s|history' % f, lambda l, pp: fn(l[0], l[1]), nf, skip_jac=True)
    run_histories(ctx, op, cfgs, 2, patterns=('none', 'r'))
    # re-binding operands
    for pat in ('none', 'r', 'dr'):
        for slots in (('x1',), ('x2',), ('x1', 'x2')):
            ctx.hist([f, pat, slots]); ctx.step(); ctx.state(f, i, pat, slots)
            x, y, z = np.round(vals(p, 0)), np.round(vals(q, 1)), np.round(vals((1,), 7))
            X, Y, Z = ch.Ch(x), ch.Ch(y), ch.Ch(z)
            n = fn(X, Y)
            if pat != 'none': n.r
            if pat == 'dr': n.dr_wrt(X)
            n.set(**{s: Z for s in slots})
            w = nf(z if 'x1' in slots else x, z if 'x2' in slots else y)
            expect(ctx, 'C19|%s|rebound' % f, '%s, %s, %s re-bound' % (f, pat, slots), n, w)
            Z.x = -z
            expect(ctx, 'C19|%s|rebound' % f, '%s, %s, %s re-bound and changed' % (f, pat, slots), n, nf(-z if 'x1' in slots else x, -z if 'x2' in slots else y))
            zero(ctx, 'C19|%s|rebound' % f, f, n, [X, Y, Z])


def k_lifered(ctx, f, i, T):
    fn, nf = getattr(ch, f), getattr(np, f)
    s = LIFE_SH[i]
    xs = [np.round(vals(s, 1)), np.zeros(s), np.ones(s), np.round(vals(tuple(d + 1 for d in s), 3))]
    cfgs = [([x], dict(axis=a)) for x in xs for a in ([None, 0] if not T else [None, 0, -1])]
    op = OpCase('C19|%s|history' % f, lambda l, p: fn(l[0], **p), lambda x, **p: nf(x, **p), cval=CZ(nf))
    setp = lambda n, k, v: setattr(n, 'kwargs', dict(n.kwargs, **{k: v}))
    run_histories(ctx, op, cfgs, 1, setp=setp, patterns=('none', 'r', 'both'))
    op = OpCase('C19|%s|history expr' % f, lambda l, p: fn(l[0] > l[1], **p), lambda x, y, **p: nf(x > y, **p), cval=CZ(lambda x, y, **p: nf(x > y, **p)))
    run_histories(ctx, op, [([x, np.zeros(1)], {}) for x in xs] + [([xs[0], vals((1,), 3)], {})], 1, patterns=('none', 'r'))


def k_create(ctx, f, i):
    a, k = CREATE[f][i]
    fn, nf = getattr(ch, f), getattr(np, f)
    want = np.asarray(nf(*a, **k), dtype=np.float64)
    ctx.hist([f, i]); ctx.step(); ctx.state(f, i)
    tag = 'ch.%s%s %s' % (f, str(a)[:80], k)
    l = fn(*a, **k)
    expect(ctx, 'C19|' + f, tag, l, want)
    # it is an input like any other
    w = np.atleast_1d(want)
    if w.size and type(l) is ch.Ch:
        y = l * 3.
        expect(ctx, 'C19|%s|use' % f, tag + ' times three', y, w * 3.)
        check_jac(ctx, 'C19|%s|use' % f, y, l, np.eye(w.size) * 3., tag)
        l[tuple(0 for _ in w.shape)] = 9.
        w2 = w.copy(); w2[tuple(0 for _ in w.shape)] = 9.
        expect(ctx, 'C19|%s|use' % f, tag + ' assigned to', y, w2 * 3.)
        l.x = vals((2,), 3)
        expect(ctx, 'C19|%s|use' % f, tag + ' replaced', y, vals((2,), 3) * 3.)
        expect(ctx, 'C19|%s|again' % f, tag + ' once more', fn(*a, **k), want)
    if a and isinstance(a[0], np.ndarray):
        keep = a[0].copy()
        q = fn(*a, **k)
        q.r
        if a[0].tobytes() != keep.tobytes():
            ctx.fail('C19|%s|arg' % f, tag + ': argument modified')
    # from expressions
    if f in ('ones_like', 'zeros_like', 'array') and isinstance(a[0], np.ndarray):
        X = ch.Ch(a[0])
        expect(ctx, 'C19|%s|ch' % f, tag + ' of an input', fn(X), want)
        expect(ctx, 'C19|%s|ch' % f, tag + ' of an expression', fn(X * 1.), want)


def k_shape(ctx, f, i):
    a, k = SHAPES_ONLY[f][i]
    l = getattr(ch, f)(*a, **k)
    ctx.hist([f, i]); ctx.step(); ctx.state(f, i)
    if l.r.shape != getattr(np, f)(*a, **k).shape:
        ctx.fail('C19|' + f, 'ch.%s: shape %s' % (f, l.r.shape))


def k_creation_misc(ctx, _):
    ctx.hist(['misc']); ctx.step(); ctx.state('misc')
    x = vals((2, 3), 1)
    X = ch.Ch(x)
    for f in ('asarray', 'ascontiguousarray', 'asfarray'):
        if getattr(ch, f)(X) is not X:
            ctx.fail('C19|' + f, 'ch.%s of an input is another object' % f)
        e = X * 2.
        if getattr(ch, f)(e) is not e:
            ctx.fail('C19|' + f, 'ch.%s of an expression is another object' % f)
    expect(ctx, 'C19|asarray', 'asarray of an array', ch.asarray(x), x)
    expect(ctx, 'C19|asarray', 'asarray of a list', ch.asarray([1, 2]), [1, 2])
    expect(ctx, 'C19|asarray', 'asarray of a number', ch.asarray(3), [3])
    if ch.pi != np.pi:
        ctx.fail('C19|pi', 'pi')
    for it in ([1, 2, 3], [], [2.5]):
        expect(ctx, 'C19|fromiter', 'fromiter %s' % it, ch.fromiter(iter(it), dtype=float), np.array(it, dtype=float))
    for s in SH:
        if tuple(ch.shape(ch.Ch(vals(s)))) != np.atleast_1d(vals(s)).shape or tuple(ch.shape(vals(s))) != s:
            ctx.fail('C19|shape', 'shape of %s' % (s,))


def k_random(ctx, f):
    for a in RANDOM[f]:
        for seed in (0, 12):
            ctx.hist([f, str(a), seed]); ctx.step(); ctx.state(f, str(a), seed)
            np.random.seed(seed)
            w1, w2 = np.asarray(getattr(np.random, f)(*a), float), np.asarray(getattr(np.random, f)(*a), float)
            ch.random.seed(seed)
            g1, g2 = getattr(ch.random, f)(*a), getattr(ch.random, f)(*a)
            tag = 'random.%s%s' % (f, a)
            expect(ctx, 'C19|random.' + f, tag, g1, w1)
            expect(ctx, 'C19|random.' + f, tag + ', second call', g2, w2)
            expect(ctx, 'C19|random.' + f, tag + ', read again', g1, w1)     # drawn once
            y = g1 * 2.
            expect(ctx, 'C19|random.' + f, tag + ' doubled', y, w1 * 2.)
            check_jac(ctx, 'C19|random.' + f, y, g1, np.eye(g1.r.size) * 2., tag)
    if f in ('normal', 'uniform', 'randint', 'exponential'):
        k = {'normal': dict(loc=1., scale=2., size=3), 'uniform': dict(low=1., high=2., size=(2, 2)), 'randint': dict(low=1, high=9, size=4), 'exponential': dict(scale=2., size=2)}[f]
        np.random.seed(5); w = getattr(np.random, f)(**k)
        ch.random.seed(5); g = getattr(ch.random, f)(**k)
        expect(ctx, 'C19|random.' + f, 'random.%s with keywords' % f, g, w)


def k_rstate(ctx, _):
    ctx.hist(['state']); ctx.step(); ctx.state('state')
    ch.random.seed(3)
    st = ch.random.get_state()
    a = ch.random.rand(3).r.copy()
    ch.random.set_state(st)
    b = ch.random.rand(3).r.copy()
    np.random.set_state(st)
    c = np.random.rand(3)
    if not (np.array_equal(a, b) and np.array_equal(a, c)):
        ctx.fail('C19|random.state', 'the state functions do not restore the sequence')


def attr(l, x, ctx, tag):
    xx = np.atleast_1d(np.asarray(x, dtype=np.float64))
    def eq(k, got, want):
        ctx.seen(k, str(want))
        if isinstance(want, np.ndarray):
            ok = isinstance(got, np.ndarray) and same(got, want) and got.dtype == want.dtype
        else:
            ok = got == want and (type(got) == type(want) or k in ('size', 'dtype'))
        if not ok:
            ctx.fail('C19|attr|' + k, '%s: %s is %r, NumPy %r' % (tag, k, got, want))
    eq('shape', l.shape, xx.shape)
    eq('size', int(l.size), int(xx.size))
    eq('ndim', l.ndim, xx.ndim)
    eq('dtype', l.dtype, xx.dtype)
    eq('itemsize', l.itemsize, xx.itemsize)
    eq('len', len(l), len(xx))
    eq('chshape', tuple(ch.shape(l)), xx.shape)
    eq('flat', np.array(list(l.flat), dtype=np.float64), np.array(list(xx.flat), dtype=np.float64))
    eq('asarray', np.asarray(l), xx)
    eq('array', np.array(l), xx)
    eq('asarray32', np.asarray(l, dtype=np.float32), xx.astype(np.float32))
    eq('arraycopy', np.array(l, copy=True, dtype=np.float64), xx)
    eq('str', str(l), str(xx))
    if str(xx) not in repr(l):
        ctx.fail('C19|attr|repr', '%s: repr is %s' % (tag, repr(l)))
    for nm, fc in (('float', float), ('int', int)):
        e1, e2 = raises(fc, xx), raises(fc, l)
        if (e1 is None) != (e2 is None):
            ctx.fail('C19|attr|' + nm, '%s: %s gives %s, NumPy %s' % (tag, nm, e2 or fc(l), e1 or fc(xx)))
        elif e1 is None:
            eq(nm, fc(l), fc(xx))
    rows = [t.r for t in l]
    if len(rows) != len(xx) or not all(same(a, np.atleast_1d(b)) for a, b in zip(rows, xx)):
        ctx.fail('C19|attr|iter', '%s: iteration yields %s' % (tag, rows))
    eq('npsum', float(np.sum(np.asarray(l))), float(np.sum(xx)))
    eq('concat', np.concatenate([np.asarray(l), np.asarray(l)]), np.concatenate([xx, xx]))


def k_attr(ctx, s, T):
    s = tuple(s)
    shs = [t for t in SH if t != s]
    for pats in itertools.product(('none', 'read', 'attr'), repeat=2):
        for s2 in shs:
            ctx.hist([list(s), pats, list(s2)]); ctx.step(2); ctx.state('attr', s, pats, s2)
            l = ch.Ch(vals(s, 1) * 5)
            e = l * 2.
            v = ch.ravel(l)
            tag = 'input of shape %s' % (s,)
            for step, (p, sh) in enumerate(zip(pats + ('attr',), (s, s2, s))):
                if step:
                    l.x = vals(sh, 2 + step) * 5
                    tag += ', then %s (after %s)' % (sh, pats[step - 1])
                if p == 'read':
                    l.r; e.r; v.shape
                elif p == 'attr':
                    x = l.x
                    attr(l, x, ctx, tag)
                    attr(e, np.asarray(x) * 2., ctx, tag + ', an expression')
                    attr(v, np.asarray(x).ravel(), ctx, tag + ', a view')
            if not T and pats[1] != 'none' and s2 != shs[0]:
                break
    for x in (3, 2.5, True, np.float32(1.5), np.int64(7), [1, 2, 3], [[1, 2]], (1., 2.), np.arange(4), np.arange(4, dtype=np.float32), np.array([True, False]), np.array(5.)):
        ctx.hist(); ctx.step(); ctx.state('in', str(x))
        attr(ch.Ch(x), x, ctx, 'input made from %r' % (x,))
        attr(ch.array(x), x, ctx, 'array made from %r' % (x,))
        l = ch.Ch([0.])
        l.x = x
        attr(l, x, ctx, 'input assigned %r' % (x,))


def k_mixed(ctx, f):
    """inside differentiable expressions"""
    for s in ((1,), (3,), (2, 3)):
        x, w = vals(s, 1) * 1.7, vals(s, 2)
        for pat in ('none', 'r', 'dr', 'both', 'lop'):
            for form in range(5):
                ctx.hist([f, list(s), pat, form]); ctx.step(); ctx.state(f, s, pat, form)
                if f in CMP:
                    k = lambda u, v: getattr(ch, f)(u, v)
                    kn = lambda u, v: np.asarray(getattr(np, f)(u.real, v.real), float)
                else:
                    k = lambda u, v: getattr(ch, f)(u)
                    kn = lambda u, v: np.asarray(getattr(np, f)(u.real), float)
                g = [lambda u, v, k: k(u, v) * u, lambda u, v, k: k(u, v) * v + u * v, lambda u, v, k: u * u - k(u * 1., v) * v, lambda u, v, k: (u + k(u, v)) * (v - k(v, u)),
                     lambda u, v, k: u - k(u - v, u * v)][form]
                op = OpCase('C19|%s|inside' % f, lambda l, p: g(l[0], l[1], k), lambda u, v: g(u, v, kn))
                leaves = [ch.Ch(x), ch.Ch(w)]
                node = op.build(leaves, {})
                read(ctx, op, node, leaves, pat)
                full_check(ctx, op, node, leaves, 0, ([x, w], {}), '%s inside an expression (form %d, shape %s, after %s)' % (f, form, s, pat))
                leaves[0].x = vals(s, 6) * 1.7
                full_check(ctx, op, node, leaves, 1, ([vals(s, 6) * 1.7, w], {}), '%s inside an expression (form %d, shape %s, after %s) changed' % (f, form, s, pat))
                for i, l in enumerate(leaves):
                    want = op.ref(1, None)[1][i]
                    check_jac(ctx, 'C19|%s|inside|rev' % f, node, l, want, '%s inside, reverse' % f, J=node.dr_wrt(l, reverse_mode=True))
