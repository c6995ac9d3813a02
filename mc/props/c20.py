"""C20: representation of Jacobians and diagnostics never change numbers."""
import sys, tempfile, shutil, pickle, copy as _copy, io, contextlib
from oracle import *
from props.c17 import S, data
from chumpy import Ch
import chumpy.ch as chm
from scipy.sparse.linalg import LinearOperator
ID = 'C20'
RULE = ('(a) every assignment of {no, dense, sparse} request to all nodes, inputs included, of every graph of one or two operations of a table over two inputs and of several shared-operand graphs; '
        '(b) every operation of the library x every request on a neutral step in front of each operand and behind it; '
        '(c) user operations whose local Jacobian is a number, an array, a matrix or any sparse format, every pair of formats in a chain and in a sum, all small extents; '
        '(d) every local Jacobian size and number of nonzeros around the automatic switch, entries of every magnitude, and every operation in very small and very large units; (e) minimization with and without the dense option, requests on objective and inputs, problem sizes; '
        '(f) every operation, copy and optimizer with verbose and debug mode off, on, and switched at every point of a history. Values, forward, reverse and left products, each read twice and after a change, against complex-step references or the plain expression')
ASSUMPTIONS = ['inputs of up to 6 elements in (a)-(c)', 'local Jacobians up to 24x24 in (d)', 'the folder that debug mode writes its profiles to exists']
CHUNKS = 32

REQ = ('', 'd', 's')
KW = {'': {}, 'd': {'make_dense': True}, 's': {'make_sparse': True}}
M23 = vals((2, 3), 5)
IX = np.array([2, 0])


def _smax(a):
    return a.ravel()[np.argmax(a.real.ravel())]


def _sel(a):
    if a.size < 3:
        raise ValueError('shape')
    return a.ravel()[IX]


# name -> (arity, builder with keyword arguments, reference)
K = {
    'sin': (1, lambda a, **k: ch.sin(a, **k), np.sin),
    'neg': (1, lambda a, **k: ch.negative(a, **k), lambda a: -a),
    'sum': (1, lambda a, **k: ch.sum(x=a, **k), np.sum),
    'mean0': (1, lambda a, **k: ch.mean(x=a, axis=0, **k), lambda a: np.mean(a, 0)),
    'max': (1, lambda a, **k: ch.max(a=a, **k), _smax),
    'cumsum': (1, lambda a, **k: ch.cumsum(a=a, **k), np.cumsum),
    'ssq': (1, lambda a, **k: ch.SumOfSquares(x=a, **k), lambda a: np.sum(a * a)),
    'sel': (1, lambda a, **k: ch.Select(a=a, idxs=IX, **k), lambda a: _sel(a)),
    'T': (1, lambda a, **k: ch.transpose(a=a, **k), lambda a: a.T),
    'mvm': (1, lambda a, **k: ch.MatVecMult(mtx=M23, vec=a, **k), lambda a: M23.dot(a.ravel())),
    'add': (2, lambda a, b, **k: ch.add(a=a, b=b, **k), lambda a, b: a + b),
    'mul': (2, lambda a, b, **k: ch.multiply(a=a, b=b, **k), lambda a, b: a * b),
    'div': (2, lambda a, b, **k: ch.divide(x1=a, x2=b, **k), lambda a, b: a / b),
    'sub': (2, lambda a, b, **k: ch.subtract(a=a, b=b, **k), lambda a, b: a - b),
    'dot': (2, lambda a, b, **k: ch.dot(a=a, b=b, **k), lambda a, b: np.dot(a, b)),
    'cat': (2, lambda a, b, **k: ch.concatenate((a, b), **k), lambda a, b: np.concatenate((np.atleast_1d(a), np.atleast_1d(b)))),
    'maximum': (2, lambda a, b, **k: ch.maximum(a=a, b=b, **k), lambda a, b: np.where(a.real > b.real, a, b)),
}
FIRST = ('sin', 'sum', 'max', 'cumsum', 'sel', 'mvm', 'add', 'mul', 'dot', 'cat')
SECOND = ('neg', 'ssq', 'sel', 'mul', 'div', 'dot', 'cat', 'sub')
MORE_FIRST = tuple(k for k in K if k not in FIRST)
MORE_SECOND = tuple(k for k in K if k not in SECOND)
LV = {'a': [vals((3,), 1, 'pos'), vals((3,), 7, 'pos')], 'b': [vals((3,), 4, 'pos'), vals((3,), 9, 'pos')]}

SHARED = {
    'diamond': [('u', 'mul', 'ab'), ('v', 'sin', 'u'), ('y', 'add', 'uv')],
    'twice': [('u', 'sin', 'a'), ('y', 'mul', 'uu')],
    'cat of parts': [('u', 'mul', 'ab'), ('v', 'sum', 'u'), ('y', 'cat', 'uv')],
    'scalar then wide': [('u', 'dot', 'ab'), ('v', 'mul', 'ua'), ('y', 'ssq', 'v')],
    'two paths of views': [('u', 'sel', 'a'), ('v', 'cat', 'ub'), ('y', 'cumsum', 'v')],
    'sparse and number': [('u', 'sum', 'a'), ('v', 'ssq', 'a'), ('y', 'mul', 'uv')],
}


def cases(tier):
    T = tier == 'thorough'
    out = []
    f1, f2 = (FIRST + MORE_FIRST, SECOND + MORE_SECOND) if T else (FIRST, SECOND)
    for o1 in K:
        out.append(['req', [['y', o1, 'ab'[:K[o1][0]]]]])
        if K[o1][0] == 2:
            out.append(['req', [['y', o1, 'aa']]])
    for o1 in f1:
        for o2 in f2:
            for other in (('',) if K[o2][0] == 1 else ('a', 'n') if not T else ('a', 'b', 'n')):
                n2 = 'n' + other if K[o2][0] == 2 else 'n'
                out.append(['req', [['n', o1, 'ab'[:K[o1][0]]], ['y', o2, n2]]])
    for k in SHARED:
        out.append(['req', [[n, o, a] for n, o, a in SHARED[k]]])
    for i in range(len(S)):
        out.append(['lib', i])
        out.append(['diag', i])
        out.append(['scale', i, tier])
    for m, n in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 3)):
        for shape in ('chain', 'sum', 'same', 'lib'):
            for f in FORMS:
                out.append(['form', m, n, shape, f])
    for m, n in SIZES + (MORE_SIZES if T else []):
        out.append(['units', m, n])
        out.append(['auto', m, n])
    for o in range(len(OBJ)):
        for n in ((1, 2, 3, 5, 12) if not T else (1, 2, 3, 4, 5, 6, 9, 12, 20)):
            out.append(['min', o, n])
    out += [['mindiag', m] for m in ('dogleg', 'Powell', 'BFGS', 'CG', 'SLSQP', 'L-BFGS-B', 'Newton-CG', 'dogleg sel')]
    out += [['toggle', g, a, 3 if T else 2] for g in sorted(SHARED) for a in ACTS]
    return out


def run(case, ctx):
    with quiet():
        globals()['run_' + case[0]](ctx, *case[1:])


@contextlib.contextmanager
def quiet(debug=False, verbose=False):
    """diagnostics write to standard output; a debugger that is started in debug mode must not wait"""
    so, si, d, v = sys.stdout, sys.stdin, chm.DEBUG, chm.VERBOSE
    sys.stdout, sys.stdin = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stdin = so, si
        chm.DEBUG, chm.VERBOSE = d, v


# ---------------------------------------------------------------- (a) requests
def evaluate(g, lv):
    env = dict(lv)
    for n, o, args in g:
        env[n] = np.atleast_1d(K[o][2](*[env[a] for a in args]))
    return env['y']


_ref = {}


def reference(g, k):
    key = (str(g), k)
    if key not in _ref:
        if len(_ref) > 50:
            _ref.clear()
        lv = {'a': LV['a'][k & 1], 'b': LV['b'][k >> 1]}
        v = evaluate(g, lv)
        js = [cjac(lambda a, b: evaluate(g, {'a': a, 'b': b}), [lv['a'], lv['b']], i) for i in (0, 1)]
        _ref[key] = (v, js)
    return _ref[key]


def build(g, req):
    env = {n: ch.Ch(LV[n][0].copy(), **KW[req[n]]) for n in 'ab'}
    for n, o, args in g:
        env[n] = K[o][1](*[env[a] for a in args], **KW[req[n]])
    return env


def check_all(ctx, key, tag, node, wrts, ref, modes):
    v, js = ref
    if not check_value(ctx, key, node, v, tag):
        return
    for l, want in zip(wrts, js):
        if not np.any(want) and l is None:
            continue
        for m in modes:
            if m == 'rev':
                J = node.dr_wrt(l, reverse_mode=True)
            elif m == 'lop':
                W = vals((2, want.shape[0]), 3)
                J = node.lop(l, W)
                check_jac(ctx, key + '|lop', node, l, W.dot(want), tag + ' left product', J=np.zeros((2, want.shape[1])) if J is None else J)
                continue
            else:
                J = node.dr_wrt(l)
            check_jac(ctx, key + '|' + m, node, l, want, tag + ' ' + m, J=J)


def run_req(ctx, g):
    g = [(n, o, a) for n, o, a in g]
    try:
        reference(g, 0)
    except ValueError:
        return                      # the shapes do not fit
    names = ['a', 'b'] + [n for n, _, _ in g]
    used = set(x for _, _, a in g for x in a)
    free = [n for n in names if n in used or n == 'y']
    for r in itertools.product(REQ, repeat=len(free)):
        req = dict.fromkeys(names, '')
        req.update(zip(free, r))
        tag = '; '.join('%s%s=%s(%s)' % (n, {'d': ' (dense)', 's': ' (sparse)'}.get(req[n], ''), o, ','.join(x + {'d': ' (dense)', 's': ' (sparse)'}.get(req[x], '') for x in a)) for n, o, a in g)
        key = 'req|%s' % '/'.join(o for _, o, _ in g)
        env = build(g, req)
        ls = [env['a'], env['b']]
        ctx.hist(tag); ctx.state(tag); ctx.step(3)
        check_all(ctx, key, tag, env['y'], ls, reference(g, 0), ('fwd', 'again', 'lop'))
        env['a'].x = LV['a'][1].copy()
        check_all(ctx, key, tag + ' after a change', env['y'], ls, reference(g, 1), ('rev', 'fwd'))
        env['b'].x = LV['b'][1].copy()
        check_all(ctx, key, tag + ' after two changes', env['y'], ls, reference(g, 3), ('lop', 'fwd', 'rev'))


# ---------------------------------------------------------------- (b) every operation
NEUTRAL = {'': lambda e, k: e, 'd': lambda e, k: ch.multiply(a=e, b=1., make_dense=True), 's': lambda e, k: ch.multiply(a=e, b=1., make_sparse=True)}


def full(node, leaves, modes=('fwd', 'lop', 'rev')):
    v = np.array(node.r, dtype=np.float64)
    W = vals((2, v.size), 3)
    out = [('value', v)]
    for i, l in enumerate(leaves):
        n = l.r.size
        for m in modes:
            if m == 'fwd':
                out.append(('derivative %d' % i, dense(node.dr_wrt(l), v.size, n)))
            elif m == 'rev':
                out.append(('reverse derivative %d' % i, dense(node.dr_wrt(l, reverse_mode=True), v.size, n)))
            else:
                J = node.lop(l, W)
                out.append(('left product %d' % i, np.zeros((2, n)) if J is None else np.atleast_2d(np.asarray(J))))
    return out


def same(ctx, key, tag, got, want):
    assert [n for n, _ in got] == [n for n, _ in want]
    for (n, g), (_, w) in zip(got, want):
        ctx.seen(n, g.shape, g.tobytes())
        if g.shape != w.shape:
            ctx.fail(key + '|' + n.split()[0] + 'shape', '%s: %s has shape %s, plain %s' % (tag, n, g.shape, w.shape))
        elif not close(g, w, 1e-7, 1e-8):
            ctx.fail(key + '|' + n.split()[0], '%s: %s is %s, plain %s' % (tag, n, summ(g), summ(w)))


def fresh(x, k=0):
    return [ch.Ch(np.array(a, dtype=np.float64)) for a in data(x, k)]


def run_lib(ctx, i):
    x = S[i]
    plain = {}
    for k in (0, 5):
        ls = fresh(x, k)
        plain[k] = full(x['f'](*ls), ls)
    n = len(x['shapes'])
    if x['name'] in ('svd u', 'svd v'):
        return
    for r in itertools.product(REQ, repeat=n + 1):
        for lf in ((0, 1) if n == 1 else (0,)):
            ls = fresh(x) if not lf else [ch.Ch(np.array(a, dtype=np.float64), **KW[q]) for a, q in zip(data(x, 0), r)]
            ops = [NEUTRAL[q](l, j) for j, (l, q) in enumerate(zip(ls, r))] if not lf else ls
            node = NEUTRAL[r[-1]](x['f'](*ops), 0)
            tag = '%s, operands %s, result %s' % (x['name'], [q or 'plain' for q in r[:-1]], r[-1] or 'plain')
            key = 'lib|' + x['name']
            ctx.hist(tag); ctx.state(tag, lf); ctx.step(2)
            same(ctx, key, tag, full(node, ls), plain[0])
            for l, a in zip(ls, data(x, 5)):
                l.x = np.array(a, dtype=np.float64)
            same(ctx, key, tag + ' after a change', full(node, ls, ('fwd', 'lop')), [w for w in plain[5] if not w[0].startswith('reverse')])


# ---------------------------------------------------------------- (c) formats of local derivatives
FORMS = ('number', 'element', 'dense', 'fortran', 'integer', 'matrix', 'csc', 'csr', 'coo', 'dia', 'bsr', 'lil', 'dok', 'zeros kept', 'duplicates')


def form(W, f):
    if f == 'number':
        return float(W[0, 0]) if W.size == 1 else W
    if f == 'element':
        return W.ravel() if W.size == 1 else W
    if f == 'fortran':
        return np.asfortranarray(W)
    if f == 'integer':
        return W
    if f == 'matrix':
        return np.matrix(W)
    if f == 'zeros kept':
        W[0, 0] = 1.
        m = sp.csc_matrix(W)
        m.data[0] = 0.
        return m
    if f == 'duplicates':
        i, j = np.nonzero(np.ones_like(W))
        return sp.coo_matrix((np.concatenate((W.ravel() * .25, W.ravel() * .75)), (np.concatenate((i, i)), np.concatenate((j, j)))), shape=W.shape)
    if f == 'dense':
        return W
    return getattr(sp, f + '_matrix')(W)


class Lin(Ch):
    """x -> W x, with the derivative in the representation given"""
    dterms = 'x',
    terms = 'W', 'f'

    def compute_r(self):
        return self.W.dot(self.x.r.ravel())

    def compute_dr_wrt(self, wrt):
        if wrt is self.x:
            W = self.W.copy()
            return form(W, self.f)


class Both(Ch):
    """x, y -> W x + V y, each in its own representation"""
    dterms = 'x', 'y'
    terms = 'W', 'V', 'f', 'g'

    def compute_r(self):
        return self.W.dot(self.x.r.ravel()) + self.V.dot(self.y.r.ravel())

    def compute_dr_wrt(self, wrt):
        if wrt is self.x:
            return form(self.W.copy(), self.f)
        if wrt is self.y:
            return form(self.V.copy(), self.g)


def mat(m, n, k, f):
    W = vals((m, n), k)
    if f == 'zeros kept':
        W[0, 0] = 0.
    if f == 'integer':
        W = np.round(W * 3)
    return W


def run_form(ctx, m, n, shape, f):
    for g in FORMS:
        if {f, g} == {'dok', 'duplicates'}:
            continue            # SciPy adds these two wrongly
        a = ch.Ch(vals((n,), 2))
        if shape == 'chain':
            W, V = mat(m, n, 1, f), mat(3, m, 4, g)
            u = Lin(x=a, W=W, f=f)
            y = Lin(x=u, W=V, f=g)
            want = V.dot(W)
        elif shape == 'sum':
            W, V = mat(m, n, 1, f), mat(m, n, 4, g)
            u, v = Lin(x=a, W=W, f=f), Lin(x=a, W=V, f=g)
            y = u + v
            want = W + V
        elif shape == 'same':
            W, V = mat(m, n, 1, f), mat(m, n, 4, g)
            u, v = ch.sin(a), ch.negative(a)
            y = Both(x=u, y=v, W=W, V=V, f=f, g=g)
            want = W.dot(np.diag(np.cos(a.r))) - V
        else:
            W, V = mat(m, n, 1, f), mat(m, n, 4, g)
            u = Lin(x=a, W=W, f=f)
            v = ch.cumsum(Lin(x=ch.square(a), W=V, f=g))
            y = u * v
            uu, vv = W.dot(a.r), np.cumsum(V.dot(a.r ** 2))
            want = np.diag(vv).dot(W) + np.diag(uu).dot(np.tril(np.ones((m, m))).dot(V.dot(np.diag(2 * a.r))))
        key = 'form|%s|%s|%s' % (shape, f, g)
        tag = '%s of local derivatives given as %s and %s, %dx%d' % (shape, f, g, m, n)
        ctx.hist(tag); ctx.state(tag); ctx.step()
        for mode in ('fwd', 'again', 'rev', 'lop'):
            try:
                if mode == 'lop':
                    L = vals((2, want.shape[0]), 3)
                    check_jac(ctx, key + '|lop', y, a, L.dot(want), tag + ' left product', J=y.lop(a, L))
                elif mode == 'rev':
                    a.x = a.r.copy()
                    check_jac(ctx, key + '|rev', y, a, want, tag + ' reverse', J=y.dr_wrt(a, reverse_mode=True))
                else:
                    check_jac(ctx, key + '|fwd', y, a, want, tag + ' ' + mode)
            except (TypeError, ValueError, AttributeError, NotImplementedError) as e:
                ctx.fail(key + '|%s|%s' % (mode, type(e).__name__), '%s, %s: %s' % (tag, mode, str(e)[:200]))


# ---------------------------------------------------------------- (d) the automatic switch
SIZES = [(1, 1), (1, 2), (2, 1), (1, 9), (1, 10), (1, 11), (10, 1), (11, 1), (2, 5), (5, 2), (3, 4), (4, 5), (5, 4), (5, 5), (3, 7), (10, 2), (1, 20), (1, 21), (10, 10), (6, 5), (24, 1), (2, 12)]
MORE_SIZES = [(i, j) for i in range(1, 8) for j in range(1, 8)] + [(11, 10), (24, 24), (1, 100), (100, 1), (7, 13)]


def run_auto(ctx, m, n):
    size = m * n
    for nnz in sorted(set(range(0, min(size, size // 10 + 3) + 1)) | set([size])):
        for pat in ('first', 'last', 'spread'):
            W = np.zeros(size)
            if nnz:
                pos = {'first': np.arange(nnz), 'last': size - 1 - np.arange(nnz), 'spread': (np.arange(nnz) * size) // nnz}[pat]
                W[pos] = vals((nnz,), 3, 'nz')
            elif pat != 'first':
                continue
            W = W.reshape((m, n))
            a = ch.Ch(vals((n,), 1))
            y = Lin(x=a, W=W, f='dense')
            z = ch.exp(y)
            s = ch.SumOfSquares(x=y) + y.sum()
            c = ch.concatenate((y, ch.sin(a)))
            tag = 'local derivative %dx%d with %d nonzeros (%s)' % (m, n, nnz, pat)
            ctx.hist(tag); ctx.state(tag); ctx.step(4)
            v = W.dot(a.r)
            sel = y[np.array([m - 1, 0])]
            for nm, node, want in (('itself', y, W), ('exp', z, np.diag(np.exp(v)).dot(W)), ('sum', s, (2 * v + 1).reshape(1, -1).dot(W)),
                                   ('stacked', c, np.vstack((W, np.diag(np.cos(a.r))))), ('selection', sel, W[[m - 1, 0]])):
                for mode in ('fwd', 'again'):
                    check_jac(ctx, 'auto|%s|%s' % (nm, mode), node, a, want, '%s, %s, %s' % (tag, nm, mode))
            y2 = Lin(x=ch.sin(a), W=W, f='dense')
            want = W.dot(np.diag(np.cos(a.r)))
            check_jac(ctx, 'auto|reverse', y2, a, want, tag + ', reverse', J=y2.dr_wrt(a, reverse_mode=True))
            L = vals((2, m), 3)
            check_jac(ctx, 'auto|lop', y2, a, L.dot(want), tag + ', left product', J=y2.lop(a, L))
            # and the other way round: a change of the parameter moves it over the switch
            full_W = vals((m, n), 5)
            y.W = full_W
            check_jac(ctx, 'auto|denser', z, a, np.diag(np.exp(full_W.dot(a.r))).dot(full_W), tag + ', then dense')
            y.W = W
            check_jac(ctx, 'auto|sparser', z, a, np.diag(np.exp(v)).dot(W), tag + ', dense, and back')


def run_scale(ctx, i, tier):
    import lib
    lib.scales(ctx, ID, i, tier)


def run_units(ctx, m, n):
    """the same over all magnitudes, entries of different magnitude in one matrix, and entries that are not finite"""
    size = m * n
    for nnz in sorted(set([1, max(1, size // 10), size])):
        for mag in (1e-300, 1e-100, 1e-30, 1e-16, 1e-12, 1e-10, 1e-8, 1e-5, 1e5, 1e10, 1e30, 1e100, 'mixed', 'negzero', 'nan', 'inf'):
            for f in ('dense', 'csc', 'csr', 'coo', 'matrix'):
                W = np.zeros(size)
                pos = (np.arange(nnz) * size) // nnz
                W[pos] = vals((nnz,), 3, 'nz') * (mag if not isinstance(mag, str) else 10. ** (-8 * np.arange(nnz) % 40 - 20) if mag == 'mixed' else 1.)
                if mag in ('nan', 'inf', 'negzero'):
                    W[pos[0]] = {'nan': np.nan, 'inf': np.inf, 'negzero': -0.}[mag]
                W = W.reshape((m, n))
                for req in REQ:
                    a = ch.Ch(vals((n,), 1))
                    y = Lin(x=a, W=W, f=f, **KW[req])
                    tag = 'local derivative %dx%d given as %s with %d nonzeros of magnitude %s%s' % (m, n, f, nnz, mag, req and ', request ' + req)
                    ctx.hist(tag); ctx.state(tag); ctx.step()
                    finite = mag not in ('nan', 'inf')
                    todo = [('itself', y, W, lambda o, x: o.dr_wrt(x)), ('again', y, W, lambda o, x: o.dr_wrt(x)), ('reverse', y, W, lambda o, x: o.dr_wrt(x, reverse_mode=True))]
                    if finite:
                        todo += [('negated', -y, -W, lambda o, x: o.dr_wrt(x)), ('stacked', ch.concatenate((y, y)), np.vstack((W, W)), lambda o, x: o.dr_wrt(x)),
                                 ('selection', y[np.array([m - 1, 0])], W[[m - 1, 0]], lambda o, x: o.dr_wrt(x))]
                    for nm, node, want, rd in todo:
                        got = dense(rd(node, a), *want.shape)
                        ctx.seen(nm, got.tobytes())
                        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=0, equal_nan=True):
                            ctx.fail('units|%s|%s' % (nm, f), '%s, %s: %s instead of %s' % (tag, nm, summ(got), summ(want)))


# ---------------------------------------------------------------- (e) minimization (Jacobians of full rank)
def o_elem(a, b, k):
    return ch.concatenate((ch.sin(a, **k) - .3, b * 2. - 1., a * .5))


def o_dense(a, b, k):
    n = a.r.size
    return ch.concatenate((ch.MatVecMult(mtx=vals((n + 2, n), 4) + np.eye(n + 2, n) * 3, vec=ch.sin(a), **k) - ch.sum(x=b, **k), ch.exp(b) - .4))


def o_mixed(a, b, k):
    return ch.concatenate((ch.multiply(a=a, b=b, **k), a - 1., b + ch.SumOfSquares(x=a) * .1))


def o_scalarish(a, b, k):
    return ch.concatenate((ch.sum(x=a * a, **k), ch.sum(x=b, **k) - 2., a - .2, b - .1))


def o_uneven(a, b, k):
    """derivatives of very different size in one matrix, well conditioned"""
    n = a.r.size
    W = np.eye(n) * 5. + vals((n, n), 4, 'nz') * 2e-3
    V = vals((n, n), 2, 'nz') * 3e-4
    return ch.concatenate((ch.MatVecMult(mtx=W, vec=ch.sin(a), **k) - 1.3, b * 2. + ch.MatVecMult(mtx=V, vec=a, **k) - 1., ch.sum(x=b, **k) * 1e-3))


OBJ = [o_elem, o_dense, o_mixed, o_scalarish, o_uneven]


def go(o, n, req, leafreq, opts, method='dogleg', sel=False):
    a, b = ch.Ch(vals((n,), 1) * .3, **KW[leafreq]), ch.Ch(vals((n,), 5) * .3, **KW[leafreq])
    obj = OBJ[o](a, b, KW[req])
    steps = []
    xs = [a, b] if not sel else [a[:1], b]
    it = dict(opts)
    kw = {}
    if method != 'dogleg':
        obj = ch.sum(x=obj ** 2)
    ch.minimize(obj, x0=xs, method=method, callback=lambda _: steps.append((a.r.copy(), b.r.copy())), options=it)
    return steps, a.r.copy(), b.r.copy(), obj


def cmp_runs(ctx, key, tag, got, want):
    gs, ga, gb, _ = got
    ws, wa, wb, _ = want
    ctx.seen(ga.tobytes(), gb.tobytes())
    if len(gs) != len(ws):
        ctx.fail(key + '|steps', '%s: %d steps, plain %d' % (tag, len(gs), len(ws)))
    for i, ((x, y), (u, v)) in enumerate(zip(gs, ws)):
        if not (close(x, u, 1e-6, 1e-7) and close(y, v, 1e-6, 1e-7)):
            ctx.fail(key + '|path', '%s: after step %d at %s %s, plain %s %s' % (tag, i, summ(x), summ(y), summ(u), summ(v)))
            return
    if not (close(ga, wa, 1e-6, 1e-7) and close(gb, wb, 1e-6, 1e-7)):
        ctx.fail(key + '|end', '%s: ends at %s %s, plain %s %s' % (tag, summ(ga), summ(gb), summ(wa), summ(wb)))


def run_min(ctx, o, n):
    base = {'maxiter': 3, 'disp': False}
    plain = go(o, n, '', '', base)
    for req in REQ:
        for lr in REQ:
            for td in (False, True):
                opts = dict(base, treat_as_dense=td)
                got = go(o, n, req, lr, opts)
                tag = '%s of %d, requests %s / inputs %s, dense option %s' % (OBJ[o].__name__, n, req or 'none', lr or 'none', td)
                ctx.hist(tag); ctx.state(tag); ctx.step(3)
                cmp_runs(ctx, 'min|%s' % OBJ[o].__name__, tag, got, plain)
                # the expression is still itself afterwards
                a, b = ch.Ch(got[1]), ch.Ch(got[2])
                pl = OBJ[o](a, b, {})
                if not close(got[3].r, pl.r):
                    ctx.fail('min|objective', '%s: objective reads %s afterwards, afresh %s' % (tag, summ(got[3].r), summ(pl.r)))
    for solver in ('spsolve', 'cg'):
        got = go(o, n, '', '', dict(base, sparse_solver=solver))
        ctx.hist(); ctx.step(3)
        if solver == 'spsolve':
            cmp_runs(ctx, 'min|%s|%s' % (OBJ[o].__name__, solver), '%s of %d with %s' % (OBJ[o].__name__, n, solver), got, plain)


# ---------------------------------------------------------------- (f) diagnostics
def modes():
    return [(False, True), (True, False), (True, True)]


def setm(m):
    chm.DEBUG, chm.VERBOSE = m


def run_diag(ctx, i):
    x = S[i]
    plain = {}
    for k in (0, 5):
        ls = fresh(x, k)
        plain[k] = full(x['f'](*ls), ls)
    key = 'diag|' + x['name']
    OFF = (False, False)
    pats = [(OFF, m, m) for m in modes()] + [(m, m, m) for m in modes()] + [(m, OFF, m) for m in modes()] + [(m, m, OFF) for m in modes()] + [(m, OFF, OFF) for m in modes()[1:2]] + [(OFF, OFF, m) for m in modes()[1:2]]
    for p in pats:
        tag = '%s, (debug, verbose) = %s at construction, %s at the first reads, %s after the change' % ((x['name'],) + p)
        ctx.hist(tag); ctx.state(tag); ctx.step(3)
        try:
            setm(p[0])
            ls = fresh(x)
            node = x['f'](*ls)
            setm(p[1])
            same(ctx, key, tag, full(node, ls), plain[0])
            same(ctx, key, tag + ' again', full(node, ls, ('fwd',)), plain[0][:1] + [w for w in plain[0] if w[0].startswith('deriv')])
            setm(p[2])
            same(ctx, key, tag + ' in the last mode', full(node, ls, ('fwd',)), plain[0][:1] + [w for w in plain[0] if w[0].startswith('deriv')])
            for l, a in zip(ls, data(x, 5)):
                l.x = np.array(a, dtype=np.float64)
            same(ctx, key, tag + ' changed', full(node, ls, ('fwd', 'lop')), [w for w in plain[5] if not w[0].startswith('reverse')])
        finally:
            setm(OFF)


ACTS = ('r', 'da', 'db', 'rev', 'lop', 'wa', 'wb', 'copy', 'deepcopy', 'pickle', 'new parent')


def run_toggle(ctx, name, first, depth):
    """the mode switches at every point of a history of reads, changes and copies"""
    g = SHARED[name]
    for rest in itertools.product(ACTS, repeat=depth - 1):
        hist = (first,) + rest
        for sw in [(i, None) for i in range(depth + 1)] + [(i, j) for i in range(depth) for j in range(i + 1, depth + 1)]:
            for m in modes()[1:2] if sw[1] else modes()[:2]:
                if hist[1] in ('copy', 'deepcopy', 'pickle') and hist[0] in ('copy', 'deepcopy', 'pickle'):
                    continue
                tag = '%s: %s, mode %s from step %s to %s' % (name, ' '.join(hist), m, sw[0], sw[1])
                ctx.hist(tag); ctx.state(tag)
                try:
                    env = build(g, {n: '' for n in ('a', 'b', 'u', 'v', 'y')})
                    a, b, y = env['a'], env['b'], env['y']
                    k = 0
                    ps = []
                    for t, act in enumerate(hist):
                        setm(m if t >= sw[0] and (sw[1] is None or t < sw[1]) else (False, False))
                        ctx.step()
                        if act == 'r':
                            y.r
                        elif act == 'da':
                            y.dr_wrt(a)
                        elif act == 'db':
                            y.dr_wrt(b)
                        elif act == 'rev':
                            y.dr_wrt(a, reverse_mode=True)
                        elif act == 'lop':
                            y.lop(a, np.eye(y.r.size))
                        elif act == 'wa':
                            k ^= 1; a.x = LV['a'][k & 1].copy()
                        elif act == 'wb':
                            k ^= 2; b.x = LV['b'][k >> 1].copy()
                        elif act == 'new parent':
                            p = ch.exp(y); ps.append(p); p.dr_wrt(a)
                        else:
                            y.label = 'root'; a.label = 'in a'; b.label = 'in b'
                            y = _copy.copy(y) if act == 'copy' else _copy.deepcopy(y) if act == 'deepcopy' else pickle.loads(pickle.dumps(y))
                            fs = {getattr(l, 'label', None): l for l in y.tree_iterator() if type(l) is Ch}
                            a, b = fs['in a'], fs.get('in b', b)
                    setm(m if sw[1] is None else (False, False))
                    wr = [l for l in (a, b) if True]
                    check_all(ctx, 'toggle|' + name, tag, y, wr, reference(g, k), ('fwd', 'again', 'lop'))
                finally:
                    setm((False, False))


def run_mindiag(ctx, method):
    from chumpy import monitor
    d = tempfile.mkdtemp(prefix='c20')
    old = monitor.DrWrtProfiler.base_path
    monitor.DrWrtProfiler.base_path = d
    sel = method.endswith(' sel')
    method = method.split()[0]
    opts = {'maxiter': 3, 'disp': False}
    try:
        for o in range(len(OBJ)):
            for n in (1, 3):
                setm((False, False))
                plain = go(o, n, '', '', opts, method, sel)
                for m in modes():
                    for td in ((False, True) if method == 'dogleg' else (None,)):
                        tag = '%s, %s of %d, (debug, verbose) = %s, dense option %s' % (method, OBJ[o].__name__, n, m, td)
                        ctx.hist(tag); ctx.state(tag, sel); ctx.step(3)
                        setm(m)
                        got = go(o, n, '', '', opts if td is None else dict(opts, treat_as_dense=td), method, sel)
                        cmp_runs(ctx, 'mindiag|%s|%s' % (method, OBJ[o].__name__), tag, got, plain)
    finally:
        setm((False, False))
        monitor.DrWrtProfiler.base_path = old
        shutil.rmtree(d, ignore_errors=True)
