"""C15: what SciPy is given, under every sequence of queries a solver may make."""
import sys, inspect, warnings
import scipy.optimize
from oracle import *
from core import Stop
from chumpy import Ch
import chumpy.optimization
import props.c14 as c14
ID = 'C15'
RULE = ('a scripted solver in place of scipy.optimize.minimize makes every sequence of queries up to the depth (value, gradient, Hessian, Hessian product; at each of three points; fresh arrays or one re-used buffer; then any of the points as the answer) '
        'x objective forms (scalar, vector, list, dict, dense and sparse) x sets of free variables x method names x further arguments; and the real solvers with every query observed. Every answer is compared with NumPy (complex-step gradients)')
ASSUMPTIONS = ['the Hessian of a vector objective is the Gauss-Newton one (2 J^T J)', 'the objective depends on every free variable', 'query points are finite', 'method names: those SciPy still has']
CHUNKS = 32


def variables(kind):
    if kind == 'reshaped':
        a = ch.array(vals((4,), 1)); return [a], [a.reshape((2, 2))], np.arange(4)
    if kind == 'transposed selection':
        a = ch.array(vals((2, 3), 1)); return [a], [a.T[1:]], np.array([1, 4, 2, 5])
    return c14.variables(kind)


VARS = c14.VARS + ['reshaped', 'transposed selection']


# objectives of the list of inputs; (chumpy, numpy)
OBJ = {
    'vector': (lambda vs: ch.concatenate([(v * v - 1.5).ravel() for v in vs] + [(vs[0] * .5).ravel()]), lambda vs: np.concatenate([(v * v - 1.5).ravel() for v in vs] + [(vs[0] * .5).ravel()])),
    'dense vector': (lambda vs: ch.concatenate([(ch.sum(vs[0]) * v).ravel() for v in vs]), lambda vs: np.concatenate([(np.sum(vs[0]) * v).ravel() for v in vs])),
    'scalar': (lambda vs: ch.sum(ch.exp(vs[0] * .3)) + ch.sum(vs[-1] ** 2.), lambda vs: np.atleast_1d(np.sum(np.exp(vs[0] * .3)) + np.sum(vs[-1] ** 2))),
    'negative scalar': (lambda vs: ch.sum(ch.sin(vs[0])) + ch.sum((vs[-1] - 1.) ** 2.) * .1 - 3., lambda vs: np.atleast_1d(np.sum(np.sin(vs[0])) + np.sum((vs[-1] - 1.) ** 2) * .1 - 3.)),
    'list': (lambda vs: [ch.sin(v) for v in vs] + [vs[0] * vs[0]], lambda vs: np.concatenate([np.sin(v).ravel() for v in vs] + [(vs[0] * vs[0]).ravel()])),
    'tuple': (lambda vs: tuple([v - 2. for v in vs]), lambda vs: np.concatenate([(v - 2.).ravel() for v in vs])),
    'dict': (lambda vs: dict([('k%d' % i, v * 3. - v * v) for i, v in enumerate(vs)]), lambda vs: np.concatenate([(v * 3. - v * v).ravel() for v in vs])),
    'single in list': (lambda vs: [ch.sum(vs[0] * vs[0]) + ch.sum((vs[-1] + 1.) ** 2.)], lambda vs: np.atleast_1d(np.sum(vs[0] * vs[0]) + np.sum((vs[-1] + 1.) ** 2))),
}
METHODS = ['BFGS', 'Nelder-Mead', 'Powell', 'CG', 'Newton-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'trust-ncg']
NOCB = ('powell', 'cobyla', 'slsqp')
ORIG = scipy.optimize.minimize


class Bad(Exception):
    pass


class Problem(object):
    def __init__(self, ctx, vkind, okind):
        self.ctx = ctx
        self.inputs, self.free, self.idx = variables(vkind)
        self.x0 = [np.array(v.r) for v in self.inputs]
        self.flat0 = np.concatenate([x.ravel() for x in self.x0])
        self.c, self.n = OBJ[okind]
        self.obj = self.c(self.inputs)
        self.scalar = self.n(self.x0).size == 1
        self.memo = {}

    def split(self, flat):
        out, p = [], 0
        for x in self.x0:
            out.append(flat[p:p + x.size].reshape(x.shape))
            p += x.size
        return out

    def flat(self, z):
        f = np.array(self.flat0, dtype=np.asarray(z).dtype)
        f[self.idx] = z
        return f

    def resid(self, z):
        return self.n(self.split(self.flat(z)))

    def ref(self, kind, z, p=None):
        k = (kind, z.tobytes())
        if kind == 'hessp':
            return self.ref('hess', z).dot(p)
        if k not in self.memo:
            r = self.resid(z)
            if kind == 'fun':
                v = r[0] if self.scalar else r.dot(r)
            else:
                J = cjac(self.resid, [z], 0)
                v = {'jac': (J.ravel() if self.scalar else 2 * J.T.dot(r)), 'hess': 2 * J.T.dot(J)}[kind]
            self.memo[k] = v
        return self.memo[k]

    def compare(self, kind, z, got, p=None, where=''):
        want = np.asarray(self.ref(kind, z, p))
        got = got.toarray() if sp.issparse(got) else np.asarray(got)
        self.ctx.seen(kind, np.round(np.asarray(got, dtype=float), 9).tobytes())
        self.ctx.step()
        ok = got.size == want.size and close(got.reshape(want.shape), want, 1e-7, 1e-9)
        if kind == 'jac' and got.ndim != 1:
            ok = False
        if not ok:
            raise Bad('%s at %s%s: got %s, reference %s' % ({'fun': 'objective value', 'jac': 'gradient', 'hess': 'Hessian', 'hessp': 'Hessian product'}[kind], summ(z), where, summ(got), summ(want)))

    def final(self, z):
        for v, x in zip(self.inputs, self.x0):
            if v.r.shape != x.shape:
                raise Bad('shape of an input changed')
        flat = np.concatenate([np.array(v.r).ravel() for v in self.inputs])
        rest = np.delete(np.arange(flat.size), self.idx)
        if not np.array_equal(flat[rest], self.flat0[rest]):
            raise Bad('an input that is not free, or an unselected element, was changed')
        if not np.array_equal(flat[self.idx], z):
            raise Bad('free variables at return %s are not the answer of the solver %s' % (summ(flat[self.idx]), summ(z)))
        o = self.obj
        if isinstance(o, dict):
            o = list(o.values())
        got = np.concatenate([f.r.ravel() for f in o]) if isinstance(o, (list, tuple)) else o.r.ravel()
        if not close(got, np.real(self.resid(z))):
            raise Bad('the objective read after the minimization is not that of the answer')


class Patched(object):
    """scipy.optimize.minimize replaced by f(bound arguments); in scipy and wherever chumpy holds it"""
    def __init__(self, f):
        self.called = 0
        sig = inspect.signature(ORIG)
        def fake(*a, **k):
            self.called += 1
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return f(b.arguments)
        self.fake = fake

    def __enter__(self):
        self.where = [scipy.optimize] + [m for m in (chumpy.optimization, chumpy.optimization_internal) if getattr(m, 'minimize', None) is ORIG]
        for m in self.where:
            setattr(m, 'minimize', self.fake)
        return self

    def __exit__(self, *e):
        for m in self.where:
            setattr(m, 'minimize', ORIG)


import chumpy.optimization_internal


def funs(a):
    """the query functions handed to SciPy, whatever their calling convention"""
    args = a['args'] if isinstance(a['args'], tuple) else (a['args'],)
    f, g = a['fun'], a['jac']
    q = {}
    if g is True:
        q['fun'] = lambda x: f(x, *args)[0]
        q['jac'] = lambda x: f(x, *args)[1]
    else:
        q['fun'] = lambda x: f(x, *args)
        if callable(g):
            q['jac'] = lambda x: g(x, *args)
    if callable(a['hess']):
        q['hess'] = lambda x: a['hess'](x, *args)
    if callable(a['hessp']):
        q['hessp'] = lambda x, p: a['hessp'](x, p, *args)
    return q


def script_run(ctx, vkind, okind, method, script, reuse, answer, extra):
    p = Problem(ctx, vkind, okind)
    desc = 'objective: %s; free variables: %s; method %s; queries %s%s; answer %d; %s' % (okind, vkind, method, script, ' with one re-used buffer' if reuse else '', answer, extra)
    ctx.hist(desc)
    n = len(p.idx)
    z0 = p.flat0[p.idx]
    pts = [z0.copy(), z0 * .5 + .3 * vals((n,), 4), z0 + .1 * vals((n,), 8)]
    P = vals((n,), 3)
    cbs = []
    cb = lambda *a: cbs.append(1)
    kw = {}
    if extra:
        kw = dict(bounds=[(-9., 9.)] * n, constraints=({'type': 'ineq', 'fun': lambda x, *a: 1.},), tol=1e-3, options={'maxiter': 7, 'disp': False}, callback=cb)

    def solver(a):
        if not close(np.asarray(a['x0']), z0, 0, 0):
            raise Bad('the starting point given to the solver is %s, not %s' % (summ(a['x0']), summ(z0)))
        if str(a['method']).lower() != method.lower():
            raise Bad('method %s passed on as %s' % (method, a['method']))
        if extra:
            if list(a['bounds'] or []) != kw['bounds'] or not a['constraints'] or tuple(a['constraints'])[0] is not kw['constraints'][0] or a['tol'] != 1e-3:
                raise Bad('bounds, constraints or tolerance not passed on')
            if not a['options'] or a['options'].get('maxiter') != 7:
                raise Bad('options not passed on')
            k = len(cbs)
            if not callable(a['callback']):
                raise Bad('callback not passed on')
            a['callback'](pts[0])
            if len(cbs) != k + 1:
                raise Bad('callback not passed on')
        q = funs(a)
        buf = np.array(z0)
        moved = 0
        last = z0
        for i, (kind, pi) in enumerate(script):
            if reuse:
                buf[:] = pts[pi]
                x = buf
            else:
                x = pts[pi].copy()
            if kind not in q:
                continue
            k = len(cbs)
            got = q[kind](x, P) if kind == 'hessp' else q[kind](x)
            if not np.array_equal(x, pts[pi]):
                raise Bad('the query point was modified')
            p.compare(kind, pts[pi], got, P, ' (query %d)' % i)
        return scipy.optimize.OptimizeResult(x=pts[answer].copy(), success=True)

    key = 'C15|script|%s|%s' % (vkind, okind)
    try:
        with Patched(solver) as pt:
            ch.minimize(p.obj, p.free, method=method, **kw)
        if not pt.called:
            return False
        p.final(pts[answer])
        ctx.state(vkind, okind, method, answer, tuple(script))
    except Bad as b:
        ctx.fail(key + '|' + str(b)[:14], '%s: %s' % (desc, b))
    except Stop:
        raise
    except Exception as x:
        import traceback, os
        tb = traceback.extract_tb(sys.exc_info()[2])
        ctx.fail(key + '|' + type(x).__name__, '%s: unexpected %s: %s (%s)' % (desc, type(x).__name__, str(x)[:200], ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))))
    return True


KINDS = ['fun', 'jac', 'hess', 'hessp']
DEEP = [('array', 'vector'), ('two selections of one array', 'list'), ('array', 'scalar')]


def cases(tier):
    out = []
    deep = DEEP if tier == 'quick' else [(v, o) for v in ('array', 'array and number', 'two selections of one array', 'nested selection') for o in OBJ]
    for v, o in deep:
        for k in KINDS:
            for i in range(3):
                out.append(['deep', v, o, k, i, 3])
    if tier == 'thorough':
        for k in KINDS:
            for i in range(3):
                for j in range(12):
                    out.append(['deep4', 'array', 'vector', k, i, j])
    for v in VARS:
        for o in OBJ:
            out.append(['pairs', v, o, tier])
    for m in METHODS:
        for v in VARS if tier == 'thorough' else ['array', 'array and number', 'two selections of one array', 'nested selection', 'matrix', 'selection in order']:
            for o in OBJ:
                out.append(['real', m, v, o])
        out.append(['args', m])
    return sorted(out, key=lambda c: (str(c[3:]), c[0], str(c[1:])))


def run(case, ctx):
    kind = case[0]
    alpha = [(k, i) for k in KINDS for i in range(3)]
    if kind in ('deep', 'deep4'):
        _, v, o, k, i, d = case
        al = alpha if OBJ[o][0] is not OBJ['scalar'][0] else [q for q in alpha if q[0] in ('fun', 'jac')]
        if (k, i) not in al:
            return
        if kind == 'deep4':
            hs = [[(k, i), alpha[d], x, y] for x in al for y in al]
        else:
            hs = [[(k, i)]] + [[(k, i), x] for x in al] + [[(k, i), x, y] for x in al for y in al]
        for h in hs:
            for reuse in (False, True):
                script_run(ctx, v, o, 'BFGS' if k != 'hess' else 'trust-ncg', h, reuse, (i + len(h) + h[-1][1]) % 3, '')
    elif kind == 'pairs':
        _, v, o, tier = case
        # every ordered pair of query kinds, at the same and at different points
        for x in KINDS:
            for y in KINDS:
                for pts in [(0, 1), (1, 1), (1, 2)] if tier == 'quick' else [(i, j) for i in range(3) for j in range(3)]:
                    script_run(ctx, v, o, 'trust-ncg' if 'hess' in (x, y) else 'Newton-CG', [(x, pts[0]), (y, pts[1])], pts == (1, 2), 1 if pts != (1, 2) else 0, '')
    elif kind == 'args':
        for v, o in (('array', 'vector'), ('array and number', 'scalar'), ('selection', 'dict')):
            for reuse in (False, True):
                script_run(ctx, v, o, case[1], [('fun', 1), ('jac', 1), ('fun', 2)], reuse, 2, 'with bounds, constraints, tolerance, options and callback')
    else:
        real(ctx, *case[1:])


def real(ctx, method, vkind, okind):
    p = Problem(ctx, vkind, okind)
    if method == 'trust-ncg' and p.scalar:
        return          # SciPy wants a Hessian there
    desc = 'real solver %s, objective: %s, free variables: %s' % (method, okind, vkind)
    ctx.hist(desc)
    res = {}
    cnt = [0]
    cbs = []
    opts = {'maxiter': 12} if method != 'TNC' else {'maxfun': 30}

    def observe(a):
        q = funs(a)
        def wrap(kind):
            def f(x, *r):
                z = np.array(x)
                got = q[kind](x, r[0]) if kind == 'hessp' else q[kind](x)
                if np.all(np.isfinite(z)) and np.max(np.abs(z)) < 50 and cnt[0] < 60:
                    cnt[0] += 1
                    p.compare(kind, z, got, r[0] if kind == 'hessp' else None, ' (query %d)' % cnt[0])
                return got
            return f
        b = dict(a)
        b['args'] = ()
        for k in KINDS:
            b[k] = wrap(k) if k in q and callable(q[k]) else (None if k != 'hess' else a['hess'])
        if a['jac'] is True:
            b['jac'] = wrap('jac')
        r = ORIG(**b)
        res['x'] = np.array(r.x)
        return r
    key = 'C15|real|%s|%s|%s' % (method, vkind, okind)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with Patched(observe) as pt:
                ch.minimize(p.obj, p.free, method=method, options=opts, callback=lambda *a: cbs.append(1))
        if pt.called:
            p.final(res['x'])
            if not cbs and not close(res['x'], p.flat0[p.idx], 1e-3, 1e-3):
                raise Bad('the callback was never called')
        ctx.state(method, vkind, okind)
    except Bad as b:
        ctx.fail(key + '|' + str(b)[:14], '%s: %s' % (desc, b))
    except Stop:
        raise
    except Exception as x:
        import traceback, os
        tb = traceback.extract_tb(sys.exc_info()[2])
        ctx.fail(key + '|' + type(x).__name__, '%s: unexpected %s: %s (%s)' % (desc, type(x).__name__, str(x)[:200], ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))))
