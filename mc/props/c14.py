"""C14: the dogleg minimizer, driven by every sequence of answers of an adversarial objective, and on real objectives."""
import sys
from oracle import *
from core import Stop
from chumpy import Ch
import warnings
ID = 'C14'
RULE = ('(a) adversarial objective: at every new point it answers with every residual quality relative to the prediction (full, half, marginal improvement, no change, worse, not a number), all answer sequences up to the depth x forms of free variables '
        '(array, matrix, number, selections, nested selections, several selections of one array) x objective forms x options (limits, initial radius, thresholds, dense/sparse, solvers); (b) smooth real objectives x the same configurations. '
        'A monitor holds the abstract optimizer state (accepted point, radius) and checks every evaluation, callback and the final state: trial points against the dogleg step of the true Jacobian within the radius, strict decrease, limits, restoration, untouched inputs')
ASSUMPTIONS = ['free variables do not overlap', 'Jacobian of full column rank']
CHUNKS = 32


class Env(Ch):
    """the objective: reads all underlying inputs, asks the driver"""
    dterms = 'v0', 'v1', 'v2'
    terms = 'drv'

    def inputs(self):
        return [getattr(self, n) for n in ('v0', 'v1', 'v2') if hasattr(self, n)]

    def compute_r(self):
        return self.drv.answer([np.array(v.r) for v in self.inputs()])

    def compute_dr_wrt(self, wrt):
        out = None
        for i, v in enumerate(self.inputs()):
            if v is wrt:
                J = self.drv.jac([np.array(v.r) for v in self.inputs()], i)
                out = J if out is None else out + J
        if out is not None and self.drv.sparse:
            return sp.csc_matrix(out)
        return out


QUAL = {'full': 1., 'half': .5, 'marginal': .02, 'same': 0., 'worse': -.7, 'nan': None}


def variables(kind):
    """-> (all inputs of the objective, free variables, index vectors into the concatenation of all inputs)"""
    I = np.arange
    if kind == 'array':
        a = ch.array(vals((2,), 1)); return [a], [a], I(2)
    if kind == 'matrix':
        a = ch.array(vals((2, 2), 1)); return [a], [a], I(4)
    if kind == 'array and number':
        a, b = ch.array(vals((2,), 1)), Ch(1.5); return [a, b], [a, b], I(3)
    if kind == 'numbers in another order':
        a, b = ch.array(vals((2,), 1)), Ch(0); b.x = 3; return [a, b], [b, a], np.array([2, 0, 1])
    if kind == 'one of two':
        a, b = ch.array(vals((2,), 1)), ch.array(vals((3,), 2)); return [a, b], [b], I(2, 5)
    if kind == 'selection':
        a = ch.array(vals((4,), 1)); return [a], [a[1:3]], I(1, 3)
    if kind == 'selection in order':
        a, b = ch.array(vals((2, 2), 1)), ch.array(vals((1,), 4)); return [a, b], [a[[1, 0], [1, 0]], b], np.array([3, 0, 4])
    if kind == 'nested selection':
        a = ch.array(vals((5,), 1)); return [a], [a[1:][[2, 0]]], np.array([3, 1])
    if kind == 'doubly nested selection':
        a = ch.array(vals((6,), 1)); return [a], [a[1:][[3, 2, 0]][1:]], np.array([3, 1])
    if kind == 'two selections of one array':
        a = ch.array(vals((5,), 1)); return [a], [a[3:], a[1:2]], np.array([3, 4, 1])
    if kind == 'selections of two arrays':
        a, b = ch.array(vals((3,), 1)), ch.array(vals((3,), 2)); return [a, b], [b[:2], a[2:]], np.array([3, 4, 2])
    raise Exception(kind)


VARS = ['array', 'matrix', 'array and number', 'numbers in another order', 'one of two', 'selection', 'selection in order', 'nested selection', 'doubly nested selection',
        'two selections of one array', 'selections of two arrays']
# objective form, sparse Jacobians, options
BASE = dict(disp=False, e_1=1e-15, e_2=1e-15)
CONF = {
    'plain': ('single', True, {}),
    'dense': ('single', False, {}),
    'as dense': ('list', True, {'treat_as_dense': True}),
    'small radius': ('dict', True, {'delta_0': .1}),
    'large radius': ('single', True, {'delta_0': 50., 'sparse_solver': 'cg'}),
    'small dense': ('single', False, {'delta_0': .3, 'treat_as_dense': True}),
    'own solver': ('list', True, {'sparse_solver': 'own', 'delta_0': 2.}),
    'improvement': ('single', False, {'e_3': .3}),
    'coarse steps': ('single', True, {'e_2': .2}),
    'one iteration': ('single', False, {'maxiter': 1}),
    'two iterations': ('single', True, {'maxiter': 2}),
    'no iteration': ('single', True, {'maxiter': 0}),
    'one evaluation': ('single', False, {'max_fevals': 1}),
    'two evaluations': ('single', True, {'max_fevals': 2}),
    'three evaluations': ('dict', False, {'max_fevals': 3}),
    'display': ('dict', True, {'disp': True}),
    'gradient': ('single', False, {'e_1': 1.}),
}


def cases(tier):
    out = []
    depth = 4 if tier == 'thorough' else 3
    q = list(QUAL)
    for v in VARS:
        for c in CONF:
            for a in q:
                # every configuration with a short script; the first configurations with the full depth
                d = depth + 1 if (v, c) in FULL or tier == 'thorough' and c in ('plain', 'dense', 'small radius') else (depth if v in ('array', 'two selections of one array', 'nested selection') or c == 'plain' else depth - 1)
                out.append(['env', v, c, a, d])
    for v in VARS:
        for c in CONF:
            for r in REAL:
                out.append(['real', v, c, r])
    return sorted(out, key=lambda c: (c[3], c[2], c[0]))


FULL = {('array', 'plain'), ('array', 'dense'), ('two selections of one array', 'small radius'), ('array and number', 'improvement')}


# real objectives of the concatenated free elements z (n), other inputs o; -> chumpy and NumPy form
REAL = {
    'quadratic': (lambda vs: [v * v - (i + 1.) for i, v in enumerate(vs)], lambda vs: [v * v - (i + 1.) for i, v in enumerate(vs)]),
    'rosenbrock-like': (lambda vs: [(vs[0].ravel()[1:] - vs[0].ravel()[:-1] ** 2) * 10. if vs[0].size > 1 else vs[0] * 10., 1. - vs[0], vs[-1] * .5 + 1.],
                        lambda vs: [(vs[0].ravel()[1:] - vs[0].ravel()[:-1] ** 2) * 10. if vs[0].size > 1 else vs[0] * 10., 1. - vs[0], vs[-1] * .5 + 1.]),
    'bumpy': (lambda vs: [ch.sin(3. * v) * 2. + v for v in vs] + [ch.exp(-v) * .3 for v in vs], lambda vs: [np.sin(3. * v) * 2. + v for v in vs] + [np.exp(-v) * .3 for v in vs]),
    'breaking down': (lambda vs: [ch.log(v + 2.2) + v * .5 + 1. for v in vs], lambda vs: [np.log(v + 2.2) + v * .5 + 1. for v in vs]),
}


class Bad(Exception):
    pass


class Driver(object):
    """plays the objective and monitors the optimizer"""
    def __init__(self, ctx, vkind, opts, sparse, script=None, real=None):
        self.ctx, self.script, self.sparse, self.real = ctx, list(script or ()), sparse, real
        self.inputs, self.free, self.idx = variables(vkind)
        self.x0 = [np.array(v.r) for v in self.inputs]
        self.raw = [np.array(v.x) for v in self.inputs]
        self.flat0 = np.concatenate([x.ravel() for x in self.x0])
        self.n = len(self.idx)
        self.memo = {}
        self.k = 0
        self.evals = 0
        self.acc = None             # accepted point (free elements)
        self.delta = opts.get('delta_0')
        self.opts = opts
        self.sses = []
        self.trial = None
        self.solves = 0
        self.pending = None
        self.fuzzy = False
        self.over = self.noise = False

    # --- the objective
    def jac_full(self, flat):
        """Jacobian with respect to all elements of all inputs at this point"""
        if self.real is not None:
            f = lambda z: np.concatenate([np.ravel(t) for t in self.real(self.split(z))])
            return cjac(f, [flat], 0)
        # well conditioned, differs from point to point
        m = flat.size + 1
        k = sum(int(abs(x) * 1e3) % 7 for x in flat)
        J = .3 * vals((m, flat.size), k) + np.eye(m, flat.size) * 2.
        return J

    def split(self, flat):
        out, p = [], 0
        for x in self.x0:
            out.append(flat[p:p + x.size].reshape(x.shape))
            p += x.size
        return out

    def jac(self, xs, i):
        flat = np.concatenate([x.ravel() for x in xs])
        p = sum(x.size for x in self.x0[:i])
        return self.jac_full(flat)[:, p:p + self.x0[i].size]

    def resid(self, flat):
        """what the objective is at this point (decided when it is first asked)"""
        if self.real is not None:
            return np.concatenate([np.ravel(t) for t in self.real(self.split(flat))])
        key = flat.tobytes()
        if key not in self.memo:
            m = flat.size + 1
            if not self.memo:
                r = vals((m,), 2) + .5
            else:
                q = self.script[self.k] if self.k < len(self.script) else 'worse'
                self.k += 1
                rho = QUAL[q]
                r0 = self.r
                if rho is None:
                    r = r0 * np.nan
                elif rho == 0:
                    r = r0.copy()
                else:
                    s = r0.dot(r0) - rho * self.pred
                    r = r0 * np.sqrt(max(s, 0) / r0.dot(r0))
                    if s > 0 and rho > 0 and not r.dot(r) < r0.dot(r0):
                        r = r0 * (1 - 1e-9)
            self.memo[key] = r
        return self.memo[key]

    def answer(self, xs):
        """the objective is evaluated here"""
        flat = np.concatenate([x.ravel() for x in xs])
        if self.over:
            return self.resid(flat)
        self.evals += 1
        self.ctx.step()
        lim = self.opts.get('max_fevals', np.inf)
        if self.evals > lim:
            raise Bad('evaluation %d of the objective, limit %s' % (self.evals, lim))
        if self.evals > 400:
            raise Bad('does not stop (%d evaluations)' % self.evals)
        rest = np.delete(np.arange(flat.size), self.idx)
        if not np.array_equal(flat[rest], self.flat0[rest]):
            raise Bad('an input that is not free, or an unselected element, changed during the minimization')
        z = flat[self.idx]
        if self.acc is None:
            if not np.array_equal(flat, self.flat0):
                raise Bad('the first evaluation is not at the starting point')
            r = self.resid(flat)
            self.accept(z, flat, r)
            return r
        # a trial
        self.finish_trial()
        step = z - self.acc
        want = self.dogleg()
        self.ctx.seen('trial', np.round(step, 9).tobytes())
        nrm = np.linalg.norm(step)
        if not self.fuzzy:
            if self.delta is not None and nrm > self.delta * (1 + 1e-6) + 1e-12:
                raise Bad('step of length %.6g leaves the trust region of radius %.6g' % (nrm, self.delta))
            if not close(step, want, 1e-5, 1e-9 + 1e-6 * np.linalg.norm(want)):
                raise Bad('trial step %s is not the dogleg step %s of the true Jacobian at the last accepted point (radius %s)' % (summ(step), summ(want), self.delta))
        if self.delta is None:
            self.delta = nrm
        self.pred = 2 * self.g.dot(step) - step.dot(self.A.dot(step))
        r = self.resid(flat)
        self.pending = (z, flat, r, nrm)
        return r

    def finish_trial(self):
        """the consequences of the last trial for the abstract state"""
        if self.pending is None:
            return
        z, flat, r, nrm = self.pending
        self.pending = None
        act = self.r.dot(self.r) - r.dot(r)
        rho = act / self.pred if act > 0 else act
        if abs(act) < 1e-9 * self.r.dot(self.r) and self.real is not None:
            self.noise = self.fuzzy = True       # converged: what happens now is up to rounding
        for t in (.05, .9):
            if abs(rho - t) < 1e-7:
                self.fuzzy = True
        if rho > .9:
            self.delta = max(self.delta, 2.5 * nrm)
        elif not rho >= .05:
            self.delta *= .25
        if act > 0 and rho > 0:
            self.accept(z, flat, r)

    def accept(self, z, flat, r):
        self.acc, self.r = z.copy(), r.copy()
        self.accflat = flat.copy()
        J = self.jac_full(flat)[:, self.idx]
        self.A, self.g = J.T.dot(J), -J.T.dot(r)
        if self.real is not None and (np.linalg.cond(self.A) > 1e8 or np.linalg.norm(self.g) < 1e-7 * (1 + np.linalg.norm(r))):
            self.fuzzy = True       # too close to a minimum (or too flat) to compare steps
        self.J = J
        if not np.all(np.isfinite(J)):
            self.fuzzy = True

    def dogleg(self):
        """The dogleg step for (J, r, radius), written from the definition."""
        Jg = self.J.dot(self.g)
        sd = self.g.dot(self.g) / Jg.dot(Jg) * self.g
        d = self.delta
        if d is not None and np.linalg.norm(sd) >= d:
            return sd * (d / np.linalg.norm(sd))
        gn = np.linalg.lstsq(self.J, -self.r, rcond=None)[0]
        if d is None or np.linalg.norm(gn) <= d:
            return gn
        # sd + t (gn - sd) of length d
        e = gn - sd
        a, b, c = e.dot(e), 2 * sd.dot(e), sd.dot(sd) - d * d
        return sd + (-b + np.sqrt(b * b - 4 * a * c)) / (2 * a) * e

    # --- the callback
    def on_step(self, obj=None):
        flat = np.concatenate([np.array(v.r).ravel() for v in self.inputs])
        self.finish_trial()
        sse = float(np.sum(np.square(np.asarray(obj.r))))
        want = self.r.dot(self.r)
        self.ctx.seen('callback', sse)
        if not self.sses and self.evals == 0:
            raise Bad('callback before any evaluation')
        if self.noise:
            if sse > self.sses[-1] * (1 + 1e-9):
                raise Bad('sum of squares at successive callbacks does not decrease: %s then %.12g' % (self.sses, sse))
            self.sses.append(sse)
            return
        if not close(np.array([sse]), np.array([want]), 1e-9, 1e-12):
            raise Bad('callback with sum of squares %.9g, at the accepted point it is %.9g' % (sse, want))
        if self.sses and not sse < self.sses[-1]:
            raise Bad('sum of squares at successive callbacks does not decrease: %s then %.12g' % (self.sses, sse))
        if not close(flat, self.accflat, 1e-12, 1e-12):
            raise Bad('free variables at the callback are not the accepted point')
        self.sses.append(sse)

    def solver(self, A, b):
        self.solves += 1
        self.finish_trial()
        if not self.fuzzy and (not close(np.asarray(A.toarray()), self.A, 1e-6, 1e-8) or not close(np.asarray(b).ravel(), self.g, 1e-6, 1e-8)):
            raise Bad('the solver is given a system that is not that of the true Jacobian at the last accepted point')
        import scipy.sparse.linalg as sla
        return sla.spsolve(A, b)

    def done(self, ret):
        self.over = True
        self.finish_trial()
        flat = np.concatenate([np.array(v.r).ravel() for v in self.inputs])
        rest = np.delete(np.arange(flat.size), self.idx)
        if not np.array_equal(flat[rest], self.flat0[rest]):
            raise Bad('an input that is not free, or an unselected element, was changed')
        tol = 1e-4 if self.noise else 1e-12
        if not close(flat[self.idx], self.acc, tol, tol):
            raise Bad('free variables at return %s are not the last accepted point %s' % (summ(flat[self.idx]), summ(self.acc)))
        for v, x in zip(self.inputs, self.x0):
            if v.r.shape != x.shape:
                raise Bad('shape of an input changed from %s to %s' % (x.shape, v.r.shape))
        if not self.sses:
            raise Bad('no callback')
        if not close(np.array([self.sses[-1]]), np.array([self.r.dot(self.r)]), 1e-9, 1e-12):
            raise Bad('the last accepted step was not reported')
        if len(self.sses) - 1 > self.opts.get('maxiter', 200):
            raise Bad('%d accepted steps, at most %d iterations allowed' % (len(self.sses) - 1, self.opts['maxiter']))


def one(ctx, case, script=None):
    kind, vkind, conf = case[:3]
    form, sparse, o = CONF[conf]
    opts = dict(BASE)
    opts.update(o)
    desc = 'free variables: %s; configuration: %s; ' % (vkind, conf)
    desc += 'answers %s' % (script,) if script is not None else 'objective %s' % case[3]
    ctx.hist(desc)
    key = 'C14|%s|%s|%s' % (kind, vkind, conf)
    real = None
    if kind == 'real':
        real = REAL[case[3]][1]
        if form != 'single':        # several residual blocks
            base, real = real, lambda vs: base(vs) + [vs[-1] * .25]
    d = Driver(ctx, vkind, opts, sparse, script, real)
    if 'max_fevals' not in opts and kind == 'env' and conf != 'coarse steps':
        opts['max_fevals'] = len(script) + 2
    if kind == 'real' and 'maxiter' not in opts:
        opts['maxiter'] = 12
    if kind == 'real':
        opts.setdefault('e_3', 1e-6)
    if opts.get('sparse_solver') == 'own':
        opts['sparse_solver'] = d.solver
    if kind == 'real':
        inner = ch.concatenate([t.ravel() for t in REAL[case[3]][0](d.inputs)])
        e = Rec(drv=d, e=inner)
    else:
        e = Env(drv=d, **{'v%d' % i: v for i, v in enumerate(d.inputs)})
    other = [v * 2. for v in d.inputs]
    for x in other:
        x.r
    if form == 'list':
        obj = [e]
        if kind == 'real':
            obj.append(d.inputs[-1] * .25)
    elif form == 'dict':
        obj = {'residual': e}
        if kind == 'real':
            obj['another'] = d.inputs[-1] * .25
    else:
        obj = e
    err = sys.stderr
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ret = ch.minimize(fun=obj, x0=d.free, method='dogleg', callback=d.on_step, options=opts)
        d.done(ret)
        # everything that depends on the free variables follows
        for v, x in zip(d.inputs, other):
            if not close(x.r, 2 * v.r):
                raise Bad('an expression of a free variable is stale after the minimization')
        got = e.r
        if not close(got, d.resid(np.concatenate([np.array(v.r).ravel() for v in d.inputs]))[:got.size], 1e-9, 1e-12):
            raise Bad('the objective read after the minimization is not that at the returned point')
        ctx.state(vkind, conf, d.acc.tobytes(), d.evals, d.delta)
    except Bad as b:
        ctx.fail(key + '|' + str(b)[:30], '%s: %s' % (desc, b))
    except Stop:
        raise
    except Exception as x:
        import traceback, os
        tb = traceback.extract_tb(sys.exc_info()[2])
        ctx.fail(key + '|' + type(x).__name__, '%s: unexpected %s: %s (%s)' % (desc, type(x).__name__, str(x)[:200], ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))))
    return d


class Rec(Ch):
    """a real objective, observed"""
    dterms = 'e'
    terms = 'drv'

    def compute_r(self):
        r = np.array(self.e.r)
        want = self.drv.answer([np.array(v.r) for v in self.drv.inputs])
        if not close(r, want[:r.size], 1e-8, 1e-10):
            raise Bad('the objective evaluated by the minimizer is not that of the current free variables')
        return r

    def compute_dr_wrt(self, wrt):
        if wrt is self.e:
            return sp.eye(self.e.size, self.e.size) if self.drv.sparse else np.eye(self.e.size)


def run(case, ctx):
    if case[0] == 'real':
        one(ctx, case)
        return
    _, v, c, first, depth = case
    def rec(s):
        d = one(ctx, case, s)
        # a longer script only makes sense if this one was used up
        if len(s) < depth and d.k >= len(s):
            for q in QUAL:
                rec(s + [q])
    rec([first])
