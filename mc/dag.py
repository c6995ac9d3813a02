"""Expression graphs: a reference model (names, bindings, parameters, plain arrays) and the real objects side by side.

Spec(leaves, nodes): leaves  {name: [array values...]} (value 0 is the initial one; a later one may have another shape)
                     nodes   [(name, op, [operand names], {param: value})] in topological order
The model evaluates a graph from scratch with NumPy (complex, so that Jacobians come from complex steps), memoised by
the full model state; the World drives the real chumpy objects with the same events.
"""
import gc
from oracle import *


class Op(object):
    def __init__(self, slots, build, f, view=False):
        self.slots, self.build, self.f, self.view = slots, build, f, view


def _sel(a, idxs, preferred_shape=None):
    r = a.ravel()[np.asarray(idxs)]
    return r if preferred_shape is None else r.reshape(preferred_shape)


def _cmax(a, axis=None):
    if axis is None:
        return a.ravel()[np.argmax(a.real.ravel())]
    return np.take_along_axis(a, np.expand_dims(np.argmax(a.real, axis), axis), axis).squeeze(axis)


def _c1(f):
    return lambda *a, **k: np.atleast_1d(f(*a, **k))


OPS = {
    'add': Op(('a', 'b'), lambda a, b: a + b, lambda a, b: a + b),
    'sub': Op(('a', 'b'), lambda a, b: a - b, lambda a, b: a - b),
    'mul': Op(('a', 'b'), lambda a, b: a * b, lambda a, b: a * b),
    'div': Op(('x1', 'x2'), lambda a, b: a / b, lambda a, b: a / b),
    'pow': Op(('x', 'pow'), lambda a, b: a ** b, lambda a, b: np.exp(b * np.log(a))),
    'sin': Op(('x',), lambda x: ch.sin(x), np.sin),
    'exp': Op(('x',), lambda x: ch.exp(x), np.exp),
    'square': Op(('x',), lambda x: ch.square(x), lambda x: x * x),
    'neg': Op(('x',), lambda x: -x, lambda x: -x),
    'sqrt': Op(('x',), lambda x: ch.sqrt(x), np.sqrt),
    'sum': Op(('x',), lambda x, axis=None: ch.sum(x, axis=axis), lambda x, axis=None: np.sum(x, axis)),
    'mean': Op(('x',), lambda x, axis=None: ch.mean(x, axis=axis), lambda x, axis=None: np.mean(x, axis)),
    'max': Op(('a',), lambda x, axis=None: ch.max(x, axis=axis), _cmax),
    'cumsum': Op(('a',), lambda x, axis=None: ch.cumsum(x, axis=axis), lambda x, axis=None: np.cumsum(x, axis)),
    'ssq': Op(('x',), lambda x: ch.SumOfSquares(x), lambda x: np.sum(x * x)),
    'dot': Op(('a', 'b'), lambda a, b: a.dot(b), lambda a, b: a.dot(b)),
    'inv': Op(('a',), lambda a: ch.linalg.inv(a), lambda a: np.linalg.inv(a)),
    'det': Op(('x',), lambda a: ch.linalg.det(a), lambda a: np.linalg.det(a)),
    'sel': Op(('a',), lambda a, idxs=None, preferred_shape=None: ch.Select(a=a, idxs=np.asarray(idxs), preferred_shape=preferred_shape)
              if preferred_shape is not None else ch.Select(a=a, idxs=np.asarray(idxs)), _sel, True),
    'reshape': Op(('a',), lambda a, newshape=None: ch.reshape(a, newshape), lambda a, newshape=None: a.reshape(newshape), True),
    'T': Op(('a',), lambda a: a.T, lambda a: a.T, True),
    'transpose': Op(('a',), lambda a, axes=None: ch.transpose(a, axes), lambda a, axes=None: np.transpose(a, axes), True),
    'roll': Op(('a',), lambda a, shift=1, axis=None: ch.roll(a, shift, axis), lambda a, shift=1, axis=None: np.roll(a, shift, axis), True),
    'repeat': Op(('a',), lambda a, repeats=2, axis=None: ch.repeat(a, repeats, axis), lambda a, repeats=2, axis=None: np.repeat(a, repeats, axis)),
    'tile': Op(('a',), lambda a, reps=2: ch.tile(a, reps), lambda a, reps=2: np.tile(a, reps)),
    'sort': Op(('a',), lambda a: ch.sort(a), lambda a: np.take_along_axis(a, np.argsort(a.real, -1), -1)),
    'cat': Op(('m0', 'm1'), lambda a, b, axis=0: ch.concatenate((a, b), axis=axis), lambda a, b, axis=0: np.concatenate((a, b), axis)),
    'cat3': Op(('m0', 'm1', 'm2'), lambda a, b, c, axis=0: ch.concatenate((a, b, c), axis=axis), lambda a, b, c, axis=0: np.concatenate((a, b, c), axis)),
    'mvm': Op(('vec',), lambda v, mtx=None: ch.MatVecMult(mtx=mtx, vec=v), lambda v, mtx=None: mtx.dot(v.ravel())),
    'clip': Op(('a',), lambda a, a_min=-1., a_max=1.: ch.clip(a, a_min, a_max),
               lambda a, a_min=-1., a_max=1.: np.where(a.real < a_min, a_min, np.where(a.real > a_max, a_max, a))),
    'maximum': Op(('a', 'b'), lambda a, b: ch.maximum(a, b), lambda a, b: np.where(a.real > b.real, a, b)),
    'at2': Op(('x',), lambda x: ch.atleast_2d(x), lambda x: np.atleast_2d(x)),
}


PERMUTE = ('sel', 'reshape', 'T', 'transpose', 'roll', 'repeat', 'tile', 'sort')     # re-arrangements of one array


class Kink(ValueError):
    """the function is not differentiable (or not real) at this point: out of scope"""


def smooth(op, args, par):
    if op == 'maximum' and np.any(np.isclose(args[0].real - args[1].real, 0)):
        raise Kink()
    if op == 'clip' and (np.any(np.isclose(args[0].real, par['a_min'])) or np.any(np.isclose(args[0].real, par['a_max']))):
        raise Kink()
    if op in ('max', 'sort'):
        v = np.sort(args[0].real, None)
        if np.any(np.isclose(np.diff(v), 0)):
            raise Kink()
    if op in ('sqrt', 'pow') and np.any(args[0].real <= 1e-9):
        raise Kink()
    if op == 'div' and np.any(np.abs(args[1]) < 1e-6):
        raise Kink()


def pk(v):
    return v.tobytes() if isinstance(v, np.ndarray) else (str(v.toarray().tolist()) if sp.issparse(v) else str(v))


class Spec(object):
    def __init__(self, name, leaves, nodes, root=None):
        self.name = name
        self.leaves = {k: [np.array(a, dtype=np.float64) for a in v] for k, v in leaves.items()}
        self.nodes = [(n, op, tuple(args), dict(ps)) for n, op, args, ps in nodes]
        self.root = root or self.nodes[-1][0]
        self.memo = {}


class Model(object):
    """The reference state: never looks at the real objects."""
    def __init__(self, spec):
        self.spec = spec
        self.vals = {k: v[0] for k, v in spec.leaves.items()}
        self.lk = {k: 0 for k in spec.leaves}       # leaf state key
        self.op = {n: op for n, op, _, _ in spec.nodes}
        self.bind = {n: list(args) for n, op, args, ps in spec.nodes}
        self.par = {n: dict(ps) for n, op, args, ps in spec.nodes}
        self.order = [n for n, _, _, _ in spec.nodes]
        self.strict = False
        self._k = None          # reset by every event

    def key(self):
        if self._k is None:
            self._k = self._key()
        return self._k

    def _key(self):
        return (tuple(sorted((k, str(v)) for k, v in self.lk.items())), tuple(sorted((n, tuple(b)) for n, b in self.bind.items())),
                tuple(sorted((n, tuple(sorted((p, pk(v)) for p, v in d.items()))) for n, d in self.par.items() if d)))

    def ev(self, node, override=None, done=None):
        done = {} if done is None else done
        if override and node in override:
            return override[node]
        if node in done:
            return done[node]
        if node in self.vals:
            r = self.vals[node].astype(np.complex128)
        else:
            args = [self.ev(a, override, done) for a in self.bind[node]]
            if self.strict and not override:
                smooth(self.op[node], args, self.par[node])
            r = np.atleast_1d(OPS[self.op[node]].f(*args, **self.par[node]))
        done[node] = r
        return r

    def reach(self, node):
        out, todo = set(), [node]
        while todo:
            n = todo.pop()
            if n not in out:
                out.add(n)
                if n in self.bind:
                    todo += self.bind[n]
        return out

    def value(self, node):
        memo = self.spec.memo
        k = (self.key(), 'r', node)
        if k not in memo:
            memo[k] = np.real(self.ev(node))
        return memo[k]

    def jac(self, node, wrt):
        """Jacobian with respect to a leaf or to an intermediate expression taken as the variable."""
        memo = self.spec.memo
        k = (self.key(), 'J', node, wrt)
        if k not in memo:
            base = self.ev(wrt)
            cols = []
            for j in range(base.size):
                b = base.copy()
                b.reshape(-1)[j] += 1j * H
                cols.append(np.imag(self.ev(node, {wrt: b})).ravel() / H)
            memo[k] = np.array(cols).T.reshape((-1, base.size))
        return memo[k]

    # view chains (sel / reshape / T ... of a leaf): which leaf elements does it show
    def view_of(self, node):
        n = node
        while n in self.bind and OPS[self.op[n]].view:
            n = self.bind[n][0]
        if n == node or n not in self.vals:
            return None
        return n

    def view_index(self, node):
        base = self.view_of(node)
        idx = np.arange(self.vals[base].size).reshape(self.vals[base].shape).astype(np.complex128)
        return base, np.real(self.ev(node, {base: idx})).astype(int)


class World(object):
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.m = Model(spec)
        self.o = {}
        for k, v in spec.leaves.items():
            self.o[k] = ch.Ch(v[0].copy())
        for n, op, args, ps in spec.nodes:
            self.o[n] = OPS[op].build(*[self.o[a] for a in args], **ps)
        self.extra = []
        self.bad = False

    # --- events; each returns nothing, reads are checked against the model at once
    def do(self, ev):
        self.ctx.step()
        self.m._k = None
        getattr(self, 'e_' + ev[0])(*ev[1:])

    def e_w(self, leaf, k):
        a = self.spec.leaves[leaf][k]
        self.m.vals[leaf], self.m.lk[leaf] = a, k
        self.o[leaf].x = a.copy()

    def e_ww(self, pairs):
        """several inputs change (to shapes that only fit together) before anything is read"""
        for leaf, k in pairs:
            self.e_w(leaf, k)

    def e_wn(self, leaf, number):
        """an input is assigned a plain number"""
        self.m.vals[leaf], self.m.lk[leaf] = np.array([float(number)]), 'n%s' % number
        self.o[leaf].x = number

    def e_i(self, leaf, idx, v):
        a = self.m.vals[leaf].copy()
        a[idx] = v
        self.m.vals[leaf] = a
        self.m.lk[leaf] = a.tobytes()
        self.o[leaf][idx] = v

    def e_v(self, view, idx, v):
        """item assignment through a view"""
        base, ix = self.m.view_index(view)
        a = self.m.vals[base].copy()
        sel = np.asarray(ix[idx])
        a.reshape(-1)[sel.ravel()] = np.broadcast_to(v, sel.shape).ravel()
        self.m.vals[base] = a
        self.m.lk[base] = a.tobytes()
        self.o[view][idx] = v

    def e_b(self, node, slot, target):
        self.m.bind[node][slot] = target
        setattr(self.o[node], OPS[self.m.op[node]].slots[slot], self.o[target])

    def e_set(self, node, targets):
        kw = {}
        for slot, t in targets:
            self.m.bind[node][slot] = t
            kw[OPS[self.m.op[node]].slots[slot]] = self.o[t]
        self.o[node].set(**kw)

    def e_swap(self, node):
        b = self.m.bind[node]
        self.e_set(node, [(0, b[1]), (1, b[0])])

    def e_call(self, node, slot, target):
        self.m.bind[node][slot] = target
        self.m._k = None
        got = self.o[node](**{OPS[self.m.op[node]].slots[slot]: self.o[target]})
        self.check_val(node, got)

    def e_p(self, node, name, v):
        self.m.par[node][name] = v
        setattr(self.o[node], name, v)

    def e_pset(self, node, kw):
        self.m.par[node].update(kw)
        self.o[node].set(**kw)

    def e_r(self, node):
        self.check_val(node, self.o[node].r)

    def e_d(self, node, wrt):
        self.check_jac(node, wrt, self.o[node].dr_wrt(self.o[wrt]))

    def e_rd(self, node, wrt):
        self.check_jac(node, wrt, self.o[node].dr_wrt(self.o[wrt], reverse_mode=True), mode='reverse')

    def e_l(self, node, wrt):
        self.check_lop(node, wrt)

    def e_np(self, node):
        self.extra.append((node, self.o[node] * 3.))

    def e_npr(self, node, wrt):
        """new parent, evaluated at once"""
        n = self.o[node] * 3.
        self.extra.append((node, n))
        self.check(n.r, 3 * self.m.value(node), 'value of a new parent of ' + node)
        J = n.dr_wrt(self.o[wrt])
        self.checkj(J, 3 * self.m.jac(node, wrt), 'derivative of a new parent of ' + node)

    def e_dp(self):
        self.extra = []
        gc.collect()

    def e_n(self, *a):
        pass

    # --- comparisons
    def check_val(self, node, got):
        self.check(got, self.m.value(node), 'value of ' + node)

    def check_jac(self, node, wrt, J, mode='forward'):
        self.checkj(J, self.m.jac(node, wrt), '%s derivative of %s wrt %s' % (mode, node, wrt))

    def check_lop(self, node, wrt, L=None):
        want = self.m.jac(node, wrt)
        if L is None:
            L = np.eye(want.shape[0])
        got = self.o[node].lop(self.o[wrt], L)
        self.checkj(got, L.dot(want), 'lop of %s wrt %s' % (node, wrt))

    def check(self, got, want, what):
        want = np.atleast_1d(want)
        self.ctx.seen(what, got.shape, got.tobytes())
        if not close(got, want):
            self.fail(what, 'got shape %s %s, reference shape %s %s' % (got.shape, summ(got), want.shape, summ(want)))

    def checkj(self, J, want, what):
        got = dense(J, *want.shape)
        self.ctx.seen(what, got.shape, got.tobytes())
        if got.shape != want.shape:
            self.fail(what, 'Jacobian shape %s, reference %s' % (got.shape, want.shape))
        elif not close(got, want, 1e-7, 1e-8):
            self.fail(what, 'got %s, reference %s' % (summ(got), summ(want)))

    def fail(self, what, msg):
        self.bad = True
        raise Divergence('%s: %s' % (what, msg))


class Divergence(Exception):
    pass


def show(ev):
    def s(x):
        if isinstance(x, np.ndarray):
            return 'array' + str(x.shape)
        if sp.issparse(x):
            return 'sparse' + str(x.shape)
        return str(x)
    return ev[0] + '(' + ','.join(s(x) for x in ev[1:]) + ')'


def run_history(ctx, spec, evs, final, key):
    """One complete history from a fresh graph; final(world) makes the closing checks."""
    w = World(spec, ctx)
    i = 0
    try:
        for i, e in enumerate(evs):
            w.do(e)
        final(w)
        ctx.state(spec.name, w.m.key(), tuple(e[0] for e in evs))
    except Divergence as d:
        ctx.fail('%s|%s' % (key, str(d).split(':')[0]), '%s after history [%s]: %s' % (spec.name, '; '.join(show(e) for e in evs), d))
        return False
    except Exception as e:
        import traceback, sys, os
        tb = traceback.extract_tb(sys.exc_info()[2])
        ctx.fail('%s|%s' % (key, type(e).__name__), '%s: unexpected %s: %s in history [%s]  (%s)' % (
            spec.name, type(e).__name__, str(e)[:200], '; '.join(show(e) for e in evs),
            ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))))
        return False
    return True


def same(e, f):
    """cheap: is event f an idle repetition of e?"""
    try:
        return e[0] == f[0] and e[0] in ('w', 'r', 'd', 'l', 'rd', 'dp', 'p', 'b') and e == f
    except ValueError:
        return False
