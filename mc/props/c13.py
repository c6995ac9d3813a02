"""C13: function-defined and grouped expressions against the function applied directly."""
from oracle import *
from chumpy.ch import ChGroup, ChLambda
from core import Stop
import copy as _copy
import lib
ID = 'C13'
RULE = ('function-defined expressions (several functions, unused and captured inputs, initial arguments, nested and coexisting ones with equal argument names) and grouped expressions x every history up to the depth (those of the full depth contain a read and end with a change) of: binding any name to any input, '
        'expression, other function-defined expression, plain array or number; binding several names at once and to one object; function-call style; input changes (also of shape); value and derivative reads (both modes); '
        'then value and all derivatives (inputs, intermediates, bound inputs) against the NumPy function applied to what is bound; and every operation of the library inside a function-defined, nested function-defined and grouped expression x earlier reads x changes and re-bindings')
ASSUMPTIONS = ['every differentiable input of a grouped expression is exposed', 'functions return an expression']
CHUNKS = 32
DEPTH = {'quick': 3, 'thorough': 4}

FN = {
    'mix': (lambda x, y: x * y + ch.sin(x), lambda x, y: x * y + np.sin(x)),
    'swap': (lambda y, x: x / (y * y + 2.), lambda y, x: x / (y * y + 2.)),
    'unused': (lambda x, y, z: ch.exp(x * .3) - z, lambda x, y, z: np.exp(x * .3) - z),
    'twice': (lambda x: x * x + x, lambda x: x * x + x),
    'identity': (lambda x: x, lambda x: x),
    'stack': (lambda x, y: ch.concatenate((x, y * y, x)), lambda x, y: np.concatenate((x, y * y, x))),
    'reduce': (lambda x, y: ch.sum(x) * y, lambda x, y: np.sum(x) * y),
    'unusedz': (lambda z, x: x ** 2., lambda z, x: x ** 2.),
}
LEAVES = {'a': [vals((2,), 0), vals((2,), 5), vals((3,), 2)], 'b': [vals((2,), 1), vals((2,), 6), vals((3,), 3)]}
EXPR = {'u': (('a',), lambda a: ch.exp(a), lambda a: np.exp(a)), 'v': (('a', 'b'), lambda a, b: a * b, lambda a, b: a * b), 's': (('a',), lambda a: ch.sum(a), lambda a: np.atleast_1d(np.sum(a)))}
# (name, instances [(name, kind, function, initial binding)], binding targets, other events)
W_ = [('w', 'a', 1), ('w', 'b', 1), ('ww', 2)]
SETUPS = [
    ('two arguments', [('f', 'lambda', 'mix', {})], ['a', 'b', 'u', 'v', 3.], W_),
    ('arguments in another order', [('f', 'lambda', 'swap', {'x': 'a'})], ['a', 'b', 'u', 's', 'K'], W_),
    ('unused argument', [('f', 'lambda', 'unused', {}), ('g', 'lambda', 'unusedz', {})], ['a', 'b', 'v'], W_[:2]),
    ('two of the same function', [('f', 'lambda', 'mix', {}), ('g', 'lambda', 'mix', {'x': 'a', 'y': 'b'})], ['a', 'u', 'b'], W_[:2]),
    ('nested', [('g', 'lambda', 'twice', {'x': 'a'}), ('f', 'lambda', 'mix', {'x': 'g', 'y': 'b'})], ['a', 'b', 'g'], W_),
    ('identity', [('g', 'lambda', 'identity', {}), ('f', 'lambda', 'reduce', {})], ['a', 'g', 's'], W_[:2]),
    ('stacking', [('f', 'lambda', 'stack', {'y': 'b'})], ['a', 'b', 'u', 's'], W_),
    ('captured input', [('f', 'captured', 'mix', {'x': 'a', 'y': 'b'})], ['a', 'b', 'v'], W_),
    ('group of a function', [('f', 'group', 'mix', {'x': 'a', 'y': 'b'})], ['a', 'b', 'u', 'v', 'K'], W_),
    ('group of an operation', [('f', 'opgroup', None, {'a': 'a', 'b': 'u'})], ['a', 'b', 'u', 'v'], W_),
    ('group and function', [('g', 'lambda', 'twice', {'x': 'a'}), ('f', 'group', 'reduce', {'x': 'g', 'y': 'b'})], ['a', 'b', 'g'], W_[:2]),
]
import inspect
READS = ('r', 'd', 'rd')


def names(fn):
    return list(inspect.signature(FN[fn][0]).parameters) if fn else ['a', 'b']


def alphabet(si):
    nm, insts, targets, other = SETUPS[si]
    evs = []
    for n, kind, fn, init in insts:
        ns = names(fn)
        for t in targets:
            if t == n or (n == 'g' and t == 'g'):
                continue
            for a in ns:
                evs.append(('b', n, a, t))
        good = [t for t in targets if t != n]
        if len(ns) > 1:
            evs.append(('set', n, [(a, good[0]) for a in ns]))
            evs.append(('set', n, [(a, good[i % len(good)]) for i, a in enumerate(reversed(ns))]))
        evs.append(('call', n, ns[0], good[-1]))
    evs += other
    for n, kind, fn, init in insts:
        evs.append(('r', n))
    evs += [('d', 'f', 'a'), ('rd', 'f', 'b'), ('d', 'f', 'u')]
    return evs


def cases(tier):
    out = []
    for si in range(len(SETUPS)):
        n = len(alphabet(si))
        for i in range(n):
            out.append([si, i, DEPTH[tier]])
    return sorted(out, key=lambda c: (c[1], c[0])) + lib.lib_cases(ID, tier)


class Bad(Exception):
    pass


class W(object):
    def __init__(self, si, ctx):
        self.ctx = ctx
        nm, insts, targets, other = SETUPS[si]
        self.v = {k: v[0] for k, v in LEAVES.items()}
        self.v['cap'] = vals((1,), 9)
        self.o = {k: ch.Ch(v.copy()) for k, v in self.v.items()}
        for k, (args, c, n) in EXPR.items():
            self.o[k] = c(*[self.o[a] for a in args])
        self.fn, self.bind = {}, {}
        self.k = 0
        for n, kind, fn, init in insts:
            ns = names(fn)
            self.bind[n] = dict(init)
            if kind in ('lambda', 'captured'):
                for i, a in enumerate(ns):
                    if a not in init:
                        self.v[n + a] = np.array([float(i)])
                        self.bind[n][a] = n + a
                kw = {a: self.o[t] for a, t in init.items()}
                f, g = FN[fn]
                if kind == 'captured':
                    cap = self.o['cap']
                    self.fn[n] = lambda x, y: g(x, y) * self._cap
                    f = lambda x, y: FN['mix'][0](x, y) * cap
                else:
                    self.fn[n] = g
                self.o[n] = ch.Ch(f, initial_args=kw) if kw else ch.Ch(f)
                for a in ns:
                    if a not in init:
                        self.o[n + a] = getattr(self.o[n], a)
            elif kind == 'group':
                self.fn[n] = FN[fn][1]
                self.o[n] = ChGroup(result=ch.Ch(FN[fn][0]), args={a: self.o[t] for a, t in init.items()})
            else:
                self.o[n] = ChGroup(result=ch.ch_ops.subtract(a=self.o['a'], b=self.o['b']), args={a: self.o[t] for a, t in init.items()})
                self.fn[n] = lambda a, b: a - b
            self.ns = ns
        self.kind = {n: kind for n, kind, fn, init in insts}

    def ev(self, n, ov=None, top=True):
        if ov and n in ov:
            return ov[n]
        if n in self.v:
            return self.v[n]
        if n in EXPR:
            args, c, f = EXPR[n]
            return f(*[self.ev(a, ov) for a in args])
        if self.kind[n] == 'captured':
            self._cap = self.ev('cap', ov)
        b = self.bind[n]
        vals_ = {a: self.ev(t, ov) for a, t in b.items()}
        return np.atleast_1d(self.fn[n](**vals_))

    def jac(self, n, wrt):
        base = np.asarray(self.ev(wrt), dtype=np.complex128)
        cols = []
        for j in range(base.size):
            x = base.copy()
            x.reshape(-1)[j] += 1j * H
            cols.append(np.imag(np.asarray(self.ev(n, {wrt: x}))).ravel() / H)
        return np.array(cols).T

    def feasible(self):
        try:
            return all(np.ndim(self.ev(n)) >= 1 and (self.kind[n] != 'x') for n in self.kind)
        except ValueError:
            return False

    def target(self, t):
        """-> (model name, object to assign)"""
        if isinstance(t, float) or t == 'K':
            self.k += 1
            n = 'k%d' % self.k
            self.v[n] = np.array([t]) if t != 'K' else vals((2,), 10 + self.k)
            return n, (t if t != 'K' else self.v[n].copy())
        return t, self.o[t]

    def do(self, e):
        self.ctx.step()
        k = e[0]
        if k == 'b':
            if e[3] not in ('K',) and self.bind[e[1]].get(e[2]) == e[3]:
                return False
            n, obj = self.target(e[3])
            self.bind[e[1]][e[2]] = n
            setattr(self.o[e[1]], e[2], obj)
        elif k == 'set':
            kw = {}
            for a, t in e[2]:
                n, kw[a] = self.target(t)
                self.bind[e[1]][a] = n
            self.o[e[1]].set(**kw)
        elif k == 'call':
            n, obj = self.target(e[3])
            self.bind[e[1]][e[2]] = n
            if not self.feasible():
                return False
            self.value(e[1], self.o[e[1]](**{e[2]: obj}))
        elif k == 'w':
            self.v[e[1]] = LEAVES[e[1]][e[2]]
            self.o[e[1]].x = LEAVES[e[1]][e[2]].copy()
        elif k == 'ww':
            for l in ('a', 'b'):
                self.v[l] = LEAVES[l][e[1]]
                self.o[l].x = LEAVES[l][e[1]].copy()
        elif k == 'r':
            if not self.feasible():
                return False
            self.value(e[1], self.o[e[1]].r)
        else:
            if not self.feasible():
                return False
            self.deriv(e[1], e[2], k == 'rd')
        return True

    def value(self, n, got):
        want = self.ev(n)
        self.ctx.seen('r', got.tobytes())
        if not close(got, want):
            raise Bad('value of %s (bound: %s): got %s, reference %s' % (n, self.bind[n], summ(got), summ(want)))

    def deriv(self, n, wrt, rev=False):
        J = self.o[n].dr_wrt(self.o[wrt], reverse_mode=rev)
        want = self.jac(n, wrt)
        got = dense(J, *want.shape)
        self.ctx.seen('d', got.tobytes())
        if got.shape != want.shape or not close(got, want, 1e-7, 1e-8):
            raise Bad('derivative of %s (bound: %s) wrt %s%s: got %s, reference %s' % (n, self.bind[n], wrt, ' in reverse mode' if rev else '', summ(got), summ(want)))

    def final(self):
        for n in self.bind:
            self.value(n, self.o[n].r)
            for wrt in ['a', 'b'] + sorted(set(t for t in self.bind[n].values() if t in ('u', 'v', 'g', 's'))) + (['cap'] if self.kind[n] == 'captured' else []):
                self.deriv(n, wrt)


def run(case, ctx):
    if case[0] == 'lib':
        return lib.functions(ctx, case[1], case[-1])
    si, i, depth = case
    evs = alphabet(si)
    def one(h):
        ctx.hist([SETUPS[si][0]] + [str(e) for e in h])
        try:
            w = W(si, ctx)
            for e in h:
                if w.do(e) is False:
                    return False
            ctx.state(si, str(sorted((n, sorted(b.items())) for n, b in w.bind.items())), tuple(v.tobytes() for k, v in sorted(w.v.items())), h[-1][0])
            if w.feasible():
                w.final()
        except Bad as b:
            ctx.fail('C13|%s|%s' % (SETUPS[si][0], str(b)[:14]), '"%s", history %s: %s' % (SETUPS[si][0], h, b))
        except Stop:
            raise
        except Exception as x:
            import traceback, sys, os
            tb = traceback.extract_tb(sys.exc_info()[2])
            ctx.fail('C13|%s|%s' % (SETUPS[si][0], type(x).__name__), '"%s", history %s: unexpected %s: %s (%s)' % (
                SETUPS[si][0], h, type(x).__name__, str(x)[:200], ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))))
        return True

    def rec(h):
        if one(h) and len(h) < depth:
            for e in evs:
                if len(h) == depth - 1 and (e[0] in READS or not any(x[0] in READS + ('call',) for x in h)):
                    continue    # the longest histories contain a read and end with a change
                rec(h + [e])
    rec([evs[i]])
