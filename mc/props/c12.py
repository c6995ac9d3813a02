"""C12: the protocol between the library and user-defined operations, monitored on every history."""
import gc
from oracle import *
from chumpy import Ch, depends_on
from core import Stop
ID = 'C12'
RULE = ('set-ups of instrumented user-defined operations (independent, shared and identical operands, nested operations, several instances, late optional operand, inherited and overridden declarations) x every history of assignments '
        '(single, several at once, through operands, item assignment, re-binding, function-call style, replace) and reads (value, derivative in both modes, derived attributes) up to the depth (those of the full depth begin with a read and a change and end with a change); a monitor checks every notification, recomputation and evaluation in order against the abstract state (changed names, stale attributes, value validity)')
ASSUMPTIONS = ['assigning a term the very object it already holds is not enumerated (either answer would be right)', 'derived attributes read only the terms they declare']
DEPTH = {'quick': 4, 'thorough': 5}
CHUNKS = 32


class Mon(object):
    """global event log of the instrumented operations"""
    log = []


class P(Ch):
    """t * a + k * b (+ c)"""
    terms = 't', 'k'
    dterms = 'a', 'b', 'c'

    def on_changed(self, which):
        Mon.log.append(('changed', self.nm, frozenset(which)))

    @depends_on('a')
    def pa(self):
        Mon.log.append(('prop', self.nm, 'pa'))
        return np.array(self.a.r)

    @depends_on('a', 'b')
    def pab(self):
        Mon.log.append(('prop', self.nm, 'pab'))
        return self.a.r + 2 * self.b.r

    @depends_on(['t', 'k'])
    def ptk(self):
        Mon.log.append(('prop', self.nm, 'ptk'))
        return 10 * self.t + self.k

    @depends_on('b', ['t'])
    def pbt(self, out=None):
        Mon.log.append(('prop', self.nm, 'pbt'))
        return self.b.r * self.t

    def compute_r(self):
        Mon.log.append(('value', self.nm))
        r = self.t * self.pa + self.k * self.b.r
        return r + self.c.r if hasattr(self, 'c') else r

    def compute_dr_wrt(self, wrt):
        Mon.log.append(('deriv', self.nm))
        if wrt is not self.a and wrt is not self.b and not (hasattr(self, 'c') and wrt is self.c):
            return None
        d = (self.t if wrt is self.a else 0) + (self.k if wrt is self.b else 0) + (1 if hasattr(self, 'c') and wrt is self.c else 0)
        return sp.eye(self.a.size, self.a.size) * float(d)


class PSub(P):
    """inherits everything, overrides one derived attribute"""
    @depends_on('k', 'b')
    def pbt(self):
        Mon.log.append(('prop', self.nm, 'pbt'))
        return self.b.r * self.k


class POpt(P):
    """the optional operand is left out at first"""


class PChain(P):
    """a derived attribute that uses another one, and a notification that reads attributes"""
    def on_changed(self, which):
        Mon.log.append(('changed', self.nm, frozenset(which)))
        if 'b' in which:
            self.pab


DEPS = {'pa': {'a'}, 'pab': {'a', 'b'}, 'ptk': {'t', 'k'}, 'pbt': {'b', 't'}}


def deps(cls):
    return dict(DEPS, pbt={'k', 'b'}) if cls is PSub else DEPS


READS = ('r', 'd', 'rd', 'pr')
LEAVES = {'x': vals((2,), 0), 'y': vals((2,), 1), 'z': vals((2,), 2)}
EXPR = {'u': ('x', 2.), 'w': ('y', 3.), 'xy': ('x', 'y')}        # u = x*2, w = y*3, xy = x+y
# set-up: instances in order of construction: name -> (class, {term: value or operand name})
SETUPS = [
    ('independent', [('p', P, dict(t=1., k=2., a='x', b='y', c='z'))]),
    ('through expressions', [('p', PSub, dict(t=1., k=2., a='u', b='xy', c='z'))]),
    ('identical operands', [('p', P, dict(t=1., k=2., a='u', b='u', c='x'))]),
    ('nested', [('q', P, dict(t=1., k=2., a='x', b='y', c='z')), ('p', PChain, dict(t=3., k=2., a='q', b='x', c='q'))]),
    ('two instances', [('p', P, dict(t=1., k=2., a='x', b='y', c='z')), ('q', PSub, dict(t=1., k=2., a='y', b='x', c='x'))]),
    ('optional', [('p', POpt, dict(t=1., k=2., a='u', b='y'))]),
]
EVENTS = [
    [('t', 'p', 't'), ('t', 'p', 'k'), ('tt', 'p', ('t', 'k')), ('w', 'x'), ('w', 'y'), ('i', 'x'), ('b', 'p', 'a', 'y'), ('b', 'p', 'b', 'xy'), ('n', 'p', 'a'), ('mix', 'p', 'k', 'a', 'u'), ('call', 'p', 't'),
     ('r', 'p'), ('d', 'p', 'x'), ('pr', 'p', 'pa'), ('pr', 'p', 'pab'), ('pr', 'p', 'ptk'), ('pr', 'p', 'pbt')],
    [('t', 'p', 't'), ('t', 'p', 'k'), ('w', 'x'), ('w', 'y'), ('bx', 'u'), ('b', 'p', 'a', 'w'), ('b', 'p', 'b', 'x'), ('n', 'p', 'b'), ('rep', 'p', 'x', 'z'), ('call', 'p', 'k'),
     ('r', 'p'), ('d', 'p', 'y'), ('rd', 'p', 'x'), ('pr', 'p', 'pa'), ('pr', 'p', 'pab'), ('pr', 'p', 'ptk'), ('pr', 'p', 'pbt')],
    [('t', 'p', 't'), ('w', 'x'), ('w', 'y'), ('b', 'p', 'a', 'y'), ('b', 'p', 'b', 'x'), ('b', 'p', 'a', 'x'), ('b', 'p', 'b', 'w'), ('bx', 'u'), ('bb', 'p', 'xy'),
     ('r', 'p'), ('d', 'p', 'x'), ('pr', 'p', 'pa'), ('pr', 'p', 'pab'), ('pr', 'p', 'pbt')],
    [('t', 'p', 't'), ('t', 'q', 'k'), ('tt', 'q', ('t', 'k')), ('w', 'x'), ('w', 'y'), ('b', 'q', 'a', 'w'), ('b', 'p', 'a', 'w'), ('b', 'p', 'b', 'q'), ('n', 'q', 'b'),
     ('r', 'p'), ('r', 'q'), ('d', 'p', 'x'), ('d', 'p', 'y'), ('d', 'q', 'x'), ('pr', 'p', 'pab'), ('pr', 'q', 'ptk'), ('pr', 'p', 'pa')],
    [('t', 'p', 't'), ('t', 'q', 't'), ('w', 'x'), ('w', 'y'), ('w', 'z'), ('b', 'p', 'a', 'z'), ('b', 'q', 'b', 'xy'), ('i', 'y'), ('gc', 'q'),
     ('r', 'p'), ('r', 'q'), ('d', 'p', 'x'), ('d', 'q', 'x'), ('pr', 'p', 'pab'), ('pr', 'q', 'pab'), ('pr', 'q', 'pbt')],
    [('t', 'p', 'k'), ('w', 'x'), ('w', 'y'), ('b', 'p', 'c', 'z'), ('b', 'p', 'c', 'u'), ('n', 'p', 'c'), ('w', 'z'), ('b', 'p', 'a', 'xy'),
     ('r', 'p'), ('d', 'p', 'x'), ('d', 'p', 'z'), ('pr', 'p', 'pa'), ('pr', 'p', 'pab')],
]


def cases(tier):
    out = []
    for i in range(len(SETUPS)):
        for j in range(len(EVENTS[i])):
            for k in range(len(EVENTS[i])):
                out.append([i, j, k, DEPTH[tier]])
    return sorted(out, key=lambda c: (c[1], c[2], c[0]))


class Bad(Exception):
    pass


class W(object):
    def __init__(self, si, ctx):
        self.ctx = ctx
        name, insts = SETUPS[si]
        self.v = dict(LEAVES)
        self.x = {k: list(e) for k, e in EXPR.items()}
        self.o = {k: Ch(v.copy()) for k, v in LEAVES.items()}
        self.o['u'] = self.o['x'] * 2.
        self.o['w'] = self.o['y'] * 3.
        self.o['xy'] = self.o['x'] + self.o['y']
        self.inst, self.D, self.stale, self.invalid = {}, {}, {}, {}
        self.n = 0
        self.order = []
        Mon.log = []
        for nm, cls, kw in insts:
            self.inst[nm] = dict(kw, cls=cls)
            self.order.append(nm)
            self.D[nm] = set(kw)
            self.stale[nm] = set(DEPS)
            self.invalid[nm] = True
            o = cls(**{k: self.o[v] if isinstance(v, str) else v for k, v in kw.items()})
            o.nm = nm
            self.o[nm] = o
        self.monitor('construction')

    # reference
    def val(self, n):
        if isinstance(n, float):
            return np.array([n, n]) if False else np.array([n])
        if n in self.v:
            return self.v[n]
        if n in self.inst:
            i = self.inst[n]
            r = i['t'] * self.val(i['a']) + i['k'] * self.val(i['b'])
            return r + self.val(i['c']) if 'c' in i else r
        e = self.x[n]
        return self.val(e[0]) + self.val(e[1]) if isinstance(e[1], str) else self.val(e[0]) * e[1]

    def jac(self, n, l):
        if isinstance(n, float):
            return np.zeros((1, 2))
        if n in self.v:
            return np.eye(2) * (n == l)
        if n in self.inst:
            i = self.inst[n]
            r = i['t'] * self.jac(i['a'], l) + i['k'] * self.jac(i['b'], l)
            return r + self.jac(i['c'], l) if 'c' in i else r
        e = self.x[n]
        return self.jac(e[0], l) + self.jac(e[1], l) if isinstance(e[1], str) else self.jac(e[0], l) * e[1]

    def prop(self, n, p):
        i = self.inst[n]
        a, b, t, k = self.val(i['a']), self.val(i['b']), i['t'], i['k']
        return {'pa': a, 'pab': a + 2 * b, 'ptk': 10 * t + k, 'pbt': b * (k if i['cls'] is PSub else t)}[p]

    def uses(self, n, what):
        if n == what:
            return True
        if isinstance(n, float) or n in self.v:
            return False
        if n in self.inst:
            return any(self.uses(self.inst[n][t], what) for t in 'abc' if t in self.inst[n])
        return any(self.uses(t, what) for t in self.x[n] if isinstance(t, str))

    def changed(self, what, names=None):
        """`what` (an input, an expression or an instance) changed; names: terms of the instance assigned directly"""
        if names:
            self.mark(what, names)
        for n in self.order:
            hit = {t for t in 'abc' if t in self.inst[n] and not isinstance(self.inst[n][t], float) and self.uses(self.inst[n][t], what)}
            if hit and n != what:
                self.mark(n, hit)

    def mark(self, n, names):
        self.D[n] |= set(names)
        self.invalid[n] = True
        for p, d in deps(self.inst[n]['cls']).items():
            if d & set(names):
                self.stale[n].add(p)

    # monitor
    def monitor(self, what):
        for e in Mon.log:
            n = e[1]
            if e[0] == 'changed':
                self.ctx.seen('changed', n, e[2])
                if not self.D[n]:
                    raise Bad('notification of %s with %s although nothing changed' % (n, sorted(e[2])))
                if e[2] != self.D[n]:
                    raise Bad('notification of %s names %s, changed since the last one: %s' % (n, sorted(e[2]), sorted(self.D[n])))
                self.D[n] = set()
            elif e[0] == 'prop':
                self.ctx.seen('prop', n, e[2])
                if e[2] not in self.stale[n]:
                    raise Bad('derived attribute %s.%s recomputed although none of its terms changed' % (n, e[2]))
                self.stale[n].discard(e[2])
            elif e[0] == 'value':
                self.ctx.seen('value', n)
                if self.D[n]:
                    raise Bad('value of %s computed before the notification of %s' % (n, sorted(self.D[n])))
                if not self.invalid[n]:
                    raise Bad('value of %s computed twice without a change in between' % n)
                self.invalid[n] = False
            else:
                if self.D[n]:
                    raise Bad('derivative of %s computed before the notification of %s' % (n, sorted(self.D[n])))
        Mon.log = []

    def do(self, e):
        self.ctx.step()
        self.n += 1
        k = e[0]
        o = self.o
        num = .5 * self.n + 1.25
        if k == 't':
            self.inst[e[1]][e[2]] = num
            setattr(o[e[1]], e[2], num)
            self.changed(e[1], [e[2]])
        elif k == 'tt':
            for t in e[2]:
                self.inst[e[1]][t] = num
            o[e[1]].set(**{t: num for t in e[2]})
            self.changed(e[1], e[2])
        elif k == 'call':
            self.inst[e[1]][e[2]] = num
            self.changed(e[1], [e[2]])
            self.value(e[1], o[e[1]](**{e[2]: num}))
        elif k == 'w':
            self.v[e[1]] = self.v[e[1]] * .5 + num
            o[e[1]].x = self.v[e[1]].copy()
            self.changed(e[1])
        elif k == 'i':
            a = self.v[e[1]].copy()
            a[1] = num
            self.v[e[1]] = a
            o[e[1]][1] = num
            self.changed(e[1])
        elif k == 'b':
            if self.inst[e[1]].get(e[2]) == e[3]:
                return False
            self.inst[e[1]][e[2]] = e[3]
            setattr(o[e[1]], e[2], o[e[3]])
            self.changed(e[1], [e[2]])
        elif k == 'bb':
            if e[2] in (self.inst[e[1]]['a'], self.inst[e[1]]['b']):
                return False
            self.inst[e[1]]['a'] = self.inst[e[1]]['b'] = e[2]
            o[e[1]].set(a=o[e[2]], b=o[e[2]])
            self.changed(e[1], 'ab')
        elif k == 'mix':
            if self.inst[e[1]][e[3]] == e[4]:
                return False
            self.inst[e[1]][e[2]] = num
            self.inst[e[1]][e[3]] = e[4]
            o[e[1]].set(**{e[2]: num, e[3]: o[e[4]]})
            self.changed(e[1], [e[2], e[3]])
        elif k == 'n':
            # a plain array is assigned to a differentiable term
            c = 'k%d' % self.n
            self.v[c] = np.array([num, -num])
            setattr(o[e[1]], e[2], self.v[c].copy())
            self.inst[e[1]][e[2]] = c
            self.changed(e[1], [e[2]])
        elif k == 'bx':
            # re-binding inside an operand (u = (x or y) * 2)
            new = 'y' if self.x[e[1]][0] == 'x' else 'x'
            self.x[e[1]][0] = new
            o[e[1]].a = o[new]
            self.changed(e[1])
        elif k == 'rep':
            if not self.uses(e[1], e[2]):
                return False
            names = set()
            for t in 'abc':
                if t in self.inst[e[1]]:
                    b = self.inst[e[1]][t]
                    if b == e[2]:
                        self.inst[e[1]][t] = e[3]
                        names.add(t)
            self.changed(e[1], names)
            for n in self.x:
                if self.uses(e[1], n) and self.uses(n, e[2]):
                    self.x[n] = [e[3] if t == e[2] else t for t in self.x[n]]
                    self.changed(n)
            o[e[1]].replace(o[e[2]], o[e[3]])
        elif k == 'gc':
            # a further instance comes and goes
            q = PSub(t=9., k=9., a=o['x'], b=o['y'], c=o['x'])
            q.nm = 'tmp'
            q.r
            Mon.log = [m for m in Mon.log if m[1] != 'tmp']
            del q
            gc.collect()
        elif k == 'r':
            self.value(e[1], o[e[1]].r)
        elif k in ('d', 'rd'):
            J = o[e[1]].dr_wrt(o[e[2]], reverse_mode=(k == 'rd'))
            self.monitor(e)
            want = self.jac(e[1], e[2])
            if not close(dense(J, 2, 2), want, 1e-7, 1e-8):
                raise Bad('derivative of %s wrt %s: got %s, reference %s' % (e[1], e[2], summ(dense(J, 2, 2)), summ(want)))
            self.ctx.seen('d', want.tobytes())
        elif k == 'pr':
            got = getattr(o[e[1]], e[2])
            self.monitor(e)
            if e[2] in self.stale[e[1]]:
                raise Bad('derived attribute %s.%s not recomputed although one of its terms changed' % (e[1], e[2]))
            if not close(np.atleast_1d(got), np.atleast_1d(self.prop(e[1], e[2]))):
                raise Bad('derived attribute %s.%s: got %s, reference %s' % (e[1], e[2], summ(got), summ(self.prop(e[1], e[2]))))
        self.monitor(e)
        return True

    def value(self, n, got):
        self.monitor('read')
        self.ctx.seen('r', got.tobytes())
        if not close(got, self.val(n)):
            raise Bad('value of %s: got %s, reference %s' % (n, summ(got), summ(self.val(n))))

    def key(self):
        return (tuple(sorted((n, tuple(sorted((t, str(v)) for t, v in i.items())), tuple(sorted(self.D[n])), tuple(sorted(self.stale[n])), self.invalid[n]) for n, i in self.inst.items())), tuple(v.tobytes() for k, v in sorted(self.v.items())))


def final(w, h, depth):
    for n in reversed(w.order):
        w.do(('pr', n, 'pab'))
        w.do(('r', n))
        w.do(('r', n))
        for p in sorted(DEPS):
            w.do(('pr', n, p))
    if len(h) < depth:
        w.do(('d', 'p', 'x'))
        w.do(('d', 'p', 'y'))


def run(case, ctx):
    si, j, k, depth = case
    evs = EVENTS[si]
    def one(h):
        ctx.hist([SETUPS[si][0]] + [str(e) for e in h])
        i = 0
        try:
            w = W(si, ctx)
            for e in h:
                if w.do(e) is False:
                    return False
            ctx.state(si, w.key())
            final(w, h, depth)
        except Bad as b:
            ctx.fail('C12|%s|%s' % (SETUPS[si][0], str(b)[:40]), 'set-up "%s", history %s: %s' % (SETUPS[si][0], h, b))
        except Stop:
            raise
        except Exception as x:
            import traceback, sys, os
            tb = traceback.extract_tb(sys.exc_info()[2])
            ctx.fail('C12|%s|%s' % (SETUPS[si][0], type(x).__name__), 'set-up "%s", history %s: unexpected %s: %s (%s)' % (
                SETUPS[si][0], h, type(x).__name__, str(x)[:200], ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))))
        return True

    def rec(h):
        if len(h) == depth and not (h[0][0] in READS and h[1][0] not in READS and h[-1][0] not in READS):
            return      # the longest histories begin with a read and a change and end with a change (everything is read at the end anyway)
        if one(h) and len(h) < depth:
            for e in evs:
                rec(h + [e])
    if k == 0:
        one([evs[j]])
    rec([evs[j], evs[k]])
