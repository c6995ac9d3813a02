"""C16: a failure at every single computation of an evaluation, and what is read afterwards."""
import functools
from templates import *
from userops import Scaled, Notified
from core import Stop
import chumpy
import chumpy.linalg, chumpy.extras, chumpy.reordering, chumpy.ch_ops, chumpy.logic
import lib
ID = 'C16'
RULE = ('graph templates and special expressions (user-defined operations with notifications, validity checks and derived attributes; function-defined ones) x evaluation (value, forward/reverse derivative, vector-Jacobian product, function-call style) x what happened before '
        '(nothing, everything read, read and changed) x every single computation of that evaluation failing, at its beginning or at its end (value, derivative, notification, validity check, derived attribute; plus two failures in a row) x what happens after (retry, other reads first, a change, another order); '
        'and natural failures (singular matrices, shapes that do not fit, invalid states) in every position of read/change histories. The error must reach the caller; all later values and derivatives are compared with the NumPy model; and for every operation of the library a failure at every statement of its code that can fail')
ASSUMPTIONS = ['one failure (or two consecutive ones) per evaluation', 'graph templates of up to 7 operations']
CHUNKS = 32


class Injected(Exception):
    pass


class Fault(object):
    on = False
    n = 0
    target = None
    exc = Injected

    @classmethod
    def hit(cls):
        if cls.on:
            cls.n += 1
            if cls.n == cls.target:
                raise cls.exc('injected')


def instrument():
    """every computation of every operation is a possible point of failure"""
    seen = set()
    todo = [ch.Ch]
    while todo:
        c = todo.pop()
        for s in c.__subclasses__():
            if s in seen:
                continue
            seen.add(s)
            todo.append(s)
            if not (s.__module__ or '').startswith(('chumpy', 'userops')):
                continue
            for name in ('compute_r', 'compute_dr_wrt', 'on_changed'):
                f = s.__dict__.get(name)
                if f is None or not callable(f) or getattr(f, '_mc', False):
                    continue
                def make(f):
                    @functools.wraps(f)
                    def g(*a, **k):
                        Fault.hit()
                        r = f(*a, **k)
                        Fault.hit()
                        return r
                    g._mc = True
                    return g
                setattr(s, name, make(f))


class Checked(ch.Ch):
    """k * a**2 with validity check, notification and derived attribute, all of which may fail"""
    dterms = 'a', 'b'
    terms = 'k'

    def is_valid(self):
        Fault.hit()
        return True, ''

    def on_changed(self, which):
        Fault.hit()
        if 'k' in which:
            self._k = float(self.k)
        Fault.hit()
        if 'a' in which:
            self._a = np.array(self.a.r)
        Fault.hit()

    @ch.depends_on('a', 'k')
    def scaled(self):
        Fault.hit()
        v = self._k * self._a
        Fault.hit()
        return v

    def compute_r(self):
        Fault.hit()
        r = self.scaled * self._a + self.b.r
        Fault.hit()
        return r

    def compute_dr_wrt(self, wrt):
        Fault.hit()
        d = None
        if wrt is self.a:
            d = sp.diags([2. * self.scaled.ravel()], [0])
        if wrt is self.b:
            d = sp.eye(self.b.size) if d is None else d + sp.eye(self.b.size)
        Fault.hit()
        return d


OPS['checked'] = Op(('a', 'b'), lambda a, b, k=2.: Checked(a=a, b=b, k=k), lambda a, b, k=2.: k * a * a + b)
OPS['lam'] = Op(('x', 'y'), lambda x, y: _lam(x, y), lambda x, y: x * np.sin(y))
OPS['scaled'] = Op(('a', 'b'), lambda a, b, k=2.: Scaled(a=a, b=b, k=k), lambda a, b, k=2.: 2 * k * (a + b) ** 2)
OPS['notified'] = Op(('a',), lambda a, n=2: Notified(a=a, n=n), lambda a, n=2: a ** n)


def _lam(x, y):
    f = ch.Ch(lambda x, y: x * ch.sin(y))
    f.x = x
    f.y = y
    return f


def more():
    T = []
    def t(name, leaves, nodes, events, jreads):
        T.append((Spec(name, leaves, nodes), events, [], jreads))
    L = {'a': V((2,)), 'b': V((2,), k0=1)}
    t('user-defined', L, [('u', 'exp', 'a', {}), ('c', 'checked', 'ub', {'k': 2.}), ('s', 'scaled', 'ca', {'k': 1.}), ('y', 'mul', 'sb', {})],
      [('w', 'a', 1), ('w', 'b', 1), ('p', 'c', 'k', 3.), ('b', 'c', 0, 'b'), ('p', 's', 'k', 5.)], [('d', 'c', 'a'), ('d', 'y', 'a'), ('d', 'y', 'b')])
    t('user-defined shared', L, [('c', 'checked', 'aa', {'k': 2.}), ('n', 'notified', 'c', {'n': 2}), ('e', 'checked', ['n', 'c'], {'k': .5}), ('y', 'add', 'en', {})],
      [('w', 'a', 1), ('p', 'c', 'k', 3.), ('p', 'n', 'n', 3), ('b', 'e', 1, 'b'), ('swap', 'e')], [('d', 'e', 'a'), ('d', 'y', 'a')])
    t('function-defined', L, [('u', 'square', 'a', {}), ('f', 'lam', 'ub', {}), ('g', 'lam', 'fu', {}), ('y', 'sum', 'g', {})],
      [('w', 'a', 1), ('w', 'b', 1), ('b', 'f', 1, 'a'), ('b', 'g', 0, 'b')], [('d', 'g', 'a'), ('d', 'y', 'a'), ('d', 'y', 'b')])
    return T


_T = []


def T():
    if not _T:
        _T.extend(more())
        _T.extend(templates())
        instrument()
    return _T


def evaluations(spec, jreads):
    y = spec.root
    leaves = sorted(spec.leaves)
    out = [('r', y)] + [('d', y, l) for l in leaves] + [('rd', y, leaves[0]), ('l', y, leaves[-1])]
    return out + [e for e in jreads if e[1] != y][:1]


def cases(tier):
    out = []
    for ti, (spec, evs, reads, jreads) in enumerate(T()):
        for ei in range(len(evaluations(spec, jreads))):
            for pre in range(4):
                out.append(['inject', ti, ei, pre, tier])
    for i in range(len(NATURAL)):
        for j in range(len(NATURAL[i][2])):
            out.append(['natural', i, j, 4 if tier == 'quick' else 5])
    out.append(['invalid'])
    return sorted(out, key=lambda c: (c[0], c[3:], c[1:])) + lib.lib_cases(ID, tier, lambda x: [[p, e] for p in ('none', 'changed') for e in ('r', 'd') + (('l',) if tier == 'thorough' else ())] if tier == 'thorough' or lib.once(x) else [])


def prepare(spec, evs, pre, ctx):
    w = World(spec, ctx)
    muts = [e for e in evs if e[0] in ('w', 'ww', 'i', 'b', 'p')]
    if pre == 1:
        read_all(w, True)
    elif pre == 2:
        read_all(w, True)
        w.do(muts[0])
    elif pre == 3:
        w.do(('r', spec.root))
        w.do(muts[-1])
    return w


def read_all(w, jac=False, order=-1):
    for n in w.m.order[::order]:
        w.check_val(n, w.o[n].r)
    if jac:
        for l in sorted(w.spec.leaves):
            w.check_jac(w.spec.root, l, w.o[w.spec.root].dr_wrt(w.o[l]))


POSTS = ['retry', 'values upwards', 'change', 'reverse', 'again']


def run(case, ctx):
    if case[0] == 'lib':
        return lib.failures(ctx, case[1], case[2], case[3], case[-1])
    if case[0] == 'natural':
        return natural(case, ctx)
    if case[0] == 'invalid':
        return invalid(ctx)
    _, ti, ei, pre, tier = case
    spec, evs, reads, jreads = T()[ti]
    ev = evaluations(spec, jreads)[ei]
    # how many points of failure has this evaluation?
    w = prepare(spec, evs, pre, ctx)
    Fault.on, Fault.n, Fault.target, Fault.exc = True, 0, None, Injected
    w.do(ev)
    Fault.on = False
    total = Fault.n
    exact = {}
    for k in range(1, total + 1):
        posts = POSTS if tier == 'thorough' else [POSTS[0], POSTS[1 + (k + ei + pre) % 4]]
        for post in posts:
            for exc in ([Injected, AttributeError, ValueError] if post == 'retry' and (tier == 'thorough' or pre == 0) else [Injected]):
                one(ctx, spec, evs, pre, ev, k, post, exc, total)


def one(ctx, spec, evs, pre, ev, k, post, exc, total):
    desc = '%s; before: %s; evaluation %s fails (%s) at point %d of %d; then %s' % (spec.name, ('nothing', 'everything read', 'everything read, then a change', 'value read, then a change')[pre], show(ev), exc.__name__, k, total, post)
    ctx.hist(desc)
    key = 'C16|%s|%s|%s' % (spec.name, show(ev), post)
    try:
        w = prepare(spec, evs, pre, ctx)
        for kk in ([k] if post != 'again' else [k, max(1, k - 1)]):
            Fault.on, Fault.n, Fault.target, Fault.exc = True, 0, kk, exc
            try:
                w.do(ev)
                Fault.on = False
                if Fault.n >= kk:
                    w.fail('error', 'the failure did not reach the caller')
            except exc as e:
                Fault.on = False
                if 'injected' not in str(e):
                    raise
            finally:
                Fault.on = False
        ctx.state(spec.name, pre, ev[0], k)
        muts = [e for e in evs if e[0] in ('w', 'ww', 'i', 'b', 'p')]
        if post in ('retry', 'again'):
            w.do(ev)
            read_all(w, True)
        elif post == 'values upwards':
            read_all(w, True, 1)
        elif post == 'change':
            w.do(muts[1])
            w.do(ev)
            read_all(w, True)
        else:
            l = sorted(spec.leaves)[0]
            w.do(('rd', spec.root, l))
            w.do(('l', spec.root, l))
            w.do(muts[0])
            read_all(w, True, 1)
    except Divergence as d:
        ctx.fail('%s|%s' % (key, str(d).split(':')[0]), '%s: %s' % (desc, d))
    except Stop:
        raise
    except Exception as x:
        import traceback, sys, os
        tb = traceback.extract_tb(sys.exc_info()[2])
        ctx.fail('%s|%s' % (key, type(x).__name__), '%s: unexpected %s: %s (%s)' % (desc, type(x).__name__, str(x)[:200], ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))))
    finally:
        Fault.on = False


# --- natural failures: histories over good and bad inputs
g = lambda n, k: vals((n, n), k) * .4 + 2 * np.eye(n)
NATURAL = [
    ('singular matrix', Spec('singular matrix', {'a': [g(2, 0), np.array([[1., 2.], [2., 4.]]), g(2, 1)], 'b': [vals((2,), 3), vals((2,), 4)]},
                             [('i', 'inv', 'a', {}), ('x', 'dot', 'ib', {}), ('e', 'exp', 'x', {}), ('y', 'mul', ['e', 'b'], {})]),
     [('w', 'a', 1), ('w', 'a', 2), ('w', 'b', 1), ('r', 'x'), ('r', 'y'), ('d', 'y', 'a'), ('d', 'y', 'b'), ('rd', 'y', 'a'), ('b', 'x', 0, 'a'), ('b', 'x', 0, 'i')]),
    ('shapes do not fit', Spec('shapes do not fit', {'a': [vals((2,)), vals((3,), 2)], 'b': [vals((2,), 1), vals((3,), 4)]},
                               [('s', 'square', 'a', {}), ('m', 'mul', 'sb', {}), ('q', 'sin', 'm', {}), ('y', 'add', 'qs', {})]),
     [('w', 'a', 1), ('w', 'b', 1), ('w', 'a', 0), ('r', 'm'), ('r', 'y'), ('d', 'y', 'a'), ('d', 'm', 'b'), ('rd', 'y', 'b'), ('b', 'm', 0, 'b')]),
    ('matrix product', Spec('matrix product', {'a': [vals((2, 3)), vals((3, 2), 2)], 'b': [vals((3,), 1), vals((2,), 4)]},
                            [('d', 'dot', 'ab', {}), ('t', 'T', 'a', {}), ('q', 'square', 'd', {}), ('y', 'sum', 'q', {})]),
     [('w', 'a', 1), ('w', 'b', 1), ('w', 'b', 0), ('r', 'd'), ('r', 'y'), ('d', 'y', 'a'), ('d', 'd', 'b'), ('b', 'd', 0, 't'), ('p', 'y', 'axis', 5), ('p', 'y', 'axis', None)]),
    ('stacking', Spec('stacking', {'a': [vals((2, 2)), vals((2, 3), 2)], 'b': [vals((2, 2), 1), vals((1, 2), 4)]},
                      [('c', 'cat', 'ab', {'axis': 0}), ('v', 'sel', 'c', {'idxs': np.array([0, 3])}), ('y', 'square', 'v', {})]),
     [('w', 'a', 1), ('w', 'b', 1), ('w', 'a', 0), ('p', 'c', 'axis', 1), ('p', 'v', 'idxs', np.array([11])), ('p', 'v', 'idxs', np.array([1, 2])), ('r', 'c'), ('r', 'y'), ('d', 'y', 'a'), ('d', 'c', 'b')]),
]


def possible(m, n):
    try:
        v = m.ev(n)
        return bool(np.all(np.isfinite(v)))
    except (ValueError, np.linalg.LinAlgError, IndexError):
        return False


def natural(case, ctx):
    _, i, j, depth = case
    name, spec, evs = NATURAL[i]
    T()

    def one_(h):
        desc = '%s, history [%s]' % (name, '; '.join(show(e) for e in h))
        ctx.hist(desc)
        w = World(spec, ctx)
        try:
            for e in h:
                if e[0] in ('r', 'd', 'rd') and not possible(w.m, e[1]):
                    try:
                        w.ctx.step()
                        if e[0] == 'r':
                            w.o[e[1]].r
                        else:
                            w.o[e[1]].dr_wrt(w.o[e[2]], reverse_mode=e[0] == 'rd')
                    except Exception:
                        continue
                    if e[0] != 'r':
                        continue    # a Jacobian may exist without the value
                    w.fail('error', '%s is impossible with the current inputs, but gave a result' % show(e))
                w.do(e)
            # afterwards: everything that can be read is right; what cannot be read still fails
            ok = [n for n in w.m.order[::-1] if possible(w.m, n)]
            bad = [n for n in w.m.order if n not in ok]
            for n in bad:
                try:
                    w.o[n].r
                except Exception:
                    continue
                w.fail('error', '%s is impossible with the current inputs, but has a value' % n)
            for n in ok:
                w.check_val(n, w.o[n].r)
            if spec.root in ok:
                for l in spec.leaves:
                    w.check_jac(spec.root, l, w.o[spec.root].dr_wrt(w.o[l]))
            # and once the cause is gone
            for l in spec.leaves:
                w.do(('w', l, 0))
            m0 = Model(spec)
            for n in m0.bind:
                for s, t in enumerate(m0.bind[n]):
                    if w.m.bind[n][s] != t:
                        w.do(('b', n, s, t))
                for p, v in m0.par[n].items():
                    if pk(w.m.par[n].get(p)) != pk(v):
                        w.do(('p', n, p, v))
                for p in list(w.m.par[n]):
                    if p not in m0.par[n]:
                        w.do(('p', n, p, None))
            read_all(w, True)
            ctx.state(name, w.m.key(), tuple(e[0] for e in h))
        except Divergence as d:
            ctx.fail('C16|%s|%s' % (name, str(d).split(':')[0]), '%s: %s' % (desc, d))
        except Stop:
            raise
        except Exception as x:
            ctx.fail('C16|%s|%s' % (name, type(x).__name__), '%s: unexpected %s: %s' % (desc, type(x).__name__, str(x)[:300]))

    def fails(h):
        m = Model(spec)
        n = 0
        for e in h:
            if e[0] == 'w':
                m.vals[e[1]] = spec.leaves[e[1]][e[2]]
            elif e[0] == 'b':
                m.bind[e[1]][e[2]] = e[3]
            elif e[0] == 'p':
                m.par[e[1]][e[2]] = e[3]
            elif not possible(m, e[1]):
                n += 1
        return n > 0

    def rec(h):
        if len(h) == depth and (h[-1][0] in ('r', 'd', 'rd') or not any(e[0] in ('r', 'd', 'rd') for e in h)):
            return
        if len(h) < depth or fails(h):      # of the longest histories only those with a failing read
            one_(h)
        if len(h) < depth:
            for e in evs:
                if not same_(h[-1], e):
                    rec(h + [e])
    rec([evs[j]])


def same_(a, b):
    return a[0] == b[0] and show(a) == show(b)


class Picky(ch.Ch):
    dterms = 'a',

    def is_valid(self):
        return (np.all(self.a.r > 0), 'must be positive')

    def compute_r(self):
        return np.log(self.a.r)

    def compute_dr_wrt(self, wrt):
        if wrt is self.a:
            return sp.diags([1. / self.a.r.ravel()], [0])


def invalid(ctx):
    """every history of good/bad assignments and reads of an operation with a validity check"""
    good = [np.array([1., 2.]), np.array([3., .5])]
    bad = np.array([1., -2.])
    for h in itertools.product(['g0', 'g1', 'bad', 'r', 'd', 'ry', 'dy'], repeat=4):
        desc = 'validity check, history %s' % (h,)
        ctx.hist(desc)
        a = ch.Ch(good[0].copy())
        u = a * 2.
        p = Picky(a=u)
        y = p * a
        cur, val = good[0], 0
        try:
            for e in h + ('g1', 'ry', 'dy', 'r', 'd'):
                ctx.step()
                if e in ('g0', 'g1', 'bad'):
                    cur = bad if e == 'bad' else good[int(e[1])]
                    a.x = cur.copy()
                    continue
                node = p if e in ('r', 'd') else y
                try:
                    got = node.r if e[0] == 'r' else dense(node.dr_wrt(a), 2, 2)
                except AssertionError:
                    if cur is bad:
                        continue
                    raise Divergence('%s fails although the state is valid' % e)
                if cur is bad:
                    raise Divergence('%s gives a result in an invalid state' % e)
                L = np.log(2 * cur)
                want = {'r': L, 'ry': L * cur, 'd': np.diag(1 / cur), 'dy': np.diag(L + 1)}[e]
                ctx.seen(e, got.tobytes())
                if not close(got, want, 1e-8, 1e-10):
                    raise Divergence('%s: got %s, reference %s' % (e, summ(got), summ(want)))
            ctx.state(h)
        except Divergence as d:
            ctx.fail('C16|validity|%s' % str(d)[:10], '%s: %s' % (desc, d))
        except Stop:
            raise
        except Exception as x:
            ctx.fail('C16|validity|%s' % type(x).__name__, '%s: unexpected %s: %s' % (desc, type(x).__name__, str(x)[:300]))
