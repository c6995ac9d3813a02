"""C18: dependency queries and traversals against reachability in the reference graph."""
from oracle import *
from props.c17 import S, data
from chumpy import utils
from chumpy.ch import ChGroup, ChLambda
import copy as _copy, gc
ID = 'C18'
RULE = ('every acyclic graph of up to N operations over unary, binary and ternary nodes on two inputs (structure only, nothing evaluated) and, for the smaller ones, every sequence of up to two re-bindings of any operand of any node '
        '(attribute, set of several, replace) with every pattern of {no query, queries, value reads, derivative reads} in between; after every step: the dependency query for every ordered pair of nodes, and traversal, function '
        'application and child loop from every node, compared with reachability computed from the model; every library operation on inputs and expressions; function-defined and grouped expressions; user-defined operations holding their operands in every way (attribute, property, derived property, class default, declared at run time); copies')
ASSUMPTIONS = ['graphs up to 5 (structure) / 3 (re-binding) operations', 'whether an expression counts as depending on itself is left open']
CHUNKS = 32

UN, BI = ('sin', 'floor'), ('add', 'mul')
MK = {'sin': (('x',), lambda a: ch.sin(a)), 'floor': (('x',), lambda a: ch.floor(a)), 'add': (('a', 'b'), lambda a, b: a + b), 'mul': (('a', 'b'), lambda a, b: ch.multiply(a, b)),
      'cat3': (('m0', 'm1', 'm2'), lambda a, b, c: ch.concatenate((a, b, c))), 'div': (('x1', 'x2'), lambda a, b: a / b), 'max': (('a',), lambda a: ch.max(a)),
      'dot': (('a', 'b'), lambda a, b: ch.dot(a, b)), 'lam': (('p', 'q'), None), 'roll': (('a',), lambda a: ch.roll(a, 1))}
FAM = {'ub': ('sin', 'add'), 'mix': ('floor', 'mul', 'cat3'), 'lam': ('lam', 'sin'), 'four': ('max', 'div'), 'view': ('roll', 'dot')}
LEAVES = ('a', 'b')


def mk(op, args):
    if op == 'lam':
        n = ch.Ch(lambda p, q: ch.sin(p) + q * p)
        n.p, n.q = args
        return n
    return MK[op][1](*args)


def choices(fam, avail):
    out = []
    for op in FAM[fam]:
        for args in itertools.product(avail, repeat=len(MK[op][0])):
            out.append((op, args))
    return out


def complete(nodes):
    used = set(a for n in nodes for a in n[2])
    return all(n[0] in used for n in nodes[:-1])


def enum(fam, n, pre):
    if len(pre) == n:
        if complete(pre) and not any(x[1] == 'cat3' and set(x[2]) & set(y[0] for y in pre if y[1] == 'cat3') for x in pre):
            yield pre
        return
    avail = list(LEAVES) + [x[0] for x in pre]
    cats = [x[0] for x in pre if x[1] == 'cat3']      # stacking stacked arrays is simplified when it is written
    for op, args in choices(fam, avail):
        if op == 'cat3' and any(x in cats for x in args):
            continue
        for g in enum(fam, n, pre + [('n%d' % len(pre), op, args)]):
            yield g


def cases(tier):
    out = []
    T = tier == 'thorough'
    for fam, n in (('ub', 3), ('ub', 4), ('mix', 2), ('lam', 2), ('four', 3), ('view', 3)) + ((('ub', 5), ('mix', 3), ('lam', 3)) if T else ()):
        k = 2 if n >= 3 else 1
        pre = [[]]
        for d in range(k):
            pre = [p + [('n%d' % d, op, args)] for p in pre for op, args in choices(fam, list(LEAVES) + [x[0] for x in p])]
        for i, p in enumerate(pre):
            out.append(['struct', fam, n, p])
    for fam, n, m in (('ub', 2, 2), ('ub', 3, 1), ('four', 2, 2), ('lam', 2, 1), ('mix', 2, 1), ('view', 2, 1)) + ((('ub', 3, 2), ('lam', 2, 2), ('mix', 2, 2)) if T else ()):
        for g in enum(fam, n, []):
            out.append(['rebind', fam, n, g, m])
    for i in range(len(S)):
        out.append(['op', i])
    out += [['lambda', i] for i in range(len(LAM))]
    out += [['user', i] for i in range(len(UOPS))]
    out += [['shape', s] for s in ('chain', 'ladder', 'fan', 'comb', 'grid')]
    out += [['copy', i] for i in range(len(S))]
    # balanced over the chunks: interleave
    return sorted(out, key=lambda c: (c[0] != 'rebind', hash_(c)))


def hash_(c):
    import zlib, json
    return zlib.crc32(json.dumps(c).encode())


def run(case, ctx):
    k = case[0]
    if k == 'struct':
        pre = [(a, b, tuple(c)) for a, b, c in case[3]]
        for g in enum(case[1], case[2], pre):
            W = World(g)
            ctx.hist([list(map(str, x)) for x in g]); ctx.step(); ctx.state(str(g))
            W.check(ctx, 'graph %s' % show(g))
    elif k == 'rebind':
        rebind(case, ctx)
    elif k == 'op':
        library(case[1], ctx)
    elif k == 'lambda':
        lam(case[1], ctx)
    elif k == 'shape':
        shapes(case[1], ctx)
    elif k == 'copy':
        copies(case[1], ctx)
    elif k == 'user':
        userop(case[1], ctx)


def show(g):
    return '; '.join('%s=%s(%s)' % (n, op, ','.join(a)) for n, op, a in g)


class World(object):
    def __init__(self, g):
        self.o = {'a': ch.Ch(vals((2,), 1)), 'b': ch.Ch(vals((2,), 1))}      # equal values: identity decides
        self.bind = {}
        self.op = {}
        for n, op, args in g:
            self.o[n] = mk(op, [self.o[x] for x in args])
            self.bind[n] = list(args)
            self.op[n] = op
        self.order = [n for n, _, _ in g]
        self.o['z'] = ch.Ch(vals((2,), 1))       # belongs to nothing
        self.o['y'] = ch.sin(self.o['a'])
        self.name = None

    def below(self, n, acc=None):
        acc = set() if acc is None else acc
        for c in self.bind.get(n, ()):
            if c not in acc:
                acc.add(c)
                self.below(c, acc)
        return acc

    def names(self):
        return dict((id(v), k) for k, v in self.o.items())

    def check(self, ctx, tag, roots=None):
        nm = self.names()
        for n in self.order + ['a']:
            node = self.o[n]
            below = self.below(n)
            for t in self.o:
                if t == n and n in self.bind:
                    continue
                want = t in below or (t == n)
                got = node.is_dr_wrt(self.o[t])
                ctx.seen(n, t, bool(got))
                if bool(got) != want:
                    ctx.fail('C18|is_dr_wrt|%s' % self.op.get(n), '%s: %s %s on %s, but is_dr_wrt says %s' % (tag, n, 'depends' if want else 'does not depend', t, got))
            lam = any(self.op.get(x) == 'lam' for x in below | {n})
            seen = list(node.tree_iterator())
            ids = [id(x) for x in seen]
            known = [nm[i] for i in ids if i in nm]
            if len(set(ids)) != len(ids):
                ctx.fail('C18|tree|twice', '%s: traversal from %s yields something twice: %s' % (tag, n, [nm.get(i, '?') for i in ids]))
            if set(known) != below | {n}:
                ctx.fail('C18|tree|set', '%s: traversal from %s yields %s, the graph below is %s' % (tag, n, sorted(known), sorted(below | {n})))
            if not lam and len(ids) != len(known):
                ctx.fail('C18|tree|foreign', '%s: traversal from %s yields %d objects that are not in the graph' % (tag, n, len(ids) - len(known)))
            if seen[:1] != [node]:
                ctx.fail('C18|tree|first', '%s: traversal from %s does not start there' % (tag, n))
            acc = []
            utils.dfs_do_func_on_graph(node, lambda x, y, k=0: acc.append((id(x), y, k)), 7, k=3)
            if [x[0] for x in acc] != ids or any(x[1:] != (7, 3) for x in acc):
                ctx.fail('C18|dfs', '%s: function application from %s reached %s, traversal %s' % (tag, n, [nm.get(x[0]) for x in acc], known))
            acc2 = []
            node.loop_children_do(lambda x: acc2.append(id(x)))
            if set(acc2) != set(ids):
                ctx.fail('C18|children', '%s: the child loop from %s reached %s, the graph below is %s' % (tag, n, sorted(set(nm.get(x, '?') for x in acc2)), sorted(below | {n})))

    # -- changes
    def targets(self, n):
        i = self.order.index(n)
        out = list(LEAVES) + ['z']
        for m in self.order:
            if m != n and n not in self.below(m):
                out.append(m)
        return out

    def events(self):
        ev = []
        for n in self.order:
            slots = MK[self.op[n]][0]
            for i in range(len(slots)):
                for t in self.targets(n):
                    if t != self.bind[n][i]:
                        ev.append(('attr', n, i, t))
            if len(slots) > 1:
                ts = self.targets(n)
                ev.append(('set', n, ts[-1], ts[0]))
                if self.op[n] not in ('cat3', 'lam'):
                    ev.append(('swap', n))
        root = self.order[-1]
        ev.append(('rep', root, 'a', 'z'))
        ev.append(('rep', root, 'a', 'b'))
        return ev

    def apply(self, e):
        if e[0] == 'attr':
            _, n, i, t = e
            setattr(self.o[n], MK[self.op[n]][0][i], self.o[t])
            self.bind[n][i] = t
        elif e[0] == 'set':
            _, n, t, u = e
            sl = MK[self.op[n]][0][:2]
            self.o[n].set(**{sl[0]: self.o[t], sl[1]: self.o[u]})
            self.bind[n][:2] = [t, u]
        elif e[0] == 'swap':
            n = e[1]
            sl = MK[self.op[n]][0]
            x, y = getattr(self.o[n], sl[0]), getattr(self.o[n], sl[1])
            setattr(self.o[n], sl[0], y); setattr(self.o[n], sl[1], x)
            self.bind[n] = self.bind[n][::-1]
        elif e[0] == 'rep':
            _, n, old, new = e
            self.o[n].replace(self.o[old], self.o[new])
            for m in self.below(n) | {n}:
                if m in self.bind:
                    self.bind[m] = [new if x == old else x for x in self.bind[m]]

    def read(self, p, ctx):
        if p == 'q':
            self.check(ctx, 'before')
        elif p in ('r', 'd'):
            for n in self.order[::-1]:
                try:
                    if p == 'r':
                        self.o[n].r
                    else:
                        self.o[n].dr_wrt(self.o['a'])
                except (ValueError, NotImplementedError):     # shapes do not fit in this graph: nothing to read
                    return


def rebind(case, ctx):
    g = [(a, b, tuple(c)) for a, b, c in case[3]]
    depth = case[4]
    noread = case[1] == 'mix'
    evs = World(g).events()
    for n in range(1, depth + 1):
        for first in range(len(evs)):
            for p in ('none', 'q') if noread or n == 2 else ('none', 'q', 'r', 'd'):
                if n == 1:
                    W = World(g)
                    W.read(p, ctx)
                    W.apply(evs[first])
                    ctx.hist([show(g), p, list(map(str, evs[first]))]); ctx.step(); ctx.state(show(g), p, first)
                    W.check(ctx, 'graph %s, %s, then %s' % (show(g), p, evs[first]))
                else:
                    W0 = World(g)
                    W0.apply(evs[first])
                    ev2 = W0.events()
                    for second in range(len(ev2)):
                        W = World(g)
                        W.apply(evs[first])
                        W.read(p, ctx)
                        W.apply(ev2[second])
                        ctx.hist(); ctx.step(2); ctx.state(show(g), p, first, second)
                        W.check(ctx, 'graph %s, %s, %s, then %s' % (show(g), evs[first], p, ev2[second]))


# ---------------------------------------------------------------- every operation of the library
def walk(node, acc=None):
    """reachability through differentiable terms, independent of the library's own traversal"""
    acc = {} if acc is None else acc
    if id(node) in acc:
        return acc
    acc[id(node)] = node
    for t in list(node.dterms):
        c = node.__dict__.get(t)
        if c is not None and hasattr(c, 'dterms'):
            walk(c, acc)
    return acc


def consistent(ctx, key, tag, node, leaves, unrelated):
    ref = walk(node)
    seen = list(node.tree_iterator())
    ids = [id(x) for x in seen]
    ctx.seen(key, len(ids))
    if len(set(ids)) != len(ids) or set(ids) != set(ref):
        ctx.fail('C18|%s|tree' % key, '%s: traversal yields %s, the graph below is %s' % (tag, [type(x).__name__ for x in seen], [type(x).__name__ for x in ref.values()]))
    for l in leaves:
        if not node.is_dr_wrt(l):
            ctx.fail('C18|%s|is_dr_wrt' % key, '%s: does not report the dependence on an operand' % tag)
        if id(l) not in ids:
            ctx.fail('C18|%s|tree' % key, '%s: traversal does not reach an operand' % tag)
    for x in list(ref.values()):
        if x is not node and not node.is_dr_wrt(x):
            ctx.fail('C18|%s|is_dr_wrt' % key, '%s: does not report the dependence on its sub-expression %s' % (tag, type(x).__name__))
    for u in unrelated:
        if node.is_dr_wrt(u):
            ctx.fail('C18|%s|is_dr_wrt' % key, '%s: reports a dependence on something else' % tag)
        if id(u) in ids:
            ctx.fail('C18|%s|tree' % key, '%s: traversal yields something else' % tag)
    acc = []
    utils.dfs_do_func_on_graph(node, lambda x: acc.append(id(x)))
    acc2 = set()
    node.loop_children_do(lambda x: acc2.add(id(x)))
    if acc != ids or acc2 != set(ids):
        ctx.fail('C18|%s|dfs' % key, '%s: function application reaches %d, %d of %d' % (tag, len(acc), len(acc2), len(ids)))


def library(i, ctx):
    x = S[i]
    for pat in ('none', 'r', 'd', 'rd'):
        for mode in ('inputs', 'expressions', 'shared'):
            ctx.hist([x['name'], mode, pat]); ctx.step(); ctx.state('op', i, mode, pat)
            leaves = [ch.Ch(a) for a in data(x, 0)]
            base = ch.Ch(np.ones(1))
            ops = leaves if mode == 'inputs' else [l * base for l in leaves] if mode == 'expressions' else [l * base + l for l in leaves]
            node = x['f'](*ops)
            un = [ch.Ch(np.array(l.r)) for l in leaves] + [ch.sin(leaves[0]), ch.sin(node)]
            tag = '%s of %s' % (x['name'], mode)
            if pat == 'r':
                node.r
            elif pat == 'd':
                node.dr_wrt(leaves[0])
            elif pat == 'rd':
                node.r
                for l in leaves:
                    node.lop(l, np.ones((1, node.r.size)))
            consistent(ctx, x['name'], tag + ', ' + pat, node, list(ops) + leaves + ([base] if mode != 'inputs' else []), un)
            for l in leaves:
                l.x = np.array(l.r) * 1.01
            consistent(ctx, x['name'], tag + ' changed, ' + pat, node, list(ops) + leaves, un)
            node.r
            consistent(ctx, x['name'], tag + ' read again, ' + pat, node, list(ops) + leaves, un)


def copies(i, ctx):
    x = S[i]
    for m in ('chcopy', 'deep'):
        leaves = [ch.Ch(a) for a in data(x, 0)]
        node = x['f'](*[ch.sin(l) for l in leaves])
        if m == 'chcopy' and 'lambda' in x['name']:
            continue
        ctx.hist([x['name'], m]); ctx.step(); ctx.state('copy', i, m)
        try:
            c = ch.copy(node) if m == 'chcopy' else _copy.deepcopy(node)
        except Exception as ex:
            if 'lambda' in str(ex) or 'pickle' in str(ex):
                continue
            raise
        ref = walk(c)
        orig = list(walk(node).values())
        consistent(ctx, x['name'] + '|' + m, 'copy of %s' % x['name'], c, [], orig)
        consistent(ctx, x['name'] + '|' + m, '%s after copying' % x['name'], node, leaves, list(ref.values()))


# ---------------------------------------------------------------- functions and groups
LAM = ['rebind', 'unused', 'nested', 'group', 'groupfn', 'initial', 'multi']


def lam(k, ctx):
    kind = LAM[k]
    for pats in itertools.product(('none', 'r', 'd'), repeat=2):
        ctx.hist([kind, list(pats)]); ctx.step(); ctx.state('lam', kind, pats)
        a, b, c, z = (ch.Ch(vals((2,), i)) for i in range(4))
        e = ch.sin(a)
        tag = 'function-defined (%s, reads %s)' % (kind, pats)

        def rd(f, p):
            if p == 'r': f.r
            elif p == 'd': f.r; f.dr_wrt(a)

        def expect(f, yes, no, when):
            ids = [id(n) for n in f.tree_iterator()]
            if len(set(ids)) != len(ids):
                ctx.fail('C18|lambda|twice', '%s, %s: traversal yields something twice' % (tag, when))
            acc = []
            utils.dfs_do_func_on_graph(f, lambda n: acc.append(id(n)))
            acc2 = set()
            f.loop_children_do(lambda n: acc2.add(id(n)))
            for lst, want in ((yes, True), (no, False)):
                for n in lst:
                    got = [bool(f.is_dr_wrt(n)), id(n) in ids, id(n) in acc, id(n) in acc2]
                    ctx.seen(kind, when, got[0])
                    if got != [want] * 4:
                        ctx.fail('C18|lambda|%s' % kind, '%s, %s: an operand that is %sbound: dependency query, traversal, function application, child loop say %s' % (tag, when, '' if want else 'not ', got))
        if kind == 'rebind':
            f = ch.Ch(lambda x, y: ch.sin(x) * y)
            f.x = a; f.y = b
            expect(f, [a, b], [c, z, e], 'bound')
            rd(f, pats[0]); f.x = c
            expect(f, [c, b], [a, z, e], 're-bound')
            rd(f, pats[1]); f.set(x=e, y=c)
            expect(f, [e, a, c], [b, z], 're-bound together')
            f.y = f.x
            expect(f, [e, a], [b, c, z], 'both to one')
        elif kind == 'unused':
            f = ch.Ch(lambda x, y: ch.sin(x) * 2.)
            f.x = a; f.y = b
            expect(f, [a], [b, c, z], 'bound')
            rd(f, pats[0]); f.y = c; f.x = b
            expect(f, [b], [a, c, z], 're-bound')
        elif kind == 'nested':
            g = ch.Ch(lambda x: x * x); g.x = a
            f = ch.Ch(lambda x, y: x + y); f.x = g; f.y = b
            expect(f, [g, a, b], [c, z], 'bound')
            rd(f, pats[0]); g.x = e
            expect(f, [g, e, a, b], [c, z], 'inner re-bound')
            rd(f, pats[1]); f.x = c
            expect(f, [c, b], [g, a, e, z], 'outer re-bound')
            expect(g, [e, a], [b, c, f], 'inner')
        elif kind == 'group':
            f = ChGroup(ch.multiply(a=b, b=c), {'a': a})
            expect(f, [a], [b, z], 'built')
            rd(f, pats[0]); f.a = e
            expect(f, [e, a], [b, z], 're-bound')
            rd(f, pats[1]); f.a = z
            expect(f, [z], [e, a, b], 're-bound again')
        elif kind == 'groupfn':
            h = ch.Ch(lambda x, y: x * y)
            f = ChGroup(h, {'x': a, 'y': b})
            expect(f, [a, b], [c, z, e], 'built')
            rd(f, pats[0]); f.x = c
            expect(f, [c, b], [a, z, e], 're-bound')
            rd(f, pats[1]); f.set(x=b, y=e)
            expect(f, [e, a, b], [c, z], 're-bound together')
        elif kind == 'initial':
            f = ChLambda(lambda x, y: x * y, initial_args={'x': a})
            f.y = b
            expect(f, [a, b], [c, z], 'built')
            rd(f, pats[0]); f.x = b
            expect(f, [b], [a, c, z], 're-bound')
        else:
            fs = [ch.Ch(lambda x, y: x * y) for _ in range(3)]
            for q, f in enumerate(fs):
                f.x, f.y = (a, b, c)[q], (b, c, e)[q]
            rd(fs[0], pats[0]); rd(fs[1], pats[1])
            expect(fs[0], [a, b], [c, e, z], 'several')
            expect(fs[1], [b, c], [a, e, z], 'several')
            expect(fs[2], [c, e, a], [b, z], 'several')
            fs[1].x = fs[0]
            expect(fs[1], [a, b, c, fs[0]], [e, z, fs[2]], 'several, linked')
            expect(fs[0], [a, b], [c, e, z, fs[1]], 'several, linked')


# ---------------------------------------------------------------- larger regular graphs
def shapes(kind, ctx):
    for n in range(1, 12):
        g = []
        nm = lambda i: 'n%d' % i if i >= 0 else 'a'
        if kind == 'chain':
            g = [('n%d' % i, 'sin', (nm(i - 1),)) for i in range(4 * n)]
        elif kind == 'ladder':
            g = [('n%d' % i, 'add', (nm(i - 1), nm(i - 1))) for i in range(min(n, 8))]
        elif kind == 'fan':
            g = [('n%d' % i, 'sin', ('a',)) for i in range(n)]
            for i in range(1, n):
                g.append(('n%d' % len(g), 'add', ('n%d' % i, 'n0' if i == 1 else 'n%d' % (len(g) - 1))))
        elif kind == 'comb':
            g = [('n%d' % i, 'mul', (nm(i - 1), 'b')) for i in range(n)]
        else:
            g = [('n%d' % i, 'add', (nm(i - 1), nm(i - 2))) for i in range(min(n, 9))]
        W = World(g)
        ctx.hist([kind, n]); ctx.step(); ctx.state(kind, n)
        W.check(ctx, '%s of %d' % (kind, n))
        if kind != 'ladder':
            W.o['n0'].set(**{MK[W.op['n0']][0][0]: W.o['b']})
            W.bind['n0'][0] = 'b'
            W.check(ctx, '%s of %d re-bound at the bottom' % (kind, n))


# ---------------------------------------------------------------- user-defined operations: ways to hold an operand
class Plain(ch.Ch):
    dterms = 'p', 'q'
    terms = 'k',
    k = 1.
    def compute_r(self):
        return self.p.r + self.q.r
    def compute_dr_wrt(self, wrt):
        if wrt is self.p or wrt is self.q:
            return sp.eye(2, 2) * ((wrt is self.p) + (wrt is self.q))


class Prop(Plain):
    """the second operand is a property over a private attribute"""
    @property
    def q(self):
        return self._q
    @q.setter
    def q(self, v):
        object.__setattr__(self, '_q', v)


class Derived(Plain):
    """the second operand is computed from a plain attribute"""
    terms = 'k', 'holder'
    @property
    def q(self):
        return self.holder['q']
    @q.setter
    def q(self, v):
        self.holder = {'q': v}


class Default(Plain):
    """the second operand may be left to the class"""
    q = ch.Ch(np.zeros(2))


class Added(Plain):
    """the second operand is declared at run time"""
    dterms = 'p',
    def __setattr__(self, n, v, itr=None):
        if n == 'q' and 'q' not in self.dterms:
            self.add_dterm('q', v)
        else:
            super(Added, self).__setattr__(n, v, itr)


class Child(Plain):
    """a subclass repeating the declaration in another form"""
    dterms = ['p', 'q']
    terms = ['k']


UOPS = [Plain, Prop, Derived, Default, Added, Child]


def userop(k, ctx):
    C = UOPS[k]
    for pq in itertools.product(range(4), repeat=2):
        for pat in ('none', 'r', 'd', 'q'):
            for below in (False, True):
                ctx.hist([C.__name__, pq, pat, below]); ctx.step(); ctx.state('user', k, pq, pat, below)
                a, b, z = ch.Ch([1., 2.]), ch.Ch([1., 2.]), ch.Ch([1., 2.])
                e = ch.sin(a)
                f = e * b
                pool = [a, b, e, f]
                under = {0: {0}, 1: {1}, 2: {0, 2}, 3: {0, 1, 2, 3}}
                n = C(p=pool[pq[0]], q=pool[pq[1]])
                top = ch.sin(n * 2.) if below else n
                tag = 'user operation %s, operands %s%s, reads %s' % (C.__name__, pq, ', below others' if below else '', pat)

                def check(p, q, when):
                    yes = under[p] | under[q]
                    ids = [id(x) for x in top.tree_iterator()]
                    acc = []
                    utils.dfs_do_func_on_graph(top, lambda x: acc.append(id(x)))
                    acc2 = set()
                    top.loop_children_do(lambda x: acc2.add(id(x)))
                    if len(ids) != len(set(ids)):
                        ctx.fail('C18|user|twice', '%s, %s: traversal yields something twice' % (tag, when))
                    for i, x in enumerate(pool + [z]):
                        got = [bool(top.is_dr_wrt(x)), id(x) in ids, id(x) in acc, id(x) in acc2]
                        ctx.seen(k, when, i, got[0])
                        if got != [i in yes] * 4:
                            ctx.fail('C18|user|%s' % C.__name__, '%s, %s: object %d is %sbelow; dependency query, traversal, function application, child loop say %s' % (tag, when, i, '' if i in yes else 'not ', got))
                if pat == 'q':
                    check(pq[0], pq[1], 'built')
                elif pat == 'r':
                    top.r
                elif pat == 'd':
                    top.dr_wrt(a); top.dr_wrt(b)
                check(pq[0], pq[1], 'after reads')
                for slot in ('p', 'q'):
                    for t in range(4):
                        setattr(n, slot, pool[t])
                        cur = [pq[0], pq[1]]
                        cur['pq'.index(slot)] = t
                        if slot == 'q':
                            cur[0] = 3
                        check(cur[0], cur[1], 're-bound %s to %d' % (slot, t))
