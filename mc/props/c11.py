"""C11: rewriting of expression graphs (replace, remove_redundancy)."""
from graphs import *
from userops import Scaled
import lib
ID = 'C11'
RULE = ('remove_redundancy: all unordered (thorough: ordered) pairs of expression trees of depth two built without sharing, all graphs with sharing of up to 4 operations, and every pair of one operation with two different or equal parameters on one input; '
        'replace: all graphs of up to 3 operations x every replaced leaf or intermediate x every replacement (other leaf of equal or new shape, leaf already in use, expression of the old input, expression of both) x what was read before; '
        'combined histories of replace, remove_redundancy, reads and input changes up to the depth; after every step every value and Jacobian is compared with the NumPy model of the rewritten graph; and every operation of the library with each input replaced, and twice in one expression with the redundancy removed')
ASSUMPTIONS = ['graphs of up to 4 operations (7 for trees), 2-3 inputs', 'a replacement does not contain other parts of the graph that use the replaced input (that would make the graph cyclic)']
CHUNKS = 32

L2 = {'a': [vals((2,)), vals((2,), 4), vals((2,), 8)], 'b': [vals((2,)), vals((2,), 7), vals((2,), 4)]}      # equal at first
L3 = dict(L2, c=[vals((2,), 2), vals((2,), 5)], d=[vals((1,), 3), vals((1,), 6)])
FAM['rr4'] = ([('sin', {}), ('mul', {})], L2, 4, 2)
FAM['rr3'] = ([('sin', {}), ('mul', {}), ('cat', {})], L2, 3, 2)
FAM['rr5'] = ([('sin', {}), ('add', {})], L2, 5, 3)
FAM['rep3'] = ([('exp', {}), ('mul', {})], L2, 3, 2)
FAM['rep3b'] = ([('sin', {}), ('sub', {}), ('sum', {}), ('dot', {})], L2, 3, 2)


def trees(depth):
    if depth == 0:
        return ['a', 'b']
    t = trees(depth - 1)
    return ['a', 'b'] + [('sin', x) for x in t] + [('mul', x, y) for x in t for y in t]


def tree_spec(x, y, op):
    nodes = []
    def add(t):
        if isinstance(t, str):
            return t
        args = tuple(add(s) for s in t[1:])
        n = 'n%d' % len(nodes)
        nodes.append((n, t[0], args, {}))
        return n
    add((op, x, y))
    return Spec('trees', L2, nodes)


OPS['mvm2'] = Op(('vec',), OPS['mvm'].build, lambda v, mtx=None: mtx.dot(v.ravel()).reshape((-1, 2)))
# one operation, two parameter settings
MA = {'a': [vals((2, 2)), vals((2, 2), 4), vals((2, 2), 8)], 'b': [vals((2, 2)), vals((2, 2), 4), vals((2, 2), 6)]}
S = lambda *i: np.array(i)
PARAMS = [
    ('sum', [{'axis': 0}, {'axis': 1}, {'axis': -1}]), ('mean', [{'axis': 0}, {'axis': 1}]), ('max', [{'axis': 0}, {'axis': 1}]),
    ('sel', [{'idxs': S(0, 1, 2)}, {'idxs': S(3, 1, 2)}, {'idxs': S(0, 1, 2)}]), ('sel', [{'idxs': S(0, 1), 'preferred_shape': (2,)}, {'idxs': S(0, 1), 'preferred_shape': (2, 1)}]),
    ('roll', [{'shift': 1}, {'shift': 2}, {'shift': 1, 'axis': 0}, {'shift': 1, 'axis': 1}]),
    ('repeat', [{'repeats': 2, 'axis': 0}, {'repeats': 2, 'axis': 1}, {'repeats': 3, 'axis': 0}, {'repeats': 2, 'axis': None}]),
    ('tile', [{'reps': 2}, {'reps': 3}, {'reps': (2, 1)}]), ('reshape', [{'newshape': (4,)}, {'newshape': (1, 4)}, {'newshape': (4, 1)}]),
    ('transpose', [{'axes': None}, {'axes': (0, 1)}, {'axes': (1, 0)}]), ('clip', [{'a_min': -1., 'a_max': 1.}, {'a_min': -2., 'a_max': 1.}, {'a_min': -1., 'a_max': .5}]),
    ('mvm2', [{'mtx': vals((2, 4), 1)}, {'mtx': vals((2, 4), 2)}, {'mtx': vals((2, 4), 1)}]),
]


SPECIAL = {
    'concatenate axis': lambda a, b: (ch.concatenate((a, b), axis=0), ch.concatenate((a, b), axis=1), lambda u, v: (np.concatenate((u, v), 0), np.concatenate((u, v), 1))),
    'concatenate order': lambda a, b: (ch.concatenate((a, b)), ch.concatenate((b, a)), lambda u, v: (np.concatenate((u, v)), np.concatenate((v, u)))),
    'added constants': lambda a, b: (a + 1., a + 2., lambda u, v: (u + 1, u + 2)),
    'equal constants': lambda a, b: (a + 1., a + 1., lambda u, v: (u + 1, u + 1)),
    'powers': lambda a, b: (ch.exp(a) ** 2, ch.exp(a) ** 3, lambda u, v: (np.exp(u) ** 2, np.exp(u) ** 3)),
    'functions': lambda a, b: (ch.Ch(lambda p: ch.sin(p)), ch.Ch(lambda p: ch.exp(p)), None),
    'user op': lambda a, b: (Scaled(k=1., a=a, b=b), Scaled(k=3., a=a, b=b), lambda u, v: (2 * (u + v) ** 2, 6 * (u + v) ** 2)),
    'user op equal': lambda a, b: (Scaled(k=2, a=a, b=b), Scaled(k=2, a=a, b=b), lambda u, v: (4 * (u + v) ** 2, 4 * (u + v) ** 2)),
    'user op swapped': lambda a, b: (Scaled(k=2, a=a, b=b * a), Scaled(k=2, a=b * a, b=a), lambda u, v: (4 * (u + v * u) ** 2,) * 2),
    'reduction inside': lambda a, b: (ch.sum(a * b, axis=0), ch.sum(a * b, axis=1), lambda u, v: (np.sum(u * v, 0), np.sum(u * v, 1))),
    'comparison': lambda a, b: (ch.maximum(a, b * 2), ch.maximum(b * 2, a), lambda u, v: (np.where(u.real > 2 * v.real, u, 2 * v),) * 2),
    'tensordot axes': lambda a, b: (ch.tensordot(a, b, axes=1), ch.tensordot(a, b, axes=((0,), (0,))), lambda u, v: (np.tensordot(u, v, 1), np.tensordot(u, v, ((0,), (0,))))),
    'inputs of one array': None,
}


def cases(tier):
    out = []
    ts = trees(2)
    for i in range(len(ts)):
        out.append(['trees', i, tier])
    for f in ['rr3', 'rr4'] + (['rr5'] if tier == 'thorough' else []):
        out += [['rr'] + c + [tier] for c in family_cases([f])]
    for i in range(len(PARAMS)):
        out.append(['params', i, tier])
    for s in sorted(SPECIAL):
        out.append(['special', s, tier])
    for f in ['rep3'] + (['rep3b'] if tier == 'thorough' else []):
        out += [['rep'] + c + [tier] for c in family_cases([f])]
    for i in range(len(HIST)):
        for j in range(len(HIST[i][1])):
            out.append(['hist', i, j, 4 if tier == 'thorough' else 3])
    return sorted(out, key=lambda c: (str(c[2]), c[0])) + lib.lib_cases(ID, tier)


class RW(World):
    def __init__(self, spec, ctx, shared=False):
        World.__init__(self, spec, ctx)
        self.merged = False
        if shared:      # inputs that were made from one and the same array
            self.o['b'].x = self.o['a'].x

    def e_rr(self, node):
        self.o[node].remove_redundancy()
        self.merged = True

    def e_rep(self, node, old, new):
        self.rewrite(node, old, new)
        self.o[node].replace(self.o[old], self.o[new])
        if self.merged:
            self.only_root = True
    only_root = False

    def rewrite(self, n, old, new):
        b = self.m.bind.get(n, [])
        for i, t in enumerate(b):
            if t == old:
                b[i] = new
            elif t != new:
                self.rewrite(t, old, new)

    def check_all(self, jac=True):
        ns = [self.spec.root] if self.only_root else list(reversed(self.m.order))
        for n in ns:
            self.check_val(n, self.o[n].r)
        if jac:
            for l in self.m.vals:
                self.check_jac(self.spec.root, l, self.o[self.spec.root].dr_wrt(self.o[l]))


def one(ctx, spec, evs, shared=False, key=''):
    ctx.hist([gname(spec)] + [e if isinstance(e, str) else show(e) for e in evs])
    w = RW(spec, ctx, shared)
    try:
        for e in evs:
            if e == 'check':
                w.check_all()
            elif e == 'values':
                w.check_all(False)
            else:
                w.do(e)
        ctx.state(gname(spec), w.m.key())
    except Divergence as d:
        ctx.fail('C11|%s|%s' % (key or gname(spec), str(d).split(':')[0]), '%s%s, history %s: %s' % (gname(spec), ' (inputs made from one array)' if shared else '', [e if isinstance(e, str) else show(e) for e in evs], d))
    except Exception as e:
        ctx.fail('C11|%s|%s' % (key or gname(spec), type(e).__name__), '%s, history %s: unexpected %s: %s' % (gname(spec), [e_ if isinstance(e_, str) else show(e_) for e_ in evs], type(e).__name__, str(e)[:200]))


def rr(ctx, spec, heavy):
    r = spec.root
    one(ctx, spec, [('rr', r), 'check', ('w', 'b', 1), 'check'], shared=True)
    one(ctx, spec, ['values', ('d', r, 'a'), ('rr', r), ('w', 'a', 1), 'check'], shared=False)
    if heavy:
        one(ctx, spec, [('rr', r), ('rr', r), ('w', 'a', 2), 'values', ('i', 'b', 0, 1.5), 'check'])
        one(ctx, spec, ['check', ('w', 'a', 1), ('rr', r), 'check', ('w', 'b', 2), ('i', 'a', 1, .25), 'check'], shared=True)


def run(case, ctx):
    if case[0] == 'lib':
        return lib.rewrites(ctx, case[1], case[-1])
    kind = case[0]
    tier = case[-1]
    if kind == 'trees':
        ts = trees(2)
        x = ts[case[1]]
        for j, y in enumerate(ts):
            if isinstance(x, str) and isinstance(y, str) or tier == 'quick' and j < case[1]:
                continue
            for op in (['mul'] if tier == 'quick' and (case[1] + j) % 2 else ['cat']) if tier == 'quick' else ['mul', 'cat']:
                rr(ctx, tree_spec(x, y, op), tier == 'thorough')
    elif kind == 'rr':
        for spec in family_graphs(case[1:]):
            rr(ctx, spec, tier == 'thorough' or case[1] == 'rr3')
    elif kind == 'params':
        op, ps = PARAMS[case[1]]
        for p, q in itertools.product(ps, ps):
            for pre in ([], [('n9', 'sin', ('a',), {}), ('n8', 'sin', ('a',), {})]):
                s1, s2 = ('n9', 'n8') if pre else ('a', 'a')
                nodes = list(pre) + [('u', op, (s1,), p), ('v', op, (s2,), q), ('uf', 'reshape', ('u',), {'newshape': (-1,)}), ('vf', 'reshape', ('v',), {'newshape': (-1,)}), ('y', 'cat', ('uf', 'vf'), {})]
                spec = Spec('params', MA, nodes)
                rr(ctx, spec, True)
                one(ctx, spec, [('rr', 'y'), 'check', ('rep', 'y', 'a', 'b'), 'check', ('w', 'b', 1), 'check'])
    elif kind == 'special':
        special(ctx, case[1])
    elif kind == 'rep':
        for g in family_graphs(case[1:]):
            spec = Spec(g.name, L3, g.nodes + [('e_old', 'exp', ('a',), {}), ('e_bth', 'mul', ('a', 'c'), {}), ('e_new', 'sin', ('c',), {})], g.root)
            reach = Model(spec).reach(spec.root)
            for old in sorted(reach - {spec.root}):
                news = ['c', 'e_new'] + [l for l in ('a', 'b') if l != old]
                sp2 = Spec(g.name, L3, [(n, o, [old if x == 'a' and n in ('e_old', 'e_bth') else x for x in args], p) for n, o, args, p in spec.nodes], spec.root)
                m = Model(sp2)
                for new in ['d'] + news + ['e_old', 'e_bth']:
                    if old in m.reach(new) and new not in ('e_old', 'e_bth'):
                        continue
                    if tier == 'quick' and new in ('e_bth', 'c'):
                        continue
                    s3 = Spec(g.name, L3, replaced(sp2, old, new), sp2.root)
                    if not feasible(s3):
                        continue
                    l = [x for x in m.reach(old) if x in m.vals][0]
                    k = [x for x in m.reach(new) if x in m.vals][-1]
                    pres = [[], ['check']] if tier == 'quick' else [[], ['values'], ['check'], [('r', old)], ['check', ('w', l, 1)]]
                    for pre in pres:
                        one(ctx, sp2, pre + [('rep', sp2.root, old, new), 'check', ('w', l, 1), ('w', k, 1), 'check'])
    elif kind == 'hist':
        spec, evs = HIST[case[1]]
        first, depth = evs[case[2]], case[3]
        def rec(h):
            if ok(spec, h):
                one(ctx, spec, h + ['check'], key='history %d' % case[1])
                if len(h) < depth:
                    for e in evs:
                        if e != h[-1]:
                            rec(h + [e])
        rec([first])


def ok(spec, h):
    """a replace of an input that is no longer there is a no-op; a replacement may not make a cycle"""
    w = RW.__new__(RW)
    w.spec, w.m = spec, Model(spec)
    for e in h:
        if e[0] == 'rep':
            if e[3] in w.m.reach(e[1]) and e[2] in w.m.reach(e[3]) and e[2] != e[3]:
                return False
            inner = w.m.reach(e[3]) - {e[2]}
            if any(n in w.m.bind and e[2] in w.m.reach(n) and n != e[3] for n in inner):
                return False
            w.rewrite(e[1], e[2], e[3])
    return True


def replaced(spec, old, new):
    nodes = [list(x) for x in spec.nodes]
    reach = Model(spec).reach(spec.root)
    out = []
    for n, o, args, p in nodes:
        out.append((n, o, [new if a == old and n in reach else a for a in args], p))
    # topological order for the feasibility evaluation does not matter (Model.ev recurses)
    return out


HIST = [
    (Spec('merge and replace', L3, [('n0', 'sin', ('a',), {}), ('n1', 'sin', ('b',), {}), ('n2', 'mul', ('n0', 'c'), {}), ('n3', 'mul', ('n1', 'c'), {}), ('n4', 'add', ('n2', 'n3'), {}), ('y', 'mul', ('n4', 'n0'), {}), ('e', 'exp', ('b',), {})], 'y'),
     [('rr', 'y'), ('rep', 'y', 'a', 'b'), ('rep', 'y', 'b', 'a'), ('rep', 'y', 'c', 'a'), ('rep', 'y', 'b', 'e'), ('rep', 'y', 'a', 'd'), ('w', 'a', 1), ('w', 'b', 1), ('w', 'c', 1), ('r', 'y'), ('d', 'y', 'a'), 'check']),
    (Spec('merge in matrix code', MA, [('t', 'T', ('a',), {}), ('t2', 'T', ('b',), {}), ('p', 'dot', ('t', 'a'), {}), ('q', 'dot', ('t2', 'b'), {}), ('s', 'sum', ('p',), {'axis': 0}), ('u', 'sum', ('q',), {'axis': 1}), ('y', 'cat', ('s', 'u'), {})], 'y'),
     [('rr', 'y'), ('rep', 'y', 'a', 'b'), ('rep', 'y', 'b', 'a'), ('w', 'a', 1), ('w', 'b', 1), ('r', 'y'), ('d', 'y', 'a'), ('d', 's', 'b'), 'check']),
]


def special(ctx, name):
    key = 'C11|special|' + name
    if name == 'inputs of one array':
        # inputs that are made from one array or one number stay independent
        for src in (np.array([1., 2.]), 3.0, np.array([[1., 2.], [3., 4.]])):
            for cls in (ch.Ch, ch.array):
                for hist in itertools.product(['rr', 'wa', 'wb', 'r', 'd'], repeat=3):
                    ctx.hist([name, str(np.shape(src)), hist])
                    a, b = cls(src), cls(src)
                    A, B = np.atleast_1d(np.array(src)), np.atleast_1d(np.array(src))
                    y = ch.sin(a) * b + ch.sin(b)
                    for h in hist + ('r', 'd'):
                        ctx.step()
                        if h == 'rr':
                            y.remove_redundancy()
                        elif h == 'wa':
                            A = A * 1.5
                            a.x = A.copy()
                        elif h == 'wb':
                            B = B * .5
                            b.x = B.copy()
                        elif h == 'r':
                            check_value(ctx, key, y, np.sin(A) * B + np.sin(B), '%s of shape %s, history %s:' % (name, np.shape(src), hist))
                        else:
                            check_jac(ctx, key, y, a, np.diag((np.cos(A) * B).ravel()), '%s of shape %s, history %s:' % (name, np.shape(src), hist))
                            check_jac(ctx, key, y, b, np.diag((np.sin(A) + np.cos(B)).ravel()), '%s of shape %s, history %s:' % (name, np.shape(src), hist))
        return
    V = MA['a'] + [vals((2, 2), 6)]
    for hist in itertools.product(['rr', 'w0', 'w1', 'r', 'd', 'rep'], repeat=3):
        ctx.hist([name, hist])
        a, b, c = ch.Ch(V[0]), ch.Ch(V[0]), ch.Ch(V[2])
        cur = {'a': V[0], 'b': V[0], 'c': V[2]}
        u, v, f = SPECIAL[name](a, b)
        if name == 'functions':
            u.p = a
            v.p = a
            f = lambda p, q: (np.sin(p), np.exp(p))
        at = ['a', 'b']
        y = ch.concatenate((u.ravel(), v.ravel()))
        objs = {'a': a, 'b': b, 'c': c}
        F = lambda p, q: np.concatenate([np.ravel(z) for z in f(p, q)])
        what = 'special expression "%s", history %s:' % (name, hist)
        try:
            for h in hist + ('r', 'd'):
                ctx.step()
                if h == 'rr':
                    y.remove_redundancy()
                elif h == 'rep':
                    if at[0] == 'a' and name != 'functions':
                        y.replace(a, c)
                        at[0] = 'c'
                elif h in ('w0', 'w1'):
                    n = at[int(h[1])]
                    cur[n] = cur[n] * 1.5 + .1
                    objs[n].x = cur[n].copy()
                elif h == 'r':
                    check_value(ctx, key, y, np.real(F(cur[at[0]], cur[at[1]])), what)
                else:
                    for i in (0, 1):
                        check_jac(ctx, key, y, objs[at[i]], cjac(F, [cur[at[0]], cur[at[1]]], i), what)
        except Exception as e:
            ctx.fail(key + '|' + type(e).__name__, '%s unexpected %s: %s' % (what, type(e).__name__, str(e)[:200]))
