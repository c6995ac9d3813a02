"""Complete enumeration of small expression graphs."""
from dag import *


def choices(ops, avail):
    """every way to add one node on top of the available names"""
    out = []
    for op, ps in ops:
        k = len(OPS[op].slots)
        for args in itertools.product(avail, repeat=k):
            out.append((op, args, ps))
    return out


def graphs(ops, leaves, n, prefix=()):
    """all graphs with exactly n operations whose last one (the root) uses all others; `prefix`: the choices of the first operations"""
    nodes = list(prefix)
    def used(ns):
        s = set()
        for x in ns:
            s.update(x[2])
        return all(x[0] in s for x in ns[:-1])
    def rec(ns):
        if len(ns) == n:
            if used(ns):
                yield ns
            return
        avail = list(leaves) + [x[0] for x in ns]
        for op, args, ps in choices(ops, avail):
            for g in rec(ns + [('n%d' % len(ns), op, args, ps)]):
                yield g
    for g in rec(nodes):
        yield g


def prefixes(ops, leaves, k):
    out = [[]]
    for i in range(k):
        nxt = []
        for p in out:
            avail = list(leaves) + [x[0] for x in p]
            for op, args, ps in choices(ops, avail):
                nxt.append(p + [('n%d' % i, op, args, ps)])
        out = nxt
    return out


def feasible(spec):
    """does the reference evaluation exist (operand shapes fit)?"""
    try:
        m = Model(spec)
        m.strict = True
        v = m.value(spec.root)
        return bool(np.all(np.isfinite(v))) and v.size <= 64 and np.max(np.abs(v)) < 1e6
    except (ValueError, np.linalg.LinAlgError, IndexError):
        return False


# families: name -> (operations, leaves, number of operations, operations fixed per case)
A3 = {'a': [vals((2,)), vals((2,), 4)], 'b': [vals((2,), 1), vals((2,), 7)]}
S3 = {'a': [vals((2,)), vals((2,), 4)], 'b': [vals((1,), 1), vals((1,), 7)]}
M3 = {'a': [vals((2, 2)), vals((2, 2), 4)], 'b': [vals((2,), 1), vals((2,), 7)]}
P3 = {'a': [vals((2,), 0, 'pos'), vals((2,), 4, 'pos')], 'b': [vals((2,), 1, 'pos'), vals((2,), 7, 'pos')]}
UB = [('sin', {}), ('square', {}), ('add', {}), ('mul', {})]
UB1 = [('sin', {}), ('sub', {}), ('mul', {})]
WIDE_V = [('sin', {}), ('exp', {}), ('neg', {}), ('sum', {}), ('mean', {}), ('max', {}), ('cumsum', {}), ('ssq', {}), ('sel', {'idxs': np.array([1, 0, 1])}), ('sel', {'idxs': np.array([0])}),
          ('roll', {'shift': 1}), ('repeat', {'repeats': 2}), ('tile', {'reps': 2}), ('sort', {}), ('reshape', {'newshape': (-1, 1)}), ('at2', {}), ('T', {}), ('mvm', {'mtx': vals((3, 2), 3)}), ('clip', {'a_min': -.9, 'a_max': .9}),
          ('add', {}), ('sub', {}), ('mul', {}), ('div', {}), ('dot', {}), ('cat', {}), ('maximum', {})]
WIDE_M = [('sin', {}), ('sum', {'axis': 0}), ('sum', {'axis': 1}), ('mean', {'axis': 1}), ('max', {'axis': 0}), ('T', {}), ('reshape', {'newshape': (-1,)}), ('inv', {}), ('det', {}), ('sel', {'idxs': np.array([3, 0])}),
          ('add', {}), ('mul', {}), ('dot', {}), ('cat', {'axis': 0}), ('sub', {})]
POS = [('sqrt', {}), ('exp', {}), ('neg', {}), ('pow', {}), ('div', {}), ('add', {})]
FAM = {
    'core3': (UB, A3, 3, 2), 'scalar3': (UB, S3, 3, 2),
    'wide2': (WIDE_V, A3, 2, 1), 'widescalar2': (WIDE_V, S3, 2, 1), 'matrix2': (WIDE_M, M3, 2, 1), 'pos2': (POS, P3, 2, 1),
    'core4': (UB1, A3, 4, 2), 'pos3': (POS, P3, 3, 2), 'matrix3': (WIDE_M, M3, 3, 2), 'wide3': (WIDE_V, A3, 3, 2),
    'cat3': ([('cat', {}), ('mul', {}), ('sum', {})], A3, 3, 2),
    'stack3': ([('cat', {'axis': 0}), ('cat', {'axis': 1}), ('dot', {}), ('T', {})], {'a': [vals((2, 2)), vals((2, 2), 4)], 'b': [vals((2, 2), 1), vals((2, 2), 7)]}, 3, 2),
}


def family_cases(names):
    out = []
    for f in names:
        ops, leaves, n, k = FAM[f]
        for i in range(len(prefixes(ops, sorted(leaves), k))):
            out.append([f, i])
    return out


_pref = {}


def family_graphs(case):
    f, i = case[0], case[1]
    ops, leaves, n, k = FAM[f]
    if f not in _pref:
        _pref[f] = prefixes(ops, sorted(leaves), k)
    for g in graphs(ops, sorted(leaves), n, _pref[f][i]):
        spec = Spec(f, leaves, g)
        if feasible(spec):
            yield spec


def gname(spec):
    return spec.name + ':' + '; '.join('%s=%s(%s%s)' % (n, op, ','.join(a), ''.join(',%s=%s' % (k, show((k, v))) for k, v in ps.items())) for n, op, a, ps in spec.nodes)
