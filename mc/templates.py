"""Graph templates with their event alphabets, shared by the staleness checks."""
from dag import *

I = lambda *a: np.array(a)
M1 = vals((2, 3), 5)
M2 = vals((4, 3), 6)
M3 = sp.csc_matrix(vals((2, 3), 7))


def V(shape, n=3, dom='any', k0=0):
    return [vals(shape, k0 + 3 * k, dom) for k in range(n)]


def templates():
    T = []

    def t(name, leaves, nodes, events, root=None, reads=(), jreads=()):
        spec = Spec(name, leaves, nodes, root)
        T.append((spec, list(events), list(reads), list(jreads)))

    t('diamond', {'a': V((3,)), 'b': V((3,), k0=1)},
      [('u', 'add', 'ab', {}), ('v', 'mul', 'ua', {}), ('w', 'sin', 'u', {}), ('y', 'add', 'vw', {})],
      [('w', 'a', 1), ('w', 'a', 2), ('w', 'b', 1), ('i', 'a', 1, 7.5), ('b', 'v', 1, 'b'), ('b', 'w', 0, 'a'), ('swap', 'y')],
      reads=[('r', 'u'), ('r', 'v'), ('r', 'y')], jreads=[('d', 'u', 'a'), ('d', 'y', 'a'), ('d', 'y', 'b'), ('d', 'w', 'a')])
    t('same_operand_twice', {'a': V((2,)), 'b': V((2,), k0=1)},
      [('u', 'exp', 'a', {}), ('v', 'mul', 'uu', {}), ('y', 'add', 'vb', {})],
      [('w', 'a', 1), ('w', 'b', 1), ('b', 'v', 0, 'b'), ('b', 'v', 1, 'a'), ('b', 'v', 0, 'u'), ('b', 'v', 1, 'u'), ('set', 'v', [(0, 'a'), (1, 'a')])],
      reads=[('r', 'v'), ('r', 'y')], jreads=[('d', 'v', 'a'), ('d', 'y', 'a'), ('d', 'y', 'b')])
    t('parents_come_and_go', {'a': V((2,)), 'b': V((2,), k0=1)},
      [('u', 'mul', 'ab', {}), ('v', 'square', 'u', {}), ('y', 'sin', 'v', {})],
      [('w', 'a', 1), ('w', 'b', 2), ('np', 'u'), ('npr', 'v', 'a'), ('np', 'y'), ('dp',), ('b', 'y', 0, 'u')],
      reads=[('r', 'u'), ('r', 'y')], jreads=[('d', 'u', 'a'), ('d', 'v', 'a'), ('d', 'y', 'a')])
    t('input_shapes', {'a': [vals((3,)), vals((1, 3), 1), vals((2, 2), 2), vals((1,), 3), vals((2, 1, 2), 4)]},
      [('q', 'square', 'a', {}), ('s', 'sum', 'q', {}), ('d', 'div', 'qs', {}), ('m', 'mean', 'd', {}), ('y', 'cumsum', 'd', {})],
      [('w', 'a', 1), ('w', 'a', 2), ('w', 'a', 3), ('w', 'a', 4), ('i', 'a', 0, 1.25)],
      reads=[('r', 's'), ('r', 'd'), ('r', 'y'), ('r', 'm')], jreads=[('d', 's', 'a'), ('d', 'd', 'a'), ('d', 'y', 'a'), ('d', 'm', 'a')])
    t('axis_parameter', {'a': [vals((2, 3)), vals((3, 2), 1), vals((2, 2), 2), vals((2, 1, 3), 3), vals((2, 3), 9)]},
      [('s', 'sum', 'a', {'axis': 0}), ('m', 'mean', 'a', {'axis': 1}), ('x', 'max', 'a', {'axis': 0}), ('y', 'ssq', 's', {}), ('z', 'exp', 'm', {})],
      [('w', 'a', 1), ('w', 'a', 3), ('w', 'a', 4), ('p', 's', 'axis', 1), ('p', 's', 'axis', None), ('p', 'm', 'axis', 0), ('p', 'm', 'axis', -1), ('p', 'x', 'axis', 1)],
      reads=[('r', 's'), ('r', 'y'), ('r', 'z'), ('r', 'x')], jreads=[('d', 'y', 'a'), ('d', 'z', 'a'), ('d', 'x', 'a'), ('d', 's', 'a')])
    t('views', {'a': V((4,)), 'b': V((2,), k0=1)},
      [('v', 'sel', 'a', {'idxs': I(0, 2)}), ('t', 'reshape', 'a', {'newshape': (2, 2)}), ('tt', 'T', 't', {}), ('w', 'mul', 'vb', {}), ('y', 'dot', ['tt', 'w'], {})],
      [('w', 'a', 1), ('w', 'b', 1), ('i', 'a', slice(1, 3), 2.5), ('v', 'tt', (0,), -1.5), ('v', 'v', 1, 3.25), ('p', 'v', 'idxs', I(3, 1)), ('b', 'w', 0, 'b'), ('b', 'y', 0, 't')],
      reads=[('r', 'v'), ('r', 'tt'), ('r', 'y')], jreads=[('d', 'v', 'a'), ('d', 'w', 'a'), ('d', 'y', 'a'), ('d', 'y', 'b')])
    t('selection_of_resized', {'a': [vals((3,)), vals((5,), 1), vals((2, 2), 2), vals((3,), 3)]},
      [('v', 'sel', 'a', {'idxs': I(0, 2)}), ('g', 'sel', 'a', {'idxs': I(1, 1, 0), 'preferred_shape': (3, 1)}), ('y', 'mul', 'vg', {})],
      [('w', 'a', 1), ('w', 'a', 2), ('w', 'a', 3), ('i', 'a', 0, 4.5), ('p', 'v', 'idxs', I(2)), ('p', 'v', 'idxs', I(1, 0)), ('p', 'g', 'preferred_shape', (3, 1, 1))],
      reads=[('r', 'v'), ('r', 'g'), ('r', 'y')], jreads=[('d', 'v', 'a'), ('d', 'g', 'a'), ('d', 'y', 'a')])
    t('stacking', {'a': [vals((2,)), vals((1,), 1), vals((3,), 2)], 'b': [vals((2,), 3), vals((3,), 4)]},
      [('q', 'square', 'a', {}), ('c', 'cat3', ['q', 'b', 'q'], {}), ('e', 'exp', 'c', {}), ('y', 'ssq', 'e', {})],
      [('w', 'a', 1), ('w', 'a', 2), ('w', 'b', 1), ('b', 'c', 0, 'b'), ('b', 'c', 1, 'a'), ('b', 'c', 2, 'a'), ('i', 'b', 0, .5)],
      reads=[('r', 'c'), ('r', 'y')], jreads=[('d', 'c', 'a'), ('d', 'c', 'b'), ('d', 'y', 'a'), ('d', 'y', 'b')])
    t('stacking_axis', {'a': V((2, 2)), 'b': V((2, 2), k0=1)},
      [('s', 'sin', 'a', {}), ('c', 'cat', 'sb', {}), ('y', 'mul', 'cc', {})],
      [('w', 'a', 1), ('w', 'b', 1), ('p', 'c', 'axis', 1), ('p', 'c', 'axis', 0), ('b', 'c', 0, 'b'), ('b', 'c', 1, 'a'), ('swap', 'c')],
      reads=[('r', 'c'), ('r', 'y')], jreads=[('d', 'c', 'a'), ('d', 'y', 'a'), ('d', 'y', 'b')])
    g = lambda n, k: vals((n, n), k) * .4 + 2 * np.eye(n)
    t('linear_solve', {'a': [g(2, 0), g(2, 1), g(3, 2)], 'b': [vals((2,), 3), vals((2,), 4), vals((3,), 5)]},
      [('i', 'inv', 'a', {}), ('x', 'dot', 'ib', {}), ('d', 'det', 'a', {}), ('y', 'mul', 'xd', {})],
      [('ww', [('a', 1), ('b', 0)]), ('ww', [('a', 0), ('b', 1)]), ('ww', [('a', 2), ('b', 2)]), ('i', 'a', (0, 1), .3), ('b', 'x', 0, 'a'), ('b', 'd', 0, 'i')],
      reads=[('r', 'i'), ('r', 'x'), ('r', 'y')], jreads=[('d', 'i', 'a'), ('d', 'x', 'a'), ('d', 'y', 'a'), ('d', 'y', 'b')])
    t('reordering', {'a': [vals((3,)), vals((2, 3), 1), vals((4,), 2), vals((3,), 5)]},
      [('o', 'roll', 'a', {'shift': 1, 'axis': None}), ('s', 'sort', 'a', {}), ('p', 'repeat', 'o', {'repeats': 2, 'axis': None}), ('l', 'tile', 's', {'reps': 2}), ('y', 'ssq', 'p', {}), ('z', 'exp', 'l', {})],
      [('w', 'a', 1), ('w', 'a', 2), ('w', 'a', 3), ('i', 'a', 0, -2.5), ('p', 'o', 'shift', 2), ('p', 'p', 'repeats', 3), ('p', 'l', 'reps', (2, 1)), ('p', 'p', 'repeats', 2)],
      reads=[('r', 'o'), ('r', 's'), ('r', 'y'), ('r', 'z')], jreads=[('d', 'o', 'a'), ('d', 's', 'a'), ('d', 'p', 'a'), ('d', 'z', 'a')])
    t('transposes', {'a': [vals((2, 3)), vals((3, 2), 1), vals((2, 1, 3), 2), vals((2, 3), 5)]},
      [('t', 'transpose', 'a', {'axes': None}), ('h', 'reshape', 't', {'newshape': (-1,)}), ('q', 'mul', 'hh', {}), ('y', 'sum', 'q', {})],
      [('w', 'a', 1), ('w', 'a', 2), ('w', 'a', 3), ('p', 'h', 'newshape', (3, 2)), ('p', 'h', 'newshape', (-1,)), ('p', 't', 'axes', None), ('v', 'h', 0, 9.)],
      reads=[('r', 't'), ('r', 'h'), ('r', 'y')], jreads=[('d', 't', 'a'), ('d', 'q', 'a'), ('d', 'y', 'a')])
    t('matrix_parameter', {'a': [vals((3,)), vals((3, 1), 1), vals((3,), 2)], 'b': V((3,), k0=4)},
      [('u', 'add', 'ab', {}), ('m', 'mvm', 'u', {'mtx': M1}), ('k', 'clip', 'm', {'a_min': -.5, 'a_max': .5}), ('y', 'exp', 'k', {})],
      [('w', 'a', 2), ('w', 'b', 1), ('p', 'm', 'mtx', M2), ('p', 'm', 'mtx', M3), ('pset', 'k', {'a_min': -2., 'a_max': .1}), ('p', 'k', 'a_max', 5.), ('b', 'm', 0, 'a')],
      reads=[('r', 'm'), ('r', 'k'), ('r', 'y')], jreads=[('d', 'm', 'a'), ('d', 'k', 'b'), ('d', 'y', 'a')])
    t('broadcast', {'a': [vals((3,)), vals((2, 1), 1), vals((2, 3), 2)], 's': [vals((1,), 3), vals((3,), 4), vals((1, 3), 6)]},
      [('m', 'mul', 'as', {}), ('n', 'sub', 'sa', {}), ('x', 'maximum', 'mn', {}), ('y', 'div', 'xm', {})],
      [('w', 'a', 1), ('w', 'a', 2), ('w', 's', 1), ('w', 's', 2), ('wn', 's', 2), ('wn', 'a', 1.5), ('swap', 'm'), ('b', 'x', 1, 'a')],
      reads=[('r', 'm'), ('r', 'x'), ('r', 'y')], jreads=[('d', 'm', 'a'), ('d', 'n', 's'), ('d', 'y', 'a'), ('d', 'y', 's')])
    t('deep_and_wide', {'a': V((2,)), 'b': V((2,), k0=1)},
      [('c', 'add', 'ab', {}), ('d', 'mul', 'ca', {}), ('e', 'sin', 'd', {}), ('f', 'add', 'ce', {}), ('g', 'mul', 'ef', {}), ('h', 'sub', 'gd', {}), ('y', 'sum', 'h', {})],
      [('w', 'a', 1), ('w', 'b', 1), ('b', 'e', 0, 'c'), ('b', 'f', 1, 'b'), ('set', 'g', [(0, 'c'), (1, 'e')])],
      reads=[('r', 'c'), ('r', 'e'), ('r', 'g'), ('r', 'y')], jreads=[('d', 'c', 'a'), ('d', 'f', 'a'), ('d', 'h', 'b'), ('d', 'y', 'a')])
    t('power', {'a': V((2,), dom='pos'), 'p': [np.array([2.]), np.array([3.]), vals((2,), 3, 'pos')]},
      [('e', 'exp', 'p', {}), ('u', 'pow', 'ap', {}), ('v', 'pow', 'ue', {}), ('y', 'sqrt', 'v', {})],
      [('w', 'a', 1), ('w', 'p', 1), ('w', 'p', 2), ('wn', 'p', 2), ('b', 'u', 1, 'a'), ('b', 'v', 1, 'p'), ('set', 'v', [(0, 'a'), (1, 'p')])],
      reads=[('r', 'u'), ('r', 'y')], jreads=[('d', 'u', 'a'), ('d', 'u', 'p'), ('d', 'y', 'a'), ('d', 'y', 'p')])
    return T
