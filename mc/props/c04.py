"""C04: forward mode, reverse mode and vector-Jacobian products agree on every small graph, in every order of use."""
from graphs import *
from props.c03 import intermediates
import lib
from sweep import sweep_cases, run_sweep
ID = 'C04'
RULE = ('every acyclic expression graph with up to N operations over two inputs from several operation families; on each, for both inputs and for every intermediate expression taken as variable: lop with '
        'dense identity, wide, tall, single-row, single-element and sparse left-hand sides, lmult_wrt, reverse-mode Jacobian on a fresh graph; every order of the three modes on one graph, with an input change in between, '
        'compared with L times the complex-step Jacobian; and every operation of the library (the tables of C05-C08: shapes, arguments, operand forms) on expressions and below another operation, and with operands and results in very small and very large units, in reverse mode and with left products')
ASSUMPTIONS = ['complex-step differentiation of the NumPy evaluation is the reference', 'graphs of up to 3 operations in quick, 4 in thorough']
QUICK = ['wide2', 'matrix2', 'pos2', 'cat3', 'core3']
THOROUGH = QUICK + ['scalar3', 'widescalar2', 'pos3', 'matrix3', 'stack3', 'core4']
ORDERS = list(itertools.permutations('FRL'))


def cases(tier):
    return family_cases(QUICK if tier == 'quick' else THOROUGH) + sweep_cases(ID, tier) + lib.lib_cases(ID, tier)


def lhs(n, k):
    """left-hand sides"""
    if k == 'eye':
        return np.eye(n)
    if k == 'row':
        return vals((1, n), 3)
    if k == 'two':
        return vals((2, n), 4)
    if k == 'wide':
        return vals((n + 2, n), 5)
    if k == 'sparse':
        return sp.csc_matrix(vals((2, n), 6))
    if k == 'speye':
        return sp.eye(n, n, format='csr')


def run(case, ctx):
    if case[0] == 'sweep':
        return run_sweep(ID, case, ctx)
    if case[0] == 'lib':
        return lib.scales(ctx, ID, case[1], case[-1])
    gi = 0
    for spec in family_graphs(case):
        gi += 1
        check(ctx, spec, gi)


def mode(w, root, l, m, order, when):
    o, x = w.o[root], w.o[l]
    tag = ' (modes used in order %s%s)' % (''.join(order), when)
    if m == 'F':
        w.checkj(o.dr_wrt(x), w.m.jac(root, l), 'forward derivative of %s wrt %s%s' % (root, l, tag))
    elif m == 'R':
        w.checkj(o.dr_wrt(x, reverse_mode=True), w.m.jac(root, l), 'reverse-mode derivative of %s wrt %s%s' % (root, l, tag))
    else:
        want = w.m.jac(root, l)
        L = lhs(want.shape[0], 'two')
        w.checkj(o.lop(x, L), L.dot(want), 'lop of %s wrt %s%s' % (root, l, tag))


def check(ctx, spec, gi):
    name = gname(spec)
    ctx.hist(name)
    ctx.state(name)
    big = len(spec.nodes) > 2
    try:
        w = World(spec, ctx)
        root = spec.root
        reach = w.m.reach(root)
        wrts = [l for l in sorted(spec.leaves) if l in reach]
        # products on a fresh graph
        for l in wrts + intermediates(w):
            want = w.m.jac(root, l)
            kinds = ('row', 'sparse')[:1 if l not in wrts else 2] if big else ('row', 'two', 'wide', 'sparse', 'speye')
            for k in kinds:
                ctx.step()
                L = lhs(want.shape[0], k)
                ref = (L.toarray() if sp.issparse(L) else L).dot(want)
                w.checkj(w.o[root].lop(w.o[l], L), ref, 'lop with %s left-hand side of %s wrt %s' % (k, root, l))
                if k in ('two', 'sparse'):
                    w.checkj(w.o[root].lmult_wrt(L, w.o[l]), ref, 'lmult_wrt with %s left-hand side of %s wrt %s' % (k, root, l))
        for l in sorted(spec.leaves):
            if l not in reach:
                J = w.o[root].lop(w.o[l], np.eye(w.m.value(root).size))
                if J is not None and np.any(dense(J, 0, 0)):
                    w.fail('lop of %s wrt an input it does not use' % root, 'not zero')
        # every order of the modes
        orders = [ORDERS[gi % 6]] if big else ORDERS
        for order in orders:
            w = World(spec, ctx)
            for m in order:
                for l in wrts:
                    ctx.step()
                    mode(w, root, l, m, order, '')
            w.do(('w', wrts[0], 1))
            w.m.strict = True
            try:
                w.m.value(root)
            except (Kink, np.linalg.LinAlgError):
                continue
            finally:
                w.m.strict = False
            for m in order[1:2]:
                for l in wrts:
                    ctx.step()
                    mode(w, root, l, m, order, ' then again after an input changed')
    except np.linalg.LinAlgError:
        pass
    except Divergence as d:
        ctx.fail('C04|%s|%s' % (name, str(d).split(':')[0]), '%s: %s' % (name, d))
