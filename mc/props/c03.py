"""C03: the chain rule on every small graph."""
from graphs import *
import lib
from sweep import sweep_cases, run_sweep
ID = 'C03'
RULE = ('every acyclic expression graph with up to N operations over two inputs from several operation families (elementwise core, broadcasting, all vector operations, matrix operations, positive '
        'domain, stacking), including sub-expressions used several times and as both operands of one operation, whose last operation uses all others; the Jacobian of the root with respect to both '
        'inputs and to every intermediate expression (not a view of an input), before and after an input changes, against complex-step differentiation of the NumPy evaluation; and every operation of the library (the tables of C05-C08: shapes, arguments, operand forms) on expressions and below another operation, and with operands and results in very small and very large units')
ASSUMPTIONS = ['complex-step differentiation of the NumPy evaluation is the reference', 'graphs of up to 3 operations in quick, 4 in thorough', 'one generic value set per input shape, plus one changed value']
QUICK = ['core3', 'scalar3', 'wide2', 'widescalar2', 'matrix2', 'pos2', 'cat3']
THOROUGH = QUICK + ['core4', 'pos3', 'matrix3', 'stack3', 'wide3']


def cases(tier):
    return family_cases(QUICK if tier == 'quick' else THOROUGH) + sweep_cases(ID, tier) + lib.lib_cases(ID, tier)


def run(case, ctx):
    if case[0] == 'sweep':
        return run_sweep(ID, case, ctx)
    if case[0] == 'lib':
        return lib.scales(ctx, ID, case[1], case[-1])
    for spec in family_graphs(case):
        check(ctx, spec)


def check(ctx, spec):
    ctx.hist(gname(spec))
    ctx.state(gname(spec))
    try:
        w = World(spec, ctx)
        root = spec.root
        reach = w.m.reach(root)
        inter = intermediates(w)
        for l in sorted(spec.leaves):
            ctx.step()
            J = w.o[root].dr_wrt(w.o[l])
            if l not in reach and J is not None and np.any(dense(J, 0, 0)):
                w.fail('derivative of %s wrt an input it does not use' % root, 'not None')
            if l in reach:
                w.check_jac(root, l, J)
        for n in inter:
            ctx.step()
            w.check_jac(root, n, w.o[root].dr_wrt(w.o[n]))
        if len(spec.nodes) <= 2 or spec.name in ('scalar3', 'cat3'):
            l = sorted(reach.intersection(spec.leaves))[0]
            w.do(('w', l, 1))
            if feasible_now(w):
                for n in inter[-1:]:
                    w.check_jac(root, n, w.o[root].dr_wrt(w.o[n]))
                w.check_jac(root, l, w.o[root].dr_wrt(w.o[l]))
    except np.linalg.LinAlgError:
        pass            # a singular matrix in the middle: refused, out of scope
    except Divergence as d:
        ctx.fail('C03|%s|%s' % (gname(spec), str(d).split(':')[0]), '%s: %s' % (gname(spec), d))


def intermediates(w):
    """expressions that can be taken as the variable: not views of an input, and not a concatenation that a directly enclosing
    concatenation along the same axis has absorbed (it is then no longer part of the graph)"""
    m = w.m
    absorbed = set()
    for n in m.order:
        if m.op[n].startswith('cat'):
            for k in m.bind[n]:
                if m.op.get(k, '').startswith('cat') and m.par[k].get('axis', 0) == m.par[n].get('axis', 0):
                    absorbed.add(k)
    reach = m.reach(w.spec.root)
    return [n for n in m.order[:-1] if n in reach and n not in absorbed and m.op[n] not in PERMUTE]


def feasible_now(w):
    try:
        w.m.strict = True
        return bool(np.all(np.isfinite(w.m.value(w.spec.root))))
    except Exception:
        return False
    finally:
        w.m.strict = False
