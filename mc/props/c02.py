"""C02: no stale Jacobians. Every history up to the depth over the event alphabet of every template."""
from props.c01 import *
from props.c01 import histories, alphabet as _alpha01
import props.c01 as c01
from sweep import sweep_cases, run_sweep
ID = 'C02'
RULE = ('templates (graph families) x every sequence up to the depth of: input assignment (same and new shapes, plain numbers), item assignment, assignment through views, operand re-binding, parameter changes, '
        'creating / evaluating / dropping further parents with garbage collection, value reads, and derivative reads of intermediate and final expressions; after each history the derivative of every '
        'intermediate and final expression that was read in any history, with respect to every input, is compared with complex-step Jacobians of a from-scratch NumPy evaluation, in both orders (root first, leaves first). Further, every operation of the library (the tables of C05-C08: shapes, arguments, operand forms) on expressions and below another operation, through changes of values, shapes and arguments and back.')
ASSUMPTIONS = ['single-threaded use', 'graph templates of up to 7 operations, inputs of up to 6 elements',
               'complex-step differentiation of the NumPy evaluation is the reference for derivatives']
DEPTH = {'quick': 3, 'thorough': 4}


def cases(tier):
    out = []
    for ti, (spec, evs, reads, jreads) in enumerate(templates()):
        n = len(evs) + 1 + len(jreads)
        for i in range(n):
            for j in range(n):
                out.append([ti, i, j, DEPTH[tier]])
    out.sort(key=lambda c: (c[1], c[2], c[0]))
    return out + sweep_cases(ID, tier)


def alphabet(ti):
    if not c01._T:
        c01._T.extend(templates())
    spec, evs, reads, jreads = c01._T[ti]
    return spec, evs + reads[-1:] + jreads


def finals(spec, jreads):
    pairs = [(e[1], e[2]) for e in jreads]
    def f(w):
        for n, l in pairs:
            w.check_jac(n, l, w.o[n].dr_wrt(w.o[l]))
        for node, n in w.extra:
            for l in w.spec.leaves:
                w.checkj(n.dr_wrt(w.o[l]), 3 * w.m.jac(node, l), 'derivative of a further parent of ' + node)
    def g(w):
        for n, l in reversed(pairs):
            w.check_jac(n, l, w.o[n].dr_wrt(w.o[l]))
        for n, l in pairs:       # a second read, now from whatever was remembered
            w.check_jac(n, l, w.o[n].dr_wrt(w.o[l]))
    return f, g


def run(case, ctx):
    if case[0] == 'sweep':
        return run_sweep(ID, case, ctx)
    ti, i, j, depth = case
    spec, alpha = alphabet(ti)
    fs = finals(spec, c01._T[ti][3])
    for h in histories(alpha, i, j, depth):
        if all(e[0] in READS for e in h) or h[0][0] == 'dp':
            continue
        if len(h) == depth and (h[-1][0] in READS or h[0][0] not in FIRST):
            continue
        for k, f in enumerate(fs):
            ctx.hist([spec.name] + [show(e) for e in h])
            run_history(ctx, spec, h, f, '%s|%s' % (ID, spec.name))
