"""C01: no stale values. Every history up to the depth over the event alphabet of every template."""
import itertools
from templates import *
from sweep import sweep_cases, run_sweep
ID = 'C01'
RULE = ('templates (graph families) x every sequence of events up to the depth: input assignment (same and new shapes, plain numbers, several inputs), item assignment, assignment through views, '
        'operand re-binding (single, several at once, same object twice), parameter changes, creating / evaluating / dropping further parents with garbage collection, and value or derivative reads of '
        'intermediate and final expressions; after each history every value is compared with a from-scratch NumPy evaluation (root first). Histories of the full depth begin with a read or a new parent and end with a change; all shorter ones are unrestricted. Every read inside a history is compared too. Further, every operation of the library (the tables of C05-C08: shapes, arguments, operand forms) on expressions and below another operation, through changes of values, shapes and arguments and back.')
ASSUMPTIONS = ['single-threaded use', 'inputs change through the library (assignment, item assignment), not by in-place mutation of arrays owned by the caller',
               'graph templates of up to 7 operations, inputs of up to 6 elements', 'NumPy is the reference for values']
DEPTH = {'quick': 4, 'thorough': 5}
CHUNKS = 16


def cases(tier):
    out = []
    for ti, (spec, evs, reads, jreads) in enumerate(templates()):
        n = len(evs) + len(reads) + 2
        for i in range(n):
            for j in range(n):
                out.append([ti, i, j, DEPTH[tier]])
    # interleave templates so that chunks are even
    out.sort(key=lambda c: (c[1], c[2], c[0]))
    return out + sweep_cases(ID, tier)


_T = []


def alphabet(ti):
    if not _T:
        _T.extend(templates())
    spec, evs, reads, jreads = _T[ti]
    return spec, evs + reads + jreads[:2]


READS = ('r', 'd', 'l', 'rd')
FIRST = READS + ('np', 'npr')


def final(w):
    for n in reversed(w.m.order):
        w.check_val(n, w.o[n].r)
    for node, n in w.extra:
        w.check(n.r, 3 * w.m.value(node), 'value of a further parent of ' + node)


def histories(alpha, i, j, depth):
    """all event sequences that start with events i, j; sequences without an effect-free repetition"""
    base = [alpha[i], alpha[j]]
    if i == 0 and j == 0:
        for e in alpha:
            yield [e]
    if same(*base):
        return
    yield base
    def rec(h):
        if len(h) == depth:
            return
        for e in alpha:
            if same(h[-1], e):
                continue
            g = h + [e]
            yield g
            for x in rec(g):
                yield x
    for x in rec(base):
        yield x


def run(case, ctx):
    if case[0] == 'sweep':
        return run_sweep(ID, case, ctx)
    ti, i, j, depth = case
    spec, alpha = alphabet(ti)
    for h in histories(alpha, i, j, depth):
        if all(e[0] in READS for e in h) or h[0][0] == 'dp':
            continue
        if len(h) == depth and (h[-1][0] in READS or h[0][0] not in FIRST):
            continue    # the longest histories start by filling some memo and end with a change
        ctx.hist([spec.name] + [show(e) for e in h])
        run_history(ctx, spec, h, final, '%s|%s' % (ID, spec.name))
