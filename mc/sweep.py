"""The operation tables of C05-C08, run inside the broad properties C01-C04: every operation of the library, in an expression.

What is observed depends on the property (oracle.Mode): C01 values along histories, C02 values and Jacobians along histories,
C03 Jacobians as built, C04 reverse mode and left products as built."""
import importlib
from oracle import Mode
TABLES = {'c05': ('un', 'bin', 'same', 'clip', 'tour'), 'c06': ('ax', 'noax', 'moment', 'tour'), 'c07': ('idx', 're', 'cat', 'stk', 'nested', 'tour', 'cattour'), 'c08': None}


def sweep_cases(prop, tier):
    out = []
    for m in sorted(TABLES):
        mod = importlib.import_module('props.' + m)
        for c in mod.cases(tier):
            if TABLES[m] is not None and c[0] not in TABLES[m]:
                continue
            if 'tour' in c[0] and prop in ('C03', 'C04'):
                continue
            if c[0] == 'idx' and prop in ('C01', 'C02') and tier == 'quick' and len(c[1]) > 2:
                continue
            out.append(['sweep', m, c])
    return out


def run_sweep(prop, case, ctx):
    mod = importlib.import_module('props.' + case[1])
    Mode.prop = prop
    try:
        mod.run(case[2], ctx)
    finally:
        Mode.prop = None
