"""Replays one violation file without the explorer: ./check-replay FILE"""
import sys, os, json, importlib, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import core
d = json.load(open(sys.argv[1]))
mod = importlib.import_module('props.' + d['property'].lower())
cases = d['prefix'] + [d['case']]
ctx = core.Ctx(cap=10 ** 9)
core.run_cases(mod, cases, range(len(cases)), ctx)
hit = [f for f in ctx.fails if f['idx'] == len(cases) - 1]
for f in hit:
    print(f['key'], '\n   ', f['msg'])
print('reproduced' if hit else 'not reproduced')
sys.exit(1 if hit else 0)
