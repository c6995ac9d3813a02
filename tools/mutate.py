#!/usr/bin/env python3
"""Development tool: systematic small changes of the source, to find what the checks do not notice.

  tools/mutate.py list                     number of mutants per file
  tools/mutate.py filter OUT [STRIDE OFF]  those that pass the stable tests -> OUT (json)
  tools/mutate.py run IN OUT               run the checks of the file (in order) on each until one reports; survivors -> OUT
"""
import ast, sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from concurrent.futures import ThreadPoolExecutor
import seed
FILES = {'ch.py': 'C03 C01 C02 C09 C04 C12 C10 C11 C13 C18 C19 C16 C20 C17 C05 C07', 'ch_ops.py': 'C05 C06 C08 C07 C20 C19 C02 C11 C17', 'reordering.py': 'C07 C09 C02 C20 C17 C11', 'linalg.py': 'C08 C02 C20 C17',
         'optimization.py': 'C15 C14 C20', 'optimization_internal.py': 'C14 C15 C20 C09', 'logic.py': 'C19', 'ch_random.py': 'C19', 'np_tensordot.py': 'C08', 'extras.py': 'C06 C05 C17 C03', 'utils.py': 'C20 C07 C18', 'monitor.py': 'C20', 'api_compatibility.py': 'C19', '__init__.py': 'C19 C20'}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Pow: '*'}


def mutants(fn):
    src = open('/repo/chumpy/' + fn).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []
    def m(n, new, kind):
        s, e = pos(n)
        out.append(dict(file=fn, line=n.lineno, s=s, e=e, new=new, old=b[s:e].decode(), kind=kind))
    tree = ast.parse(src)
    skip = ('show_tree', 'show_tree_wrt', 'show_tree_cache', 'draw_graph', 'visualize', 'main', 'test')
    def walk(n, inside):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and (c.name in skip or c.name.startswith(('show_', 'unit_', 'test'))):
                continue
            ins = inside or isinstance(c, (ast.FunctionDef, ast.Lambda))
            walk(c, ins)
            if not inside:
                continue
            if isinstance(c, (ast.Assign, ast.AugAssign)) or isinstance(c, ast.Expr) and isinstance(c.value, ast.Call):
                m(c, 'pass', 'delete')
            if isinstance(c, (ast.If, ast.IfExp, ast.While)):
                m(c.test, 'not (%s)' % text(c.test), 'negate')
                if isinstance(c, ast.If):
                    m(c.test, 'True', 'true'); m(c.test, 'False', 'false')
            if isinstance(c, ast.BoolOp):
                for i in range(len(c.values)):
                    rest = [text(v) for j, v in enumerate(c.values) if j != i]
                    m(c, '(' + (' and ' if isinstance(c.op, ast.And) else ' or ').join(rest) + ')', 'dropcond')
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                m(c, '(%s %s %s)' % (text(c.left), CMP[type(c.ops[0])], text(c.comparators[0])), 'cmp')
            if isinstance(c, ast.BinOp) and type(c.op) in BIN:
                m(c, '(%s %s %s)' % (text(c.left), BIN[type(c.op)], text(c.right)), 'arith')
            if isinstance(c, ast.Constant) and type(c.value) in (int, float):
                m(c, repr(c.value + 1), 'const')
            if isinstance(c, ast.Constant) and type(c.value) is bool:
                m(c, repr(not c.value), 'bool')
            if isinstance(c, ast.Tuple) and isinstance(c.ctx, ast.Load) and len(c.elts) > 1:
                for i in range(len(c.elts)):
                    rest = [text(v) for j, v in enumerate(c.elts) if j != i]
                    m(c, '(' + ', '.join(rest) + ',)', 'tuple')
            if isinstance(c, ast.Call):
                if isinstance(c.func, ast.Attribute) and c.func.attr in ('copy', 'ravel', 'tocsc', 'tocsr', 'tocoo', 'flatten', 'toarray', 'lower') and not c.args:
                    m(c, text(c.func.value), 'dropcall')
                for k in c.keywords:
                    if k.arg:
                        rest = [text(a) for a in c.args] + [('%s=%s' % (x.arg, text(x.value)) if x.arg else '**' + text(x.value)) for x in c.keywords if x is not k]
                        m(c, '%s(%s)' % (text(c.func), ', '.join(rest)), 'dropkw')
                if len(c.args) == 2 and not c.keywords and not any(isinstance(a, ast.Starred) for a in c.args):
                    m(c, '%s(%s, %s)' % (text(c.func), text(c.args[1]), text(c.args[0])), 'swapargs')
            if isinstance(c, ast.Attribute) and c.attr == 'T':
                m(c, text(c.value), 'dropT')
            if isinstance(c, ast.Return) and c.value is not None and not (isinstance(c.value, ast.Constant) and c.value.value is None):
                m(c, 'return None', 'retnone')
            if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id == 'self' and c.attr in 'ab' and isinstance(c.ctx, ast.Load):
                m(c, 'self.' + ('b' if c.attr == 'a' else 'a'), 'otherop')
    walk(tree, False)
    ok = []
    for x in out:
        t = apply(b, x)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        x['id'] = '%s:%d:%s:%d' % (fn, x['line'], x['kind'], x['s'])
        ok.append(x)
    return ok


def apply(b, x):
    return (b[:x['s']] + x['new'].encode() + b[x['e']:]).decode()


def put(x):
    d, r = seed.scratch()
    p = os.path.join(r, 'chumpy', x['file'])
    b = open(p, 'rb').read()
    open(p, 'w').write(apply(b, x))
    return d, r


def passes(x):
    d, r = put(x)
    try:
        return not seed.tests(r)
    except Exception:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for f in FILES:
            print(f, len(mutants(f)))
    elif sys.argv[1] == 'filter':
        files = os.environ.get('FILES', ' '.join(FILES)).split()
        ms = [m for f in files for m in mutants(f)]
        if len(sys.argv) > 4:
            ms = ms[int(sys.argv[4])::int(sys.argv[3])]
        with ThreadPoolExecutor(int(os.environ.get('W', 8))) as ex:
            keep = [x for x, ok in zip(ms, ex.map(passes, ms)) if ok]
        json.dump(keep, open(sys.argv[2], 'w'), indent=1)
        print('%d of %d pass the tests' % (len(keep), len(ms)))
    elif sys.argv[1] == 'run':
        ms = json.load(open(sys.argv[2]))
        out = open(sys.argv[3], 'a')
        done = set()
        for x in ms:
            d, r = put(x)
            try:
                hit = None
                for c in (os.environ.get('CHECKS') or FILES[x['file']]).split():
                    p = subprocess.run([os.path.join(V, 'check'), c], env=dict(seed.ENV, MC_REPO=r, MC_FAST='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if p.returncode:
                        hit = c if p.returncode == 1 else '%s rc=%d' % (c, p.returncode)
                        break
                line = '%-12s %s  %r -> %r' % (hit or 'SURVIVED', x['id'], x['old'][:90], x['new'][:90])
                print(line, flush=True)
                out.write(line + '\n'); out.flush()
            finally:
                shutil.rmtree(d, ignore_errors=True)
