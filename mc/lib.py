"""Every operation of the library (the subject expressions of C17) as a part of C09, C10, C11, C13 and C16.

The reference is the plain expression, built afresh from plain inputs (its correctness is the matter of C05-C08)."""
import copy as _copy, pickle, sys, os, ast
from oracle import *
from core import Stop
from chumpy.ch import ChGroup
from props.c17 import S, data, observe
import chumpy
PKG = os.path.dirname(os.path.abspath(chumpy.__file__))
BITS = ('floor', 'isnan', 'greater')          # no derivative
REF = {}


def lib_cases(prop, tier, extra=lambda x: [[]]):
    return [['lib', i] + e + [tier] for i, x in enumerate(S) for e in extra(x)]


def ref(i, arrs):
    k = (i, tuple(a.tobytes() for a in arrs))
    if k not in REF:
        ls = [ch.Ch(a.copy()) for a in arrs]
        REF[k] = observe(S[i]['f'](*ls), ls)
    return REF[k]


def build(i, k=0):
    arrs = data(S[i], k)
    ls = [ch.Ch(a.copy()) for a in arrs]
    return arrs, ls, S[i]['f'](*ls)


class Wrong(Exception):
    pass


def compare(ctx, what, node, leaves, i, arrs, jac=True):
    v, js = ref(i, arrs)
    got = np.array(node.r, dtype=np.float64)
    ctx.seen('r', got.tobytes())
    if not close(got, v):
        raise Wrong('%s: value %s of shape %s, the plain expression gives %s of shape %s' % (what, summ(got), got.shape, summ(v), v.shape))
    if jac:
        for k, l in enumerate(leaves):
            g = dense(node.dr_wrt(l), v.size, l.r.size)
            ctx.seen('J', g.tobytes())
            if g.shape != js[k].shape or not close(g, js[k], 1e-7, 1e-8):
                raise Wrong('%s: derivative wrt input %d %s, the plain expression gives %s' % (what, k, summ(g), summ(js[k])))


def guarded(ctx, prop, i, desc, f):
    name = S[i]['name']
    ctx.hist([name, desc]); ctx.step(); ctx.state(prop, name, desc)
    try:
        f()
    except Wrong as w:
        ctx.fail('%s|lib|%s' % (prop, name), '%s, %s: %s' % (name, desc, w))
    except Stop:
        raise
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        ctx.fail('%s|lib|%s|%s' % (prop, name, type(x).__name__), '%s, %s: unexpected %s: %s (%s)' % (
            name, desc, type(x).__name__, str(x)[:200], ' <- '.join('%s:%s' % (os.path.basename(q.filename), q.name) for q in reversed(tb[-3:]))))


def pre_read(node, leaves, pre):
    if pre in ('r', 'both'):
        node.r
    if pre in ('d', 'both'):
        for l in leaves:
            node.dr_wrt(l)


def find(e, seen=None, done=None):
    """plain inputs in order of first appearance over sorted term names"""
    seen = seen if seen is not None else []
    done = done if done is not None else set()
    if id(e) in done:
        return seen
    done.add(id(e))
    if type(e) is ch.Ch:
        seen.append(e)
        return seen
    for t in sorted(e.dterms):
        c = getattr(e, t, None)
        if isinstance(c, ch.Ch):
            find(c, seen, done)
    return seen


# ---------------------------------------------------------------- C10
def copies(ctx, i, tier):
    for m in ('p2', 'chcopy', 'deep'):
        for pre in ('none', 'r', 'both'):
            for post in ('none', 'orig', 'copy'):
                if tier == 'quick' and post == 'none' and pre == 'r':
                    continue
                def f():
                    arrs, ls, node = build(i)
                    pre_read(node, ls, pre)
                    if m == 'chcopy':
                        cnode = ch.copy(node)
                        o, c = find(node), find(cnode)
                        if len(o) != len(c):
                            raise Wrong('the copy has %d inputs, the original %d' % (len(c), len(o)))
                        at = dict((id(x), y) for x, y in zip(o, c))
                        if not all(id(l) in at for l in ls):
                            return      # an input that is inside a function
                        cls = [at[id(l)] for l in ls]
                    elif m == 'deep':
                        cls, cnode = _copy.deepcopy((ls, node))
                    else:
                        cls, cnode = pickle.loads(pickle.dumps((ls, node), 2))
                    if cnode is node or any(x is y for x in ls for y in cls):
                        raise Wrong('the copy shares an object with the original')
                    new = data(S[i], 5)
                    st = [arrs, arrs]
                    if post != 'none':
                        k = 0 if post == 'orig' else 1
                        for l, a in zip((ls, cls)[k], new):
                            l.x = a.copy()
                        st[k] = new
                    compare(ctx, 'copy', cnode, cls, i, st[1])
                    compare(ctx, 'original', node, ls, i, st[0])
                guarded(ctx, 'C10', i, 'copied by %s after reading %s; then %s changed' % (m, pre, post), f)


# ---------------------------------------------------------------- C11
def rewrites(ctx, i, tier):
    n = len(S[i]['shapes'])
    for j in range(n):
        for how in ('input', 'expression', 'resized'):
            for pre in ('none', 'both'):
                for later in (0, 1):
                    def f():
                        arrs, ls, node = build(i)
                        pre_read(node, ls, pre)
                        new = list(arrs)
                        new[j] = data(S[i], 5)[j]
                        leaf = ch.Ch(new[j].copy())
                        rep = leaf if how == 'input' else leaf + 0.
                        if how == 'resized':
                            rep = ch.concatenate((leaf.ravel(), leaf.ravel()))[:leaf.size].reshape(leaf.shape)
                        node.replace(ls[j], rep)
                        old = ls[j]
                        ls2 = [leaf if k == j else l for k, l in enumerate(ls)]
                        if later:
                            pre_read(node, ls2, pre)
                            new[j] = data(S[i], 2)[j]
                            leaf.x = new[j].copy()
                        compare(ctx, 'after replacing', node, ls2, i, new)
                        d = node.dr_wrt(old)
                        if d is not None and np.any(dense(d, 1, 1)):
                            raise Wrong('still has a derivative with respect to the replaced input')
                        if rep is not leaf and S[i]['name'] not in BITS:
                            old.x = data(S[i], 3)[j].copy()
                            compare(ctx, 'after the replaced input changed', node, ls2, i, new, False)
                    guarded(ctx, 'C11', i, 'input %d replaced by %s after reading %s%s' % (j, how, pre, ', then a change' if later else ''), f)
    # two equal expressions, merged
    for pre in ('none', 'both'):
        for shared in (True, False):
            def f():
                arrs = data(S[i], 0)
                ls = [ch.Ch(a.copy()) for a in arrs]
                ms = ls if shared else [ch.Ch(a.copy()) for a in arrs]
                p, q = S[i]['f'](*ls), S[i]['f'](*ms)
                y = p * 2. + q
                if pre == 'both':
                    pre_read(y, ls, pre)
                y.remove_redundancy()
                for k in (0, 5):
                    st = [data(S[i], k), data(S[i], k if shared else 0)]
                    if k:
                        for l, a in zip(ls, st[0]):
                            l.x = a.copy()
                    (v, js), (v2, js2) = ref(i, st[0]), ref(i, st[1])
                    if not close(y.r, 2 * v + v2):
                        raise Wrong('2*f+f after remove_redundancy%s: %s, reference %s' % (' and a change' if k else '', summ(y.r), summ(2 * v + v2)))
                    for t, l in enumerate(ls):
                        w = js[t] * (3 if shared else 2)
                        if not close(dense(y.dr_wrt(l), *w.shape), w, 1e-7, 1e-8):
                            raise Wrong('derivative of 2*f+f wrt input %d after remove_redundancy%s: %s, reference %s' % (t, ' and a change' if k else '', summ(dense(y.dr_wrt(l), *w.shape)), summ(w)))
            guarded(ctx, 'C11', i, 'twice in one expression (%s inputs), redundancy removed after reading %s' % ('the same' if shared else 'equal', pre), f)


# ---------------------------------------------------------------- C13
def functions(ctx, i, tier):
    n = len(S[i]['shapes'])
    F = S[i]['f']
    mk = lambda ls: ch.Ch((lambda x: F(x)) if n == 1 else (lambda x, y: F(x, y)), initial_args=dict(zip(NM, ls)))
    NM = ('x', 'y')[:n]
    for kind in ('lambda', 'nested', 'group'):
        for pre in ('none', 'r', 'both'):
            for ev in ('none', 'values', 'rebind one', 'rebind all', 'expression'):
                def f():
                    arrs = data(S[i], 0)
                    ls = [ch.Ch(a.copy()) for a in arrs]
                    if kind == 'lambda':
                        node = inner = mk(ls)
                        inner.set(**dict(zip(NM, ls)))
                    elif kind == 'nested':
                        inner = ch.Ch(lambda x: x + 0.)
                        inner.x = ls[0]
                        node = mk([inner] + ls[1:])
                        node.set(**dict(zip(NM, [inner] + ls[1:])))
                    else:
                        node = inner = ChGroup(result=mk(ls), args=dict(zip(NM, ls)))
                    pre_read(node, ls, pre)
                    cur = list(arrs)
                    if ev == 'values':
                        cur = data(S[i], 5)
                        for l, a in zip(ls, cur):
                            l.x = a.copy()
                    elif ev == 'rebind one':
                        cur[0] = data(S[i], 5)[0]
                        ls[0] = ch.Ch(cur[0].copy())
                        inner.x = ls[0]
                    elif ev == 'rebind all':
                        cur = data(S[i], 5)
                        ls = [ch.Ch(a.copy()) for a in cur]
                        if kind == 'nested':
                            inner.x = ls[0]
                            for k, l in zip(NM[1:], ls[1:]):
                                setattr(node, k, l)
                        else:
                            node.set(**dict(zip(NM, ls)))
                    elif ev == 'expression':
                        cur[-1] = data(S[i], 5)[-1]
                        ls[-1] = ch.Ch(cur[-1].copy())
                        if kind == 'nested' and n == 1:
                            inner.x = ls[-1] + 0.
                        else:
                            setattr(node, NM[-1], ls[-1] + 0.)
                    compare(ctx, 'function', node, ls, i, cur)
                    if ev != 'none':
                        cur = list(cur)
                        cur[0] = data(S[i], 2)[0]
                        ls[0].x = cur[0].copy()
                        compare(ctx, 'function, after one more change', node, ls, i, cur)
                guarded(ctx, 'C13', i, '%s read %s then %s' % (kind, pre, ev), f)


# ---------------------------------------------------------------- C09
def views(ctx, i, tier):
    n = len(S[i]['shapes'])
    for j in range(n):
        for vk in ('slice', 'perm', 'T'):
            for pre in ('none', 'r', 'both'):
                for wr in ('none', 'view', 'base', 'element'):
                    def f():
                        arrs = data(S[i], 0)
                        a, b = arrs[j], data(S[i], 5)[j]
                        sz, sh = a.size, a.shape
                        if vk == 'slice':
                            pos = np.arange(1, sz + 1)
                            mkv = lambda B: B[1:sz + 1].reshape(sh)
                        elif vk == 'perm':
                            pos = np.arange(sz)[::-1] + 1
                            mkv = lambda B: B[pos].reshape(sh)
                        else:
                            pos = np.arange(sz).reshape(sh[::-1]).T.ravel()
                            mkv = lambda B: B[:sz].reshape(sh[::-1]).T
                        full = vals((sz + 2,), 11, 'pos')
                        full[pos] = a.ravel()
                        B = ch.Ch(full.copy())
                        v = mkv(B)
                        ls = [ch.Ch(x.copy()) for x in arrs]
                        ls[j] = v
                        node = S[i]['f'](*ls)
                        pre_read(node, [v, B] + [l for l in ls if l is not v], pre)
                        cur = list(arrs)
                        if wr == 'view':
                            v[...] = b.copy()
                            cur[j] = b
                        elif wr == 'base':
                            w = full.copy()
                            w[pos] = b.ravel()
                            B[:] = w
                            cur[j] = b
                        elif wr == 'element':
                            if sz < 2:
                                return
                            k = tuple(d - 1 for d in sh)
                            v[k] = a[k] * 1.01
                            cur[j] = a.copy()
                            cur[j][k] = a[k] * 1.01
                        want = full.copy()
                        want[pos] = cur[j].ravel()
                        if not close(B.r, want):
                            raise Wrong('the array holds %s, should hold %s' % (summ(B.r), summ(want)))
                        compare(ctx, 'operation on a view', node, ls, i, cur)
                        J = ref(i, cur)[1][j]
                        W = np.zeros((J.shape[0], sz + 2))
                        W[:, pos] = J
                        g = dense(node.dr_wrt(B), *W.shape)
                        if g.shape != W.shape or not close(g, W, 1e-7, 1e-8):
                            raise Wrong('derivative wrt the array %s, should be %s' % (summ(g), summ(W)))
                        g = dense(node.dr_wrt(mkv(B)), *J.shape)
                        if g.shape != J.shape or not close(g, J, 1e-7, 1e-8):
                            raise Wrong('derivative wrt another equal view %s, should be %s' % (summ(g), summ(J)))
                    guarded(ctx, 'C09', i, 'operand %d a view (%s), read %s, write %s' % (j, vk, pre, wr), f)


# ---------------------------------------------------------------- C16
class Injected(Exception):
    pass


LINES = {}


def fallible(fn):
    """lines of statements of operation code that may raise: those with a call, an index or arithmetic in them"""
    if fn not in LINES:
        out = set()
        try:
            tree = ast.parse(open(fn).read())
        except Exception:
            tree = ast.Module(body=[], type_ignores=[])
        for s in ast.walk(tree):
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr, ast.AnnAssign)):
                if any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) for x in ast.walk(s.value) if s.value is not None) if s.value is not None else False:
                    out.add(s.lineno)
            elif isinstance(s, (ast.If, ast.While)):
                if any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) for x in ast.walk(s.test)):
                    out.add(s.lineno)
        LINES[fn] = out
    return LINES[fn]


class Tracer(object):
    """counts, and at the chosen one fails, the fallible lines executed in operation code (not in ch.py, the engine)"""
    def __init__(self, target=None):
        self.n, self.target, self.where, self.on = 0, target, None, True

    def __call__(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(PKG) or os.path.basename(fn) in ('ch.py', 'utils.py', '__init__.py'):
            return None
        return self.local

    def local(self, frame, event, arg):
        if self.on and event == 'line' and frame.f_lineno in fallible(frame.f_code.co_filename):
            self.n += 1
            if self.n == self.target:
                self.on = False
                self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise Injected('injected')
        return self.local


def evaluate(node, leaves, ev):
    if ev == 'r':
        node.r
    elif ev == 'd':
        for l in leaves:
            node.dr_wrt(l)
    else:
        n = node.r.size
        for l in leaves:
            node.lop(l, np.eye(n))


def failures(ctx, i, pre, ev, tier):
    def prepare():
        arrs, ls, inner = build(i)
        node = inner * 1. if S[i]['name'] not in BITS else inner
        if pre != 'none':
            pre_read(node, ls, 'both')
            arrs = data(S[i], 5)
            for l, a in zip(ls, arrs):
                l.x = a.copy()
        return arrs, ls, node
    arrs, ls, node = prepare()
    t = Tracer()
    sys.settrace(t)
    try:
        evaluate(node, ls, ev)
    finally:
        sys.settrace(None)
    for k in range(1, t.n + 1):
        for post in ('retry', 'change') if tier == 'thorough' or pre == 'none' else ('retry', 'back'):
            def f():
                arrs, ls, node = prepare()
                tr = Tracer(k)
                sys.settrace(tr)
                try:
                    evaluate(node, ls, ev)
                    sys.settrace(None)
                    if tr.where:
                        raise Wrong('a failure at %s did not reach the caller' % tr.where)
                    return
                except Injected:
                    pass
                finally:
                    sys.settrace(None)
                if post != 'retry':
                    arrs = data(S[i], 2 if post == 'change' else 0)
                    for l, a in zip(ls, arrs):
                        l.x = a.copy()
                compare(ctx, 'after a failure at %s' % tr.where, node, ls, i, arrs)
            guarded(ctx, 'C16', i, 'evaluation %s (before: %s) fails at step %d, then %s' % (ev, pre, k, post), f)


def once(x):
    """one subject for each broadcasting operation and reduction is enough where only the code of the operation matters"""
    f = x['fam']
    if f not in ('bc', 'red') or '(' not in x['name']:
        return True
    return next(y for y in S if y['fam'] == f and y['name'].split('(')[0] == x['name'].split('(')[0]) is x or x['name'].endswith('0')


# ---------------------------------------------------------------- magnitudes
def scales(ctx, prop, i, tier):
    """every operation with one operand given in other units (x/c, times c) and its result in other units: the numbers scale and nothing else changes,
    however small or large they are; requests for dense and sparse derivatives included (C20)"""
    x = S[i]
    if x['name'] in BITS:
        return
    arrs = data(x, 0)
    cs = (1e-14, 1e14) + ((1e-7, 1e-60, 1e60) if tier == 'thorough' else ())
    for ci, co in [(c, 1.) for c in cs] + [(1., c) for c in cs] + [(c, c) for c in cs]:
        for pos in range(len(arrs)) if ci != 1. else (0,):
            for req in ({}, {'make_dense': True}, {'make_sparse': True}) if prop == 'C20' else ({},):
                def go():
                    v, js = ref(i, arrs)
                    if not np.all(np.isfinite(v)) or any(not np.all(np.isfinite(j)) for j in js):
                        return
                    ls = [ch.Ch(a / ci if k == pos else a.copy()) for k, a in enumerate(arrs)]
                    ops = [ch.multiply(a=l, b=ch.Ch(ci), **req) if k == pos and ci != 1. else l for k, l in enumerate(ls)]
                    node = x['f'](*ops)
                    if co != 1.:
                        node = ch.multiply(a=node, b=ch.Ch(co), **req)
                    got = np.array(node.r) / co
                    if not close(got, v, 1e-7, 1e-8):
                        raise Wrong('value %s, in plain units %s' % (summ(got), summ(v)))
                    for k, l in enumerate(ls):
                        u = (ci if k == pos else 1.) * co
                        for mode in {'C03': ('fwd',), 'C04': ('rev', 'lop')}.get(prop, ('fwd', 'rev', 'lop')):
                            if mode == 'fwd':
                                J, w = node.dr_wrt(l), js[k]
                            elif mode == 'rev':
                                J, w = node.dr_wrt(l, reverse_mode=True), js[k]
                            else:
                                L = left(2, v.size)
                                J, w = node.lop(l, L), L.dot(js[k])
                            g = dense(J, *w.shape) / u
                            ctx.seen('J', g.tobytes())
                            m = max(1., np.abs(w).max()) if w.size else 1.
                            if g.shape != w.shape or not close(g, w, 1e-6, 1e-7 * m):
                                raise Wrong('%s derivative wrt input %d, in plain units %s instead of %s' % (mode, k, summ(g), summ(w)))
                guarded(ctx, prop, i, 'operand %d in units of %g, result in units of %g%s' % (pos, ci, co, ' ' + list(req)[0] if req else ''), go)
