"""C10: copies and pickles."""
import copy as _copy, pickle
from templates import *
from userops import Scaled, Notified, extra
import props.c01 as c01
from templates import show as _show
import lib
ID = 'C10'
RULE = ('graph templates and special expressions (function-defined, SVD factors, user-defined operations with derived attributes, sparse parameters) x one earlier event of every kind (read, derivative read, change, or none) x copying method '
        '(pickle protocols, ch.copy, deepcopy, copy of a copy; whole graph or root only; shallow copy) x every later sequence of changes (none, one on either side, one on each side in both orders); then values, derivatives, sharing '
        'and separateness of both sides against two independent NumPy models; and every operation of the library x copying method x earlier reads x changed side')
ASSUMPTIONS = ['copying in one process (no version skew)', 'graph templates of up to 7 operations']
METHODS = ['p2', 'phi', 'chcopy', 'deep', 'twice', 'rootdeep']
MUT = ('w', 'wn', 'i', 'v', 'b', 'p', 'pset', 'set', 'swap', 'ww')


def alpha(ti):
    if not c01._T:
        c01._T.extend(templates())
    spec, evs, reads, jreads = c01._T[ti]
    pre = [None, 'all'] + reads[-1:] + jreads[-1:] + evs[:3] + [e for e in evs if e[0] in ('b', 'p', 'v', 'set')][:2]
    muts = [e for e in evs if e[0] in MUT]
    # one change of every kind
    keep, kinds = [], set()
    for e in muts:
        k = (e[0], e[1] if e[0] in ('w', 'p', 'b') else 0)
        if k not in kinds:
            kinds.add(k)
            keep.append(e)
    return spec, pre, keep[:5], jreads


def cases(tier):
    out = []
    for ti in range(len(templates())):
        n = len(alpha(ti)[1])
        for m in METHODS:
            for i in range(n):
                if tier == 'quick' and m in ('phi', 'twice') and i > 1:
                    continue
                out.append(['T', ti, m, i, tier])
    for s in sorted(SPECIAL):
        for m in ('p2', 'phi', 'chcopy', 'deep', 'twice', 'shallow'):
            out.append(['S', s, m, 0, tier])
    out.sort(key=lambda c: (str(c[0]), c[3], str(c[1])))
    return out + lib.lib_cases(ID, tier)


def clone(objs, root, m):
    """-> objects of the copy, by name or root only"""
    if m == 'p2':
        return pickle.loads(pickle.dumps(objs, 2)), None
    if m == 'phi':
        return pickle.loads(pickle.dumps(objs, pickle.HIGHEST_PROTOCOL)), None
    if m == 'deep':
        return _copy.deepcopy(objs), None
    if m == 'twice':
        a = pickle.loads(pickle.dumps(objs))
        return pickle.loads(pickle.dumps(a)), None
    if m == 'chcopy':
        return None, root.copy()
    if m == 'rootdeep':
        return None, _copy.deepcopy(root)


def walk(model, name, obj, out, w):
    """names of a copied graph from its root; a shared sub-expression must be one object"""
    if name in out:
        if out[name] is not obj:
            w.fail('sharing', 'sub-expression %s was copied twice' % name)
        return
    out[name] = obj
    if name in model.bind:
        for slot, child in zip(OPS[model.op[name]].slots, model.bind[name]):
            walk(model, child, getattr(obj, slot), out, w)


class World2(World):
    def __init__(self, w, objs):
        self.spec, self.ctx, self.extra, self.bad = w.spec, w.ctx, [], False
        m = self.m = Model(w.spec)
        m.vals, m.lk, m.bind, m.par = dict(w.m.vals), dict(w.m.lk), {k: list(v) for k, v in w.m.bind.items()}, {k: dict(v) for k, v in w.m.par.items()}
        self.o = objs

    def structure(self):
        for n, b in self.m.bind.items():
            if n in self.o:
                for slot, child in zip(OPS[self.m.op[n]].slots, b):
                    if getattr(self.o[n], slot) is not self.o[child]:
                        self.fail('structure of the copy', '%s.%s is not the copied %s' % (n, slot, child))


def show(e):
    return 'read all' if e[0] == 'rall' else _show(e)


def applicable(w, e):
    """is every object that the event touches part of this side (a root-only copy holds only what the root reaches)?"""
    names = {'w': e[1:2], 'wn': e[1:2], 'i': e[1:2], 'v': e[1:2], 'p': e[1:2], 'pset': e[1:2], 'swap': e[1:2]}.get(e[0])
    if names is None:
        if e[0] == 'b':
            names = (e[1], e[3])
        elif e[0] == 'set':
            names = [e[1]] + [t for _, t in e[2]]
        elif e[0] == 'ww':
            names = [l for l, _ in e[1]]
        else:
            names = []
    return all(n in w.o for n in names)


def final(w, jreads, side):
    try:
        for n in reversed(w.m.order):
            if n in w.o:
                w.check_val(n, w.o[n].r)
        for e in jreads[-2:]:
            if e[1] in w.o and e[2] in w.o:
                w.check_jac(e[1], e[2], w.o[e[1]].dr_wrt(w.o[e[2]]))
    except Divergence as d:
        raise Divergence('%s %s' % (side, d))


def run(case, ctx):
    if case[0] == 'lib':
        return lib.copies(ctx, case[1], case[-1])
    if case[0] == 'S':
        return special(case, ctx)
    _, ti, m, pi, tier = case
    spec, pre, muts, jreads = alpha(ti)
    sides = [(0, e) for e in muts] + [(1, e) for e in muts]
    posts = [[]] + [[s] for s in sides] + [[s, t] for s in sides for t in sides if s[0] != t[0]]
    if tier == 'thorough':
        posts += [[s, t] for s in sides for t in sides if s[0] == t[0]]
    if pi < 2 and m in ('p2', 'chcopy', 'deep'):
        # the copy goes on as a live expression: read, re-bound, read, changed
        if not c01._T:
            c01._T.extend(templates())
        evs = c01._T[ti][1]
        rebs, chg = [e for e in evs if e[0] in ('b', 'set', 'swap', 'p', 'pset')], [e for e in evs if e[0] in ('w', 'wn', 'i')]
        for side in ((1,) if tier == 'quick' else (0, 1)):
            posts += [[(side, ('rall',)), (side, b), (side, ('rall',)), (side, w)] for b in rebs for w in chg]
    for post in posts:
        one(ctx, spec, pre[pi], m, post, jreads)


def one(ctx, spec, pre, m, post, jreads):
    desc = '%s; before: %s; copy by %s; then %s' % (spec.name, pre if pre in (None, 'all') else show(pre), m,
                                                   '; '.join('%s.%s' % (('original', 'copy')[s], show(e)) for s, e in post))
    ctx.hist(desc)
    key = 'C10|%s|%s' % (spec.name, m)
    try:
        w = World(spec, ctx)
        if pre == 'all':
            for n in w.m.order:
                w.o[n].r
            for e in jreads:
                w.do(e)
        elif pre is not None:
            w.do(pre)
        objs, root = clone(w.o, w.o[spec.root], m)
        if objs is None:
            objs = {}
            walk(w.m, spec.root, root, objs, w)
        c = World2(w, objs)
        for n in objs:
            if any(objs[n] is o for o in w.o.values()):
                w.fail('separateness', 'the copy shares %s with the original' % n)
        c.structure()
        for s, e in post:
            t = (w, c)[s]
            if e[0] == 'rall':
                for n in t.m.order:
                    if n in t.o:
                        t.o[n].r
                continue
            if not applicable(t, e):
                return
            t.do(e)
        final(c, jreads, 'copy')
        final(w, jreads, 'original')
        ctx.state(spec.name, str(pre), m, str([(s, show(e)) for s, e in post]))
    except Divergence as d:
        ctx.fail('%s|%s' % (key, str(d).split(':')[0]), '%s: %s' % (desc, d))
    except Exception as e:
        ctx.fail('%s|%s' % (key, type(e).__name__), '%s: unexpected %s: %s' % (desc, type(e).__name__, str(e)[:300]))


# ------------------------------------------------------------------ special expressions
def _sp(n):
    return sp.csc_matrix(vals((2, n), 9))


g2 = vals((3, 2)) + np.eye(3, 2) * 2
SPECIAL = {
    # name: (input arrays, second arrays, builder(inputs)->expression, numpy function, derivative?)
    'lambda': ([vals((2,)), vals((2,), 1)], lambda a, b: ch.Ch(lambda x, y: ch.sin(x) * y + x), lambda a, b: np.sin(a) * b + a, True),
    'lambda_in_expr': ([vals((2,)), vals((2,), 1)], 'wrap', lambda a, b: np.exp(np.sin(a) * b + a), True),
    'user': ([vals((2,)), vals((2,), 1)], lambda a, b: Scaled(a=a, b=b, k=1.5), lambda a, b: 3. * (a + b) ** 2, True),
    'user_same': ([vals((2,))], lambda a: Scaled(a=a, b=a, k=1.5), lambda a: 3. * (a + a) ** 2, True),
    'notified': ([vals((2,), 0, 'pos')], lambda a: Notified(a=a, n=3), lambda a: a ** 3, True),
    'user_added': ([vals((2,)), vals((2,), 1)], lambda a, b: extra(a, b) * 2., lambda a, b: 2. * (a ** 2 + np.sin(b)), True),
    'user_added_root': ([vals((2,)), vals((2,), 1)], lambda a, b: extra(a, b), lambda a, b: a ** 2 + np.sin(b), True),
    'svd_d': ([g2], lambda a: ch.linalg.svd(a, full_matrices=False)[1], lambda a: np.linalg.svd(a, full_matrices=False)[1], None),
    'svd_all': ([g2], lambda a: (lambda u, d, v: (u * d).dot(v))(*ch.linalg.svd(a, full_matrices=False)), lambda a: a, True),
    'sparse_matrix': ([vals((3,))], lambda a: ch.MatVecMult(mtx=_sp(3), vec=a) * 2., lambda a: 2 * _sp(3).dot(a), True),
    'dense_flag': ([vals((3,)), vals((3,), 2)], lambda a, b: ch.add(a=a, b=b, make_dense=True) * a, lambda a, b: (a + b) * a, True),
    'slogdet': ([vals((2, 2)) * .3 + np.eye(2)], lambda a: ch.linalg.slogdet(a)[1] * 1., lambda a: np.log(np.linalg.det(a)), True),
    'pinv': ([g2], lambda a: ch.linalg.pinv(a), lambda a: np.linalg.inv(a.T.dot(a)).dot(a.T), True),
    'nested_stack': ([vals((2,)), vals((2,), 1)], lambda a, b: ch.vstack((ch.hstack((a, b)), ch.concatenate((b, b)))), lambda a, b: np.vstack((np.hstack((a, b)), np.hstack((b, b)))), True),
    'leaf': ([vals((3,))], lambda a: a, lambda a: a, True),
    'diag_sort': ([vals((3,))], lambda a: ch.diag(ch.sort(a)) * 2., None, True),
}


def _sortdiag(a):
    return np.diag(a[np.argsort(np.real(a))]) * 2.


def make(name, arrs):
    ins = [ch.Ch(x.copy()) for x in arrs]
    b = SPECIAL[name][1]
    if b == 'wrap':
        f = ch.Ch(lambda x, y: ch.sin(x) * y + x)
        f.x, f.y = ins
        return ins, ch.exp(f), f
    e = b(*ins)
    if name == 'lambda':
        e.x, e.y = ins
    return ins, e, None


def find(e, seen=None):
    """inputs (plain Ch) of a copied expression by their position: the order of first appearance over sorted term names"""
    seen = seen if seen is not None else []
    if type(e) is ch.Ch:
        if not any(e is s for s in seen):
            seen.append(e)
        return seen
    for t in sorted(e.dterms):
        if hasattr(e, t):
            find(getattr(e, t), seen)
    return seen


def special(case, ctx):
    _, name, m, _, tier = case
    arrs, b, f, jac = SPECIAL[name]
    f = f or _sortdiag
    new = [a * 1.1 + .05 for a in arrs]
    new2 = [a * .9 - .02 for a in arrs]
    for pre, post, warm, which in itertools.product(('none', 'r', 'both', 'changed'), ('none', 'orig', 'copy', 'oc', 'co'), ('', 'r', 'both'), range(len(arrs))):
            if post == 'none' and (warm or which) or m == 'shallow' and which:
                continue
            desc = '%s; before: %s; copy by %s; then %schange %s of input %d' % (name, pre, m, warm and 'read, ', post, which)
            key = 'C10|%s|%s' % (name, m)
            ctx.hist(desc); ctx.state(name, pre, m, post, warm, which)
            try:
                ins, e, extra = make(name, arrs)
                cur = list(arrs)
                if pre in ('r', 'both'):
                    e.r
                if pre == 'both' and jac is not None:
                    for l in ins:
                        e.dr_wrt(l)
                if pre == 'changed':
                    e.r
                    ins[0].x = new2[0].copy()
                    cur[0] = new2[0]
                if m == 'shallow':
                    if name == 'leaf' or name.startswith('lambda'):
                        continue
                    ce = _copy.copy(e)
                    cins = ins
                elif m == 'chcopy':
                    ce = ch.copy(e)
                    cins = None
                elif m == 'deep':
                    cins, ce = _copy.deepcopy((ins, e))
                elif m == 'twice':
                    cins, ce = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps((ins, e)))))
                else:
                    cins, ce = pickle.loads(pickle.dumps((ins, e), 2 if m == 'p2' else pickle.HIGHEST_PROTOCOL))
                if cins is None:
                    oi, ci = find(e), find(ce)
                    if len(oi) != len(ci):
                        ctx.fail(key + '|sharing', '%s: the copy has %d inputs, the original %d' % (desc, len(ci), len(oi)))
                        continue
                    cins = [ci[[k for k, x in enumerate(oi) if x is l][0]] for l in ins]
                st = {'o': (e, ins, list(cur)), 'c': (ce, cins, list(cur))}
                if m != 'shallow':
                    if any(x is y for x in ins for y in cins) or ce is e:
                        ctx.fail(key + '|separate', desc + ': the copy shares an input with the original')
                for s in 'co' if warm else '':
                    ee, ii, cc = st[s]
                    ee.r
                    if warm == 'both' and jac is not None:
                        for l in ii:
                            ee.dr_wrt(l)
                for s in {'none': '', 'orig': 'o', 'copy': 'c', 'oc': 'oc', 'co': 'co'}[post]:
                    ctx.step()
                    ee, ii, cc = st[s]
                    if m == 'shallow':
                        # the shallow copy shares its operands: re-bind an operand of one side only
                        t = sorted(x for x in ee.dterms if hasattr(ee, x))[0]
                        was = getattr(ee, t)
                        if not isinstance(was, ch.Ch) or was.is_ch_baseclass() is False:
                            continue
                        for k, l in enumerate(ii):
                            if l is was and not [1 for x in ee.dterms if x != t and getattr(ee, x, None) is l]:
                                fresh = ch.Ch((new if s == 'o' else new2)[k].copy())
                                setattr(ee, t, fresh)
                                st[s] = (ee, [fresh if x is was else x for x in ii], [(new if s == 'o' else new2)[k] if j == k else x for j, x in enumerate(cc)])
                    else:
                        k = which
                        ii[k].x = (new if s == 'o' else new2)[k].copy() if pre != 'changed' else new[k].copy()
                        cc[k] = (new if s == 'o' else new2)[k] if pre != 'changed' else new[k]
                for s, side in (('c', 'copy'), ('o', 'original')):
                    ee, ii, cc = st[s]
                    ok = check_value(ctx, key + '|' + side, ee, f(*cc), '%s: %s' % (desc, side))
                    if jac is not None and ok:
                        for k, l in enumerate(ii):
                            if any(l is x for x in ii[:k]):
                                continue
                            if ee is l and k == 0:
                                want = np.eye(l.r.size)
                            else:
                                want = cjac(f, cc, tuple(j for j, x in enumerate(ii) if x is l))
                            check_jac(ctx, key + '|%s|J%d' % (side, k), ee, l, want, '%s: %s wrt input %d' % (desc, side, k))
            except Exception as x:
                import traceback
                from core import Stop
                if isinstance(x, Stop):
                    raise
                ctx.fail(key + '|' + type(x).__name__, '%s: unexpected %s: %s %s' % (desc, type(x).__name__, str(x)[:200], traceback.format_exc()[-300:]))
