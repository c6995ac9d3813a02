"""C09: writes and derivatives through views."""
from oracle import *
import copy as _copy
import lib
ID = 'C09'
RULE = ('arrays of 1-3 dimensions x every chain of up to two views (index expressions of every kind, reshapes, transposes, rolls, flips, rotations, diagonals) x every write key x scalar / full / broadcast / integer values, '
        'each after every pattern of earlier reads and once more through the other level; after every write all elements of the array, all views, dependents and their derivatives, the arrays handed in by the caller and other '
        'objects sharing them are compared with a NumPy array written in place; and every bare integer, slice, integer pair and mask as a key, in turn, on one array. Derivatives: every subset of {array, view, view of view} used together in one expression (jointly and as two operands of one operation), '
        'with respect to the array, both views and freshly made equal views, forward, reverse and vector-Jacobian; and every operation of the library on a view (slice, permutation, transpose) as each operand x earlier reads x a write through the view, an element of it, or the array')
ASSUMPTIONS = ['derivatives with respect to views without repeated elements (as stated)', 'arrays of up to 6 elements; chains of length 2 (quick) or 3 (thorough)',
               'the derivative of an array (or view) itself with respect to a view of it is not asked for (the library gives none by design)']
nx = np.newaxis

VIEWS = {
    1: ["X[1:3]", "X[::-1]", "X[::2]", "X[-1]", "X[np.array([2,0])]", "X[np.array([True,False,True,True])]", "X[...]", "X.reshape((2,2))", "X.reshape((-1,1))", "X.ravel()", "ch.roll(X,1)", "ch.flipud(X)",
        "X[1:][::-1]", "ch.expand_dims(X,0)", "X[[0,3]]", "X[:0]"],
    2: ["X[0]", "X[:,1]", "X[1,2]", "X[:,::-1]", "X[::-1,1:]", "X[np.array([1,0]),np.array([0,2])]", "X[:,[2,0]]", "X.T", "X.reshape((3,2))", "X.reshape(-1)", "X.ravel()", "ch.swapaxes(X,0,1)", "ch.roll(X,1,axis=1)",
        "ch.roll(X,2)", "ch.fliplr(X)", "ch.rot90(X)", "ch.diag(X)", "X[np.array([[True,False,True],[False,True,False]])]", "X[...,0:1]", "ch.transpose(X,(1,0))", "X[-1:]", "ch.rollaxis(X,1)"],
    3: ["X[0]", "X[:,0,1]", "X[1,0]", "X.T", "ch.transpose(X,(2,0,1))", "ch.squeeze(X)", "ch.rollaxis(X,2,0)", "X.reshape((2,2))", "X[...,1]", "X[::-1,:,::-1]", "X.ravel()", "ch.swapaxes(X,0,2)"],
    0: [],
}
SECOND = {
    1: ["X[::-1]", "X[-1]", "X[1:]", "X[np.array([1,0])]", "X.reshape((-1,1))", "ch.roll(X,1)"],
    2: ["X[0]", "X[:,-1]", "X.T", "X.ravel()", "X[::-1,::-1]", "X.reshape((1,-1))", "ch.roll(X,1)"],
    3: ["X[-1]", "X.T", "X.ravel()", "X[...,0]"],
}
KEYS = {1: ["0", "-1", "slice(None)", "slice(None,None,2)", "slice(1,None)", "np.array([1,0])", "np.array([0])", "Ellipsis", "(slice(None,None,-1),)", "MASK", "None"],
        2: ["0", "(0,-1)", "(slice(None),0)", "slice(None)", "(slice(None,None,-1),slice(0,1))", "(np.array([0,-1]),np.array([0,0]))", "np.array([-1])", "(Ellipsis,-1)", "MASK"],
        3: ["0", "(0,0,-1)", "(slice(None),0)", "Ellipsis", "(Ellipsis,-1)", "MASK", "(slice(None),0,np.array([1,0]))"]}
BASE = {1: (4,), 2: (2, 3), 3: (2, 1, 2)}
READ = ['none', 'r', 'dr']


class npch(object):
    """the NumPy side of the functions used in view expressions"""
    roll = staticmethod(np.roll); expand_dims = staticmethod(np.expand_dims); squeeze = staticmethod(np.squeeze)
    swapaxes = staticmethod(np.swapaxes); rot90 = staticmethod(np.rot90); transpose = staticmethod(np.transpose)
    rollaxis = staticmethod(np.rollaxis)
    diag = staticmethod(lambda x: np.diag(x)); fliplr = staticmethod(np.fliplr); flipud = staticmethod(np.flipud)


def cview(X, e):
    return eval(e, {'X': X, 'ch': ch, 'np': np})


def nview(X, e):
    return np.atleast_1d(eval(e, {'X': X, 'ch': npch, 'np': np}))


def chains(nd, tier):
    """(first view, second view or None)"""
    out = []
    for e in VIEWS[nd]:
        X = np.zeros(BASE[nd])
        v = nview(X, e)
        out.append((e,))
        if v.size == 0:
            continue
        for f in SECOND.get(v.ndim, []):
            try:
                z = nview(v, f)
            except (IndexError, ValueError):
                continue
            if z.size:
                out.append((e, f))
                if tier == 'thorough':
                    for g in SECOND.get(z.ndim, []):
                        try:
                            y = nview(z, g)
                        except (IndexError, ValueError):
                            continue
                        if y.size:
                            out.append((e, f, g))
    return out


def cases(tier):
    out = []
    for nd in (1, 2, 3):
        for c in chains(nd, tier):
            out.append(['write', nd, list(c), tier])
            out.append(['deriv', nd, list(c), tier])
            if len(c) == 1 or tier == 'thorough' or c[1] in ('X[::-1]', 'X.T', 'X[...,0]'):
                out.append(['keys', nd, list(c), tier])
        out.append(['keys', nd, [], tier])
        out.append(['direct', nd, [], tier])
    for i in range(6):
        out.append(['share', i, [], tier])
    out.append(['refuse', 0, [], tier])
    return out + lib.lib_cases(ID, tier)


def mask_for(shape):
    m = (np.arange(int(np.prod(shape))) % 2 == 0).reshape(shape)
    return m


def key_of(k, shape):
    return mask_for(shape) if k == 'MASK' else eval(k, {'np': np})


def values(shape, k):
    n = int(np.prod(shape)) if len(shape) else 1
    out = [('scalar', 10. + k), ('int', 3)]
    if n > 0:
        out.append(('full', (20. + k + np.arange(n)).reshape(shape)))
        out.append(('intfull', (np.arange(n) + 5).reshape(shape)))
    if len(shape) >= 1 and n > 1:
        out.append(('bcast', 30. + np.arange(shape[-1])))
        out.append(('list', (40. + np.arange(n)).reshape(shape).tolist()))
    return out


def run(case, ctx):
    if case[0] == 'lib':
        return lib.views(ctx, case[1], case[-1])
    {'write': write, 'deriv': deriv, 'direct': direct, 'share': share, 'refuse': refuse, 'keys': keys}[case[0]](case, ctx)


class W(object):
    """array a, its view chain, dependents; NumPy twin"""
    def __init__(self, nd, chain):
        self.given = vals(BASE[nd], nd)
        self.given0 = self.given.copy()
        self.a = ch.Ch(self.given)
        self.other = ch.Ch(self.given)      # another object made from the same array
        self.n = self.given.copy()
        self.chain = chain
        self.v = []
        X = self.a
        for e in chain:
            X = cview(X, e)
            self.v.append(X)
        self.idx = []
        I = np.arange(self.n.size).reshape(self.n.shape)
        for e in chain:
            I = nview(I, e)
            self.idx.append(I)
        self.ya = ch.sin(self.a)
        self.yv = ch.square(self.v[-1]) if self.v else None

    def read(self, pat):
        if pat == 'r':
            self.ya.r, self.other.r
            if self.v:
                self.yv.r
        elif pat == 'dr':
            self.ya.dr_wrt(self.a)
            if self.v:
                self.yv.dr_wrt(self.a)
                if len(set(self.idx[-1].ravel())) == self.idx[-1].size:
                    self.yv.dr_wrt(self.v[-1])

    def check(self, ctx, key, tag, jac=True):
        def val(name, got, want):
            got = np.asarray(got)
            ctx.seen(name, got.shape, got.tobytes())
            if not (got.shape == want.shape and np.array_equal(got, want)):
                ctx.fail(key + '|' + name, '%s: %s is %s, reference %s' % (tag, name, summ(got), summ(want)))
                return False
            return True
        ok = val('the array', self.a.r, self.n)
        ok = ok and val('x of the array', np.asarray(self.a.x, dtype=float).reshape(self.n.shape), self.n)
        for i, (v, I) in enumerate(zip(self.v, self.idx)):
            ok = ok and val('view %d' % (i + 1), v.r, self.n.ravel()[I])
        ok = ok and val('the array handed in by the caller', self.given, self.given0)
        ok = ok and val('another object made from the same array', self.other.r, self.given0)
        if not close(self.ya.r, np.sin(self.n)):
            ctx.fail(key + '|dependent', '%s: sin(array) is %s, reference %s' % (tag, summ(self.ya.r), summ(np.sin(self.n))))
        if self.v and self.idx[-1].size:
            w = self.n.ravel()[self.idx[-1]]
            if not close(self.yv.r, w * w):
                ctx.fail(key + '|vdependent', '%s: square(view) is %s, reference %s' % (tag, summ(self.yv.r), summ(w * w)))
            if not jac:
                return
            J = np.zeros((w.size, self.n.size))
            J[np.arange(w.size), self.idx[-1].ravel()] = 2 * w.ravel()
            check_jac(ctx, key + '|J', self.yv, self.a, J, tag + ' square(view)')
        check_jac(ctx, key + '|Ja', self.ya, self.a, np.diag(np.cos(self.n.ravel())), tag + ' sin(array)')


def do_write(ctx, w, level, k, vname, v, tag, key):
    """level -1: the array itself; i: view i. Returns False if NumPy itself refuses."""
    target = w.a if level < 0 else w.v[level]
    idx = np.arange(w.n.size).reshape(w.n.shape) if level < 0 else w.idx[level]
    sel = idx[k]
    vv = _copy.deepcopy(v)
    flat = w.n.ravel()
    flat[np.ravel(sel)] = np.broadcast_to(np.asarray(v, dtype=float), np.shape(sel)).ravel()
    w.n = flat.reshape(w.n.shape)
    target[k] = vv
    ctx.step()
    if not np.array_equal(np.asarray(vv), np.asarray(v)):
        ctx.fail(key + '|value modified', '%s: the assigned value was modified' % tag)


def feas(I, k, v):
    try:
        s = np.shape(I[k])
        if np.size(I[k]) == 0:
            return False
        np.broadcast_to(np.asarray(v, dtype=float), s)
        return True
    except (IndexError, ValueError):
        return False


def write(case, ctx):
    _, nd, chain, tier = case
    w0 = W(nd, chain)
    I = w0.idx[-1]
    if I.size == 0:
        return
    for k in KEYS.get(I.ndim, ["Ellipsis", "0"]):
        try:
            sel = I[key_of(k, I.shape)]
        except IndexError:
            continue
        for vn, v in values(np.shape(sel), 1):
            if not feas(I, key_of(k, I.shape), v):
                continue
            short = tier == 'quick' and len(chain) > 1      # views of views: fewer value forms and read patterns in quick
            if short and vn in ('int', 'intfull', 'list'):
                continue
            for pat in ((['none', 'dr'] if short else READ) if vn in ('scalar', 'full') else ['r']):
                for level2 in ((None, -1) if vn == 'scalar' and not (short and pat == 'none') else (None,)) if tier == 'quick' else (None, -1, 0):
                    if level2 == 0 and len(chain) < 2:
                        continue
                    key = 'C09|write|%s|%s|%s' % ('.'.join(chain), k, vn)
                    tag = 'a %s, view %s, reads %s, view[%s] = %s %s' % (BASE[nd], ' then '.join(chain), pat, k, vn, summ(v))
                    ctx.hist(tag)
                    ctx.state(nd, tuple(chain), k, vn, pat, level2)
                    w = W(nd, chain)
                    w.read(pat)
                    do_write(ctx, w, len(chain) - 1, key_of(k, I.shape), vn, v, tag, key)
                    if level2 is not None:
                        w.read(pat)
                        do_write(ctx, w, level2, 0, 'scalar', -7., tag, key)
                        tag += ' then a%s[0] = -7' % ('' if level2 < 0 else '-view')
                    w.check(ctx, key, tag, pat == 'dr' or vn == 'full' or tier == 'thorough')


def direct(case, ctx):
    _, nd, _, tier = case
    I = np.arange(int(np.prod(BASE[nd]))).reshape(BASE[nd])
    ks = KEYS[nd]
    for k in ks:
        for vn, v in values(np.shape(I[key_of(k, I.shape)]), 1):
            if not feas(I, key_of(k, I.shape), v):
                continue
            for pat in READ:
                for k2 in [None] + (ks if vn == 'scalar' else []):
                    key = 'C09|direct|%d|%s|%s' % (nd, k, vn)
                    tag = 'a %s, reads %s, a[%s] = %s %s%s' % (BASE[nd], pat, k, vn, summ(v), '' if k2 is None else ', then a[%s] = 8' % k2)
                    ctx.hist(tag)
                    ctx.state(nd, k, vn, pat, k2)
                    w = W(nd, [VIEWS[nd][0]])
                    w.read(pat)
                    do_write(ctx, w, -1, key_of(k, I.shape), vn, v, tag, key)
                    if k2 is not None:
                        w.read(pat)
                        do_write(ctx, w, -1, key_of(k2, I.shape), 'int', 8, tag, key)
                    w.check(ctx, key, tag)


def share(case, ctx):
    """arrays shared between objects, non-float arrays, read-only arrays, plain lists"""
    i = case[1]
    for via in ('leaf', 'view', 'viewview'):
        for pat in ('none', 'r'):
            src = [np.arange(4.), np.arange(4), np.arange(4, dtype=np.float32), [0., 1., 2., 3.], np.arange(8.)[::2], np.asfortranarray(np.arange(4.).reshape(2, 2))][i]
            if i == 0:
                src.flags.writeable = True
            keep = _copy.deepcopy(src)
            a, b = ch.Ch(src), ch.Ch(src)
            b.x = src if i != 3 else np.array(src)
            c = ch.Ch(0.)
            c.x = np.asarray(src, dtype=float) if i in (1, 3) else src
            y = a * 2. + b
            if pat == 'r':
                y.r, c.r
            want = np.array(src, dtype=float)
            bb = want.copy()
            t = a if via == 'leaf' else (a.ravel() if via == 'view' else a.ravel()[::-1])
            flat = want.ravel()
            if via == 'leaf':
                t[0] = 2.5
                want[0] = 2.5
            elif via == 'view':
                t[1] = 2.5
                flat[1] = 2.5
                want = flat.reshape(want.shape)
            else:
                t[0] = 2.5
                flat[3] = 2.5
                want = flat.reshape(want.shape)
            ctx.hist(['share', i, via, pat]); ctx.step(); ctx.state(i, via, pat)
            key = 'C09|share|%d|%s' % (i, via)
            for nm, got, ref in (('a', a.r, want), ('b', b.r, bb), ('c', c.r, bb), ('source', src, keep), ('y', y.r, 2 * want + bb)):
                ctx.seen(nm, np.asarray(got).tobytes())
                if not np.allclose(np.asarray(got, dtype=float), np.asarray(ref, dtype=float)):
                    ctx.fail(key + '|' + nm, 'after writing 2.5 through %s: %s is %s, reference %s' % (via, nm, summ(got), summ(ref)))


def refuse(case, ctx):
    """assignment into a computed expression is refused and changes nothing"""
    for f in ('a*2', 'ch.sin(a)', 'a[1:]+1', '(a*2)[1:]', 'ch.concatenate((a,a))', 'a.sum()'):
        a = ch.Ch(np.arange(3.))
        y = eval(f, {'a': a, 'ch': ch})
        r0 = np.array(y.r)
        ctx.hist(f); ctx.step(); ctx.state(f)
        try:
            y[0] = 5.
            ctx.fail('C09|refuse|' + f, 'assignment into the computed expression %s was accepted' % f)
        except Exception:
            pass
        if not (np.array_equal(y.r, r0) and np.array_equal(a.r, np.arange(3.))):
            ctx.fail('C09|refuse2|' + f, 'refused assignment into %s changed something' % f)
    # a Ch cannot be assigned
    a = ch.Ch(np.arange(3.))
    try:
        a[0] = ch.Ch(1.)
        ctx.fail('C09|refuse|Ch', 'assigning a Ch object was accepted')
    except Exception:
        pass
    if not np.array_equal(a.r, np.arange(3.)):
        ctx.fail('C09|refuse2|Ch', 'refused assignment changed the array')


# ------------------------------------------------------------------ derivatives
def exprs(objs, C, shapes):
    """name, chumpy expression, numpy function of the list of arrays"""
    names = list(range(len(objs)))
    out = []
    for r in range(1, len(objs) + 1):
        for sub in itertools.combinations(names, r):
            out.append(('cat' + ''.join(map(str, sub)), sub))
    for i in names:
        for j in names:
            if i == j:
                continue
            if bcast_ok(shapes[i], shapes[j]):
                out.append(('mul', (i, j)))
            if len(shapes[i]) == 2 and len(shapes[j]) == 2 and shapes[i][1] == shapes[j][0]:
                out.append(('dot', (i, j)))
    return out


def build(kind, sub, xs, M):
    if kind.startswith('cat'):
        parts = [M.sin(xs[i].ravel() * (1.5 + k)) for k, i in enumerate(sub)]
        return parts[0] if len(parts) == 1 else M.concatenate(parts)
    if kind == 'mul':
        return xs[sub[0]] * xs[sub[1]]
    return xs[sub[0]].dot(xs[sub[1]])


def deriv(case, ctx):
    _, nd, chain, tier = case
    w = W(nd, chain)
    if w.idx[-1].size == 0:
        return
    shapes = [w.n.shape] + [I.shape for I in w.idx]
    n = w.n.size
    for ei, (kind, sub) in enumerate(exprs([0] * (len(chain) + 1), ch, shapes)):
        def ref(av):
            xs = [av] + [av.ravel()[I] for I in w.idx]
            return build(kind, sub, xs, np)
        ref0 = cjac(ref, [w.n], 0)
        for order in ((0, 1) if len(chain) == 1 or tier == 'thorough' else (ei % 2,)):
            w = W(nd, chain)
            xs = [w.a] + w.v
            y = build(kind, sub, xs, ch)
            wrts = [('array', w.a, np.arange(n))]
            X = w.a
            for i, e in enumerate(chain):
                X = cview(X, e)
                if len(set(w.idx[i].ravel())) == w.idx[i].size:
                    if not (kind == 'cat0' and False):
                        wrts.append(('view %d' % (i + 1), w.v[i], w.idx[i].ravel()))
                        if i == len(chain) - 1 or tier == 'thorough':
                            wrts.append(('a fresh equal view %d' % (i + 1), X, w.idx[i].ravel()))
            if order:
                wrts = wrts[::-1]
            for nm, o, cols in wrts:
                want = ref0[:, cols]
                key = 'C09|deriv|%s|%s|%s|%s' % ('.'.join(chain), kind, sub, nm)
                tag = 'a %s, views %s: %s of levels %s wrt %s' % (BASE[nd], ' then '.join(chain), kind, sub, nm)
                ctx.hist(tag); ctx.step(); ctx.state(key, order)
                if order == 0 or 'fresh' not in nm:
                    check_jac(ctx, key, y, o, want, tag + ' forward')
                if order == 0:
                    L = vals((2, want.shape[0]), 1)
                    check_jac(ctx, key + '|lop', y, o, L.dot(want), tag + ' lop', J=y.lop(o, L))
                else:
                    y2 = build(kind, sub, xs, ch)
                    check_jac(ctx, key + '|rev', y2, o, want, tag + ' reverse', J=y2.dr_wrt(o, reverse_mode=True))


# ------------------------------------------------------------------ every key
def all_keys(shape, tier):
    """every bare integer, slice (starts, stops and steps), integer pair, mask; for two dimensions their products on a coarser grid"""
    def slices(n, coarse):
        se = [None] + (list(range(-n, n + 1)) if not coarse else [-n, -1, 1, n])
        return [slice(a, b, s) for a in se for b in se for s in ((None, 2, -1) if not coarse else (None, -1))]

    def ints(n):
        return list(range(-n, n))
    n = shape[0]
    out = ints(n) + slices(n, len(shape) > 1)
    if len(shape) == 1:
        out += [np.array(t) for t in itertools.product(ints(n), repeat=2)] + [[t] for t in ints(n)]
        if n <= 6:
            out += [np.array(m) for m in itertools.product((False, True), repeat=n)]
        out += [(k,) for k in ints(n)] + [np.int64(k) for k in ints(n)]
    elif len(shape) == 2:
        m = shape[1]
        out += [(i, j) for i in ints(n) for j in ints(m)]
        out += [(i, s) for i in ints(n) for s in slices(m, True)] + [(s, j) for s in slices(n, True) for j in ints(m)]
        out += [(slice(a, None), slice(None, b, c)) for a in (None, 1, -1) for b in (None, -1, 1) for c in (None, -1)]
        out += [(np.array(t), slice(None)) for t in itertools.product(ints(n), repeat=2)] + [(slice(None), list(t)) for t in itertools.product(ints(m), repeat=2)]
        out += [(Ellipsis, j) for j in ints(m)]
    else:
        out += list(itertools.product(*[ints(k) for k in shape]))
        out += [(Ellipsis, j) for j in ints(shape[-1])] + [(i, Ellipsis, j) for i in ints(n) for j in ints(shape[-1])] + [(slice(None), j) for j in ints(shape[1])]
    return out


def keys(case, ctx):
    """one array written again and again under every key, through the array or through the view; every element compared after each write"""
    _, nd, chain, tier = case
    w = W(nd, chain)
    I = w.idx[-1] if chain else np.arange(w.n.size).reshape(w.n.shape)
    if I.size == 0:
        return
    target = w.v[-1] if chain else w.a
    top = [w.ya] + ([w.yv] if chain else [])
    c = 100.
    for vn in (('scalar', 'full') if len(chain) < 2 or tier == 'thorough' else ('full',)):
        for kk in all_keys(I.shape, tier):
            sel = I[kk]
            if np.size(sel) == 0 and vn == 'full':
                continue
            tag = 'a %s, view %s, all keys in turn: target[%s] = %s' % (BASE[nd], ' then '.join(chain) or '-', kk, vn)
            ctx.hist(tag); ctx.state(nd, tuple(chain), str(kk), vn)
            c += 1.
            if vn == 'full' and len(set(np.ravel(sel))) < np.size(sel):
                continue
            v = c if vn == 'scalar' or np.ndim(sel) == 0 else c + np.arange(np.size(sel)).reshape(np.shape(sel)) / 16.
            for y in top:
                y.r
            flat = w.n.ravel().copy()
            flat[np.ravel(sel)] = np.ravel(v) if np.size(sel) else flat[np.ravel(sel)]
            w.n = flat.reshape(w.n.shape)
            target[kk] = v
            ctx.step()
            key = 'C09|keys|%s|%s|%s' % ('.'.join(chain), str(kk), vn)
            for nm, got, want in [('the array', w.a.r, w.n), ('the caller\'s array', w.given, w.given0), ('sin(array)', w.ya.r, np.sin(w.n))] + ([('the view', w.v[-1].r, w.n.ravel()[w.idx[-1]]), ('square(view)', w.yv.r, w.n.ravel()[w.idx[-1]] ** 2)] if chain else []):
                got = np.asarray(got)
                ctx.seen(nm, got.tobytes())
                if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
                    return ctx.fail(key + '|' + nm, '%s: %s is %s, reference %s' % (tag, nm, summ(got), summ(want)))
