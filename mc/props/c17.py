"""C17: independent expressions in one process do not influence each other."""
from oracle import *
from core import child, collect
import userops, gc, pickle, copy as _copy, io, contextlib
from chumpy.ch import ChLambda
ID = 'C17'
RULE = ('baseline: value and Jacobians of each of the subject expressions (every operation of the library, with shapes that collide in size, in shape or in broadcasting pattern), each in a process of its own that does nothing else; '
        'then every ordered pair of subjects x several interleavings of their construction, evaluation, differentiation and input change in one process (all interleavings for pairs of the same family, also on shared inputs), every result compared with the baseline; '
        'every subject x every process-wide activity (optimizers, copying, compaction, queries) in between; all histories of defining, using and dropping classes that share a name, inherit, or collide; '
        'every configuration of every operation of a family (the tables of C05-C08), one after the other in one process, forwards and backwards, against NumPy and complex steps; inputs, caller arrays and parameters compared bit for bit after every evaluation; attempts to write into every returned value')
ASSUMPTIONS = ['a process that evaluates one expression only is the reference for that expression (its correctness is the matter of C01-C09)', 'arrays of up to 12 elements']
CHUNKS = 32

g22 = lambda k: vals((2, 2), k) * .4 + 2 * np.eye(2)
g33 = lambda k: vals((3, 3), k) * .4 + 2 * np.eye(3)
MA, MB = vals((2, 3), 5), sp.csc_matrix(vals((2, 3), 8))
IX1, IX2 = np.array([0, 2]), np.array([2, 0])
IM = np.arange(27.).reshape(3, 3, 3) ** 1.3
S = []


def s(name, fam, shapes, f, dom='any', arrs=None, par=()):
    S.append(dict(name=name, fam=fam, shapes=[tuple(x) for x in shapes], f=f, dom=dom, arrs=arrs, par=list(par)))


def _table():
    B = [((3,), (3,)), ((3,), (1,)), ((1,), (3,)), ((2, 3), (3,)), ((2, 3), (2, 1)), ((3, 2), (2,)), ((6,), (1,)), ((2, 3), (2, 3)), ((3, 2), (3, 2)), ((6,), (6,)),
         ((1, 3), (3, 1)), ((3, 1), (1, 3)), ((1,), (1,)), ((1, 1), (1,)), ((3, 1), (3,)), ((2, 1), (1, 3)), ((2, 1), (2, 3))]
    for i, (x, y) in enumerate(B):
        s('add%s%s' % (x, y), 'bc', (x, y), lambda a, b: a + b)
        s('mul%s%s' % (x, y), 'bc', (x, y), lambda a, b: a * b)
        if i in (0, 1, 2, 4, 9, 10):
            s('sub%s%s' % (x, y), 'bc', (x, y), lambda a, b: a - b)
            s('div%s%s' % (x, y), 'bc', (x, y), lambda a, b: a / b, 'pos')
            s('pow%s%s' % (x, y), 'bc', (x, y), lambda a, b: a ** b, 'pos')
            s('maximum%s%s' % (x, y), 'bc', (x, y), lambda a, b: ch.maximum(a, b))
    s('add same', 'bc', [(3,)], lambda a: a + a)
    s('mul same', 'bc', [(3,)], lambda a: a * a)
    s('pow same', 'bc', [(3,)], lambda a: a ** a, 'pos')
    s('add const', 'bc', [(3,)], lambda a: a + 2.)
    s('const sub', 'bc', [(3,)], lambda a: 2. - a)
    s('pow const', 'bc', [(3,)], lambda a: a ** 3, 'pos')
    s('nandivide', 'bc', [(3,), (3,)], lambda a, b: ch.NanDivide(a, b))
    for n in ('sin', 'exp', 'sqrt', 'log', 'absolute', 'negative', 'nan_to_num'):
        s(n, 'un', [(3,)], (lambda n: lambda a: getattr(ch, n)(a))(n), 'pos')
    s('sin1', 'un', [(1,)], lambda a: ch.sin(a))
    s('cos6', 'un', [(2, 3)], lambda a: ch.cos(a))
    s('clip', 'un', [(2, 3)], lambda a: ch.clip(a, -.5, .8))
    s('clip2', 'un', [(2, 3)], lambda a: ch.clip(a, -1.5, .1))
    for n in ('sum', 'mean', 'max', 'nanmin'):
        for sh, ax in (((2, 3), 0), ((2, 3), 1), ((3, 2), 0), ((3, 2), -1), ((2, 3), None), ((6,), 0)):
            s('%s%s%s' % (n, sh, ax), 'red', [sh], (lambda n, ax: lambda a: getattr(ch, n)(a, axis=ax))(n, ax))
    s('cumsum', 'red', [(3,)], lambda a: ch.cumsum(a))
    s('ssq', 'red', [(2, 3)], lambda a: ch.SumOfSquares(a))
    s('var', 'red', [(2, 3)], lambda a: ch.var(a, axis=0))
    s('T', 're', [(2, 3)], lambda a: a.T)
    s('T2', 're', [(3, 2)], lambda a: a.T)
    s('transpose', 're', [(1, 2, 3)], lambda a: a.transpose((1, 0, 2)))
    s('transpose2', 're', [(1, 2, 3)], lambda a: a.transpose((2, 0, 1)))
    s('reshape', 're', [(2, 3)], lambda a: a.reshape((3, 2)))
    s('reshape2', 're', [(2, 3)], lambda a: a.reshape((6, 1)))
    s('ravel', 're', [(2, 3)], lambda a: a.ravel())
    s('sel', 're', [(3,)], lambda a: a[IX1], par=[IX1])
    s('sel2', 're', [(3,)], lambda a: a[IX2], par=[IX2])
    s('sel3', 're', [(2, 3)], lambda a: a[:, 1])
    s('sel4', 're', [(2, 3)], lambda a: a[1])
    s('sel5', 're', [(2, 3)], lambda a: a[::-1, ::2])
    s('roll', 're', [(2, 3)], lambda a: ch.roll(a, 1, 1))
    s('roll2', 're', [(2, 3)], lambda a: ch.roll(a, 1, 0))
    s('roll3', 're', [(2, 3)], lambda a: ch.roll(a, 2, 1))
    s('rollaxis', 're', [(1, 2, 3)], lambda a: ch.rollaxis(a, 2, 0))
    s('swapaxes', 're', [(1, 2, 3)], lambda a: ch.swapaxes(a, 0, 1))
    s('rot90', 're', [(2, 3)], lambda a: ch.rot90(a))
    s('tile', 're', [(2, 3)], lambda a: ch.tile(a, (2, 1)))
    s('tile2', 're', [(2, 3)], lambda a: ch.tile(a, (1, 2)))
    s('repeat', 're', [(2, 3)], lambda a: ch.repeat(a, 2, 0))
    s('repeat2', 're', [(2, 3)], lambda a: ch.repeat(a, 2, 1))
    s('sort', 're', [(2, 3)], lambda a: ch.sort(a))
    s('diag', 're', [(3,)], lambda a: ch.diag(a))
    s('squeeze', 're', [(1, 2, 3)], lambda a: ch.squeeze(a))
    s('atleast_3d', 're', [(2, 3)], lambda a: ch.atleast_3d(a))
    s('cat', 'st', [(3,), (3,)], lambda a, b: ch.concatenate((a, b)))
    s('cat2', 'st', [(3,), (3,)], lambda a, b: ch.concatenate((b, a)))
    s('cat3', 'st', [(2, 3), (2, 3)], lambda a, b: ch.concatenate((a, b), axis=0))
    s('cat4', 'st', [(2, 3), (2, 3)], lambda a, b: ch.concatenate((a, b), axis=1))
    s('cat5', 'st', [(3,), (3,)], lambda a, b: ch.concatenate((a, b, a)))
    s('hstack', 'st', [(2, 3), (2, 1)], lambda a, b: ch.hstack((a, b)))
    s('vstack', 'st', [(3,), (3,)], lambda a, b: ch.vstack((a, b)))
    s('dstack', 'st', [(3,), (3,)], lambda a, b: ch.dstack((a, b)))
    s('dot', 'la', [(2, 3), (3, 2)], lambda a, b: a.dot(b))
    s('dot2', 'la', [(2, 3), (3,)], lambda a, b: a.dot(b))
    s('dot3', 'la', [(3,), (3,)], lambda a, b: a.dot(b))
    s('dot4', 'la', [(3, 2), (2, 3)], lambda a, b: a.dot(b))
    s('mvm', 'la', [(3,)], lambda a: ch.MatVecMult(mtx=MA, vec=a), par=[MA])
    s('mvm2', 'la', [(3,)], lambda a: ch.MatVecMult(mtx=MB, vec=a), par=[MB.data])
    s('cross', 'la', [(2, 3), (2, 3)], lambda a, b: ch.cross(a, b))
    s('inv', 'la', [(2, 2)], lambda a: ch.linalg.inv(a), arrs=lambda k: [g22(k)])
    s('inv3', 'la', [(3, 3)], lambda a: ch.linalg.inv(a), arrs=lambda k: [g33(k)])
    s('det', 'la', [(2, 2)], lambda a: ch.linalg.det(a), arrs=lambda k: [g22(k)])
    s('slogdet', 'la', [(2, 2)], lambda a: ch.linalg.slogdet(a)[1], arrs=lambda k: [g22(k)])
    s('slogdet sign', 'la', [(2, 2)], lambda a: ch.linalg.slogdet(a)[0], arrs=lambda k: [-g22(k)])
    s('pinv', 'la', [(3, 2)], lambda a: ch.linalg.pinv(a))
    s('pinv2', 'la', [(2, 3)], lambda a: ch.linalg.pinv(a))
    s('svd u', 'la', [(3, 2)], lambda a: ch.linalg.svd(a)[0])
    s('svd d', 'la', [(3, 2)], lambda a: ch.linalg.svd(a)[1])
    s('svd v', 'la', [(2, 3)], lambda a: ch.linalg.svd(a)[2])
    s('lstsq', 'la', [(3, 2), (3,)], lambda a, b: ch.linalg.lstsq(a, b)[0])
    s('norm', 'la', [(3,)], lambda a: ch.linalg.norm(a))
    s('interp', 'us', [(2, 3)], lambda a: ch.extras.Interp3D(locations=a, image=IM), 'pos', par=[IM])
    s('interp2', 'us', [(2, 3)], lambda a: ch.extras.Interp3D(locations=a, image=IM[::-1]), 'pos', par=[IM])
    s('gamma', 'us', [(3,)], lambda a: ch.extras.gamma(a), 'pos')
    s('moment', 'us', [(2, 3)], lambda a: ch.extras.moment(a, 3, 0))
    s('lambda', 'us', [(3,), (3,)], lambda a, b: _bind(ch.Ch(lambda x, y: x * y + x), x=a, y=b))
    s('lambda2', 'us', [(3,), (3,)], lambda a, b: _bind(ch.Ch(lambda y, x: x - y * y), x=a, y=b))
    s('lambda3', 'us', [(3,), (2,)], lambda a, b: _bind(ch.Ch(lambda p, q: ch.concatenate((p, q * q))), p=a, q=b))
    s('scaled', 'us', [(3,), (3,)], lambda a, b: userops.Scaled(a=a, b=b, k=3.))
    s('scaled2', 'us', [(3,), (3,)], lambda a, b: userops.Scaled(a=a, b=b, k=.5))
    s('notified', 'us', [(3,)], lambda a: userops.Notified(a=a, n=3))
    s('floor', 'us', [(3,)], lambda a: ch.floor(a * 3.))
    s('isnan', 'us', [(3,)], lambda a: ch.isnan(a))
    s('greater', 'us', [(3,), (3,)], lambda a, b: a > b)
    s('eye', 'us', [(3, 3)], lambda a: ch.eye(3) * a)
    s('graph', 'us', [(3,), (1,)], lambda a, b: ch.sum(ch.sin(a * b) + (a * b) ** 2.) * a)
    s('dense', 'us', [(3,), (1,)], lambda a, b: ch.multiply(a=a * 2., b=b, make_dense=True))
    s('sparse', 'us', [(3,), (3,)], lambda a, b: ch.multiply(a=a * 2., b=b, make_sparse=True))


def _bind(n, **k):
    n.set(**k)
    return n


_table()
IDX = dict((x['name'], i) for i, x in enumerate(S))
assert len(IDX) == len(S)


def data(x, k):
    if x['arrs']:
        return [np.array(a) for a in x['arrs'](k)]
    return [vals(sh, k + 3 * i, x['dom']) for i, sh in enumerate(x['shapes'])]


def observe(node, leaves):
    v = np.array(node.r, dtype=np.float64)
    js = [dense(node.dr_wrt(l), v.size, l.r.size) for l in leaves]
    return v, js


def baseline(i):
    x = S[i]
    out = []
    arrs = data(x, 0)
    leaves = [ch.Ch(a.copy()) for a in arrs]
    node = x['f'](*leaves)
    for k in (0, 5):
        if k:
            for l, a in zip(leaves, data(x, k)):
                l.x = a.copy()
        v, js = observe(node, leaves)
        out.append(dict(v=v.ravel().tolist(), vs=list(v.shape), js=[j.ravel().tolist() for j in js], jss=[list(j.shape) for j in js]))
    return out


BASE = {}


def load(i):
    return [(np.array(b['v']).reshape(b['vs']), [np.array(j).reshape(sh) for j, sh in zip(b['js'], b['jss'])]) for b in BASE[i]]


def make_baselines():
    pend = []
    for i in range(len(S)):
        pend.append((i, child(lambda i=i: baseline(i))))
        if len(pend) >= 8:
            j, c = pend.pop(0)
            BASE[j] = collect(c)
    for j, c in pend:
        BASE[j] = collect(c)


INTER = ['AaDBbdCc', 'ABabdDCc', 'ABbdaDcC', 'BAdDbaCc']     # A,B: build; a,b: value; D,d: Jacobians; C,c: change the inputs, observe all
LITE = ['ADBdCc', 'ABdDcC']


def interleavings():
    out = []
    for pos in itertools.combinations(range(8), 4):
        a, b = iter('AaDC'), iter('Bbdc')
        out.append(''.join(next(a) if i in pos else next(b) for i in range(8)))
    return out


def cases(tier):
    if not BASE:
        make_baselines()
    out = []
    n = len(S)
    for i in range(n):
        out.append(['row', i, 0 if tier == 'quick' else 1])
        out.append(['self', i, tier])
        out.append(['act', i, tier])
    for nm, sub in sorted(CLASSES.items()):
        al = class_events(nm)
        for i in range(len(al)):
            out.append(['cls', nm, i, 4 if tier == 'quick' else 5])
    if tier == 'thorough':
        for i in range(n):
            out.append(['fresh', i])
    # long ones first
    return [['crowd', k, d] for k in sorted(CROWD) for d in (0, 1)] + out


def run(case, ctx):
    if not BASE:
        make_baselines()
    kind = case[0]
    if kind == 'row':
        row_(case[1], case[2], ctx)
    elif kind == 'self':
        immut(case[1], ctx)
    elif kind == 'act':
        acts(case[1], ctx)
    elif kind == 'cls':
        classes(case[1], case[2], case[3], ctx)
    elif kind == 'crowd':
        crowd(case[1], case[2], ctx)
    elif kind == 'fresh':
        i = case[1]
        for j in range(len(S)):
            def fn(j=j):
                from core import Ctx
                c = Ctx(cap=10 ** 9)
                pair(i, j, INTER[0], False, c)
                return [[f['key'], f['msg']] for f in c.fails]
            r = collect(child(fn))
            ctx.hist(); ctx.step(); ctx.state('fresh', i, j)
            for k, m in r if r is not None else [['C17|died', 'process died: %s, %s' % (S[i]['name'], S[j]['name'])]]:
                ctx.fail(k, m)


# every configuration (shapes, parameters, operand forms) of every operation of a family, one after the other in one process
CROWD = {'elementwise': ('c05', ('un', 'same')), 'binary': ('c05', ('bin',)), 'reductions': ('c06', ('ax', 'noax', 'moment')), 'reorderings': ('c07', ('re',)),
         'indexing and stacking': ('c07', ('idx', 'cat', 'stk', 'nested')), 'linear algebra': ('c08', ('dot', 'td', 'dotsame', 'cross', 'mvm', 'inv', 'det', 'slogdetn', 'pinv'))}


def crowd(k, backwards, ctx):
    import sweep
    m, kinds = CROWD[k]
    cs = [c for c in sweep.sweep_cases('C03', 'quick') if c[1] == m and c[2][0] in kinds]
    for c in cs[::-1] if backwards else cs:
        sweep.run_sweep('C03', c, ctx)


def row_(i, deep, ctx):
    for j in range(len(S)):
        same = S[i]['fam'] == S[j]['fam']
        for il in (interleavings() if deep and same else INTER if (same and (j - i) % len(S) < 9) or deep else LITE[:1] if same or deep else ['ADBdD']):
            pair(i, j, il, False, ctx)
        if S[i]['shapes'] == S[j]['shapes'] and not S[i]['arrs'] and not S[j]['arrs'] and S[i]['dom'] == S[j]['dom']:
            pair(i, j, INTER[1], True, ctx)


def cmp_(ctx, what, hist, got, want):
    v, js = got
    wv, wjs = want
    ctx.seen(what, v.tobytes())
    if v.shape != wv.shape or not np.allclose(v, wv, rtol=1e-9, atol=1e-10, equal_nan=True):
        ctx.fail('C17|%s|value' % what, '%s: value of %s is %s %s, in a process of its own %s %s' % (hist, what, v.shape, summ(v), wv.shape, summ(wv)))
    for k, (a, b) in enumerate(zip(js, wjs)):
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-8, atol=1e-9, equal_nan=True):
            ctx.fail('C17|%s|jac' % what, '%s: Jacobian %d of %s is %s %s, in a process of its own %s %s' % (hist, k, what, a.shape, summ(a), b.shape, summ(b)))


def pair(i, j, il, shared, ctx):
    """one interleaving of the lives of two expressions"""
    x, y = S[i], S[j]
    ctx.hist([x['name'], y['name'], il, shared]); ctx.state(i, j, il, shared)
    hist = '%s and %s, interleaving %s%s' % (x['name'], y['name'], il, ' on the same inputs' if shared else '')
    bx, by = load(i), load(j)
    ax, ay = data(x, 0), data(y, 0)
    lx = [ch.Ch(a) for a in ax]
    ly = lx if shared else [ch.Ch(a) for a in ay]
    o = {}
    ch_ = [0]
    for e in il:
        ctx.step()
        if e == 'A': o['A'] = x['f'](*lx)
        elif e == 'B': o['B'] = y['f'](*ly)
        elif e == 'a': o['A'].r
        elif e == 'b': o['B'].r
        elif e == 'D': cmp_(ctx, x['name'], hist, observe(o['A'], lx), bx[ch_[0] if shared else 0])
        elif e == 'd': cmp_(ctx, y['name'], hist, observe(o['B'], ly), by[ch_[0] if shared else 0])
        elif e == 'C':
            if shared:
                ch_[0] = 1
            for l, a in zip(lx, data(x, 5)):
                l.x = a
            cmp_(ctx, x['name'], hist + ' (changed)', observe(o['A'], lx), bx[1])
        elif e == 'c':
            if 'd' in il:      # unchanged so far: the earlier results still stand
                if not shared:
                    cmp_(ctx, y['name'], hist + ' (again)', observe(o['B'], ly), by[0])
            if shared:
                ch_[0] = 1
            for l, a in zip(ly, data(y, 5)):
                l.x = a
            cmp_(ctx, y['name'], hist + ' (changed)', observe(o['B'], ly), by[1])
    if not shared:
        for a, b in zip(ax + ay, data(x, 0) + data(y, 0)):
            if a.tobytes() != b.tobytes():
                ctx.fail('C17|%s|caller' % x['name'], '%s: the arrays the inputs were made from have been modified' % hist)


# ---------------------------------------------------------------- nothing is modified by evaluating, nor through what is returned
def immut(i, ctx):
    x = S[i]
    base = load(i)
    for lay in ('C', 'F', 'offset'):
        for mode in ('fwd', 'rev', 'lop', 'grad'):
            ctx.hist([x['name'], lay, mode]); ctx.step(); ctx.state('immut', i, lay, mode)
            arrs = data(x, 0)
            if lay == 'F':
                arrs = [np.asfortranarray(a) for a in arrs]
            elif lay == 'offset':
                arrs = [np.concatenate((np.zeros(2), a.ravel(), np.ones(3)))[2:2 + a.size].reshape(a.shape) for a in arrs]
            snap = [a.tobytes() for a in arrs]
            whole = [None if a.base is None else a.base.tobytes() for a in arrs]
            psnap = [p.tobytes() for p in x['par']]
            leaves = [ch.Ch(a) for a in arrs]
            node = x['f'](*leaves)
            hist = '%s on %s-ordered input, %s' % (x['name'], lay, mode)

            def intact(when):
                for k, (a, l) in enumerate(zip(arrs, leaves)):
                    if a.tobytes() != snap[k] or (whole[k] is not None and a.base.tobytes() != whole[k]):
                        ctx.fail('C17|%s|caller' % x['name'], '%s: the array given for input %d was modified %s: %s' % (hist, k, when, summ(a)))
                    if np.array(l.r).tobytes() != np.frombuffer(snap[k]).tobytes():
                        ctx.fail('C17|%s|input' % x['name'], '%s: input %d was modified %s: %s' % (hist, k, when, summ(l.r)))
                for p, b in zip(x['par'], psnap):
                    if p.tobytes() != b:
                        ctx.fail('C17|%s|param' % x['name'], '%s: a parameter array was modified %s' % (hist, when))
            v = node.r
            if mode == 'fwd':
                for l in leaves: node.dr_wrt(l)
            elif mode == 'rev':
                for l in leaves: node.dr_wrt(l, reverse_mode=True)
            elif mode == 'lop':
                L = vals((2, v.size), 3); L0 = L.tobytes()
                for l in leaves: node.lop(l, L)
                if L.tobytes() != L0:
                    ctx.fail('C17|%s|lhs' % x['name'], '%s: the left-hand matrix was modified' % hist)
            else:
                for l in leaves: ch.SumOfSquares(node).dr_wrt(l)
            intact('by evaluation')
            # attempts to write into what was returned
            for nm, get in (('value', lambda: node.r), ('reshaped value', lambda: node.r.reshape(-1)), ('flat value', lambda: node.r.flat),
                            ('array conversion', lambda: np.asarray(node)), ('part of the value', lambda: node.r[:1])) + tuple(('value of input', (lambda l: lambda: l.r)(l)) for l in leaves):
                try:
                    w = get()
                    w[...] = 77.
                except (ValueError, TypeError, IndexError):
                    pass
                ctx.seen(nm)
                intact('by writing into the %s' % nm)
                cmp_(ctx, x['name'], '%s, after writing into the %s' % (hist, nm), observe(node, leaves), base[0])
                # nor may what was written ever come back after the inputs change to and fro
            for nm, op in (('in-place addition', lambda w: w.__iadd__(5.)), ('in-place sort', lambda w: w.sort()), ('fill', lambda w: w.fill(3.))):
                for t in [node] + leaves:
                    try:
                        op(t.r)
                    except (ValueError, TypeError):
                        pass
                    intact('by %s on a returned value' % nm)
                    v2 = np.array(node.r)
                    if v2.shape != base[0][0].shape or not np.allclose(v2, base[0][0], equal_nan=True):
                        ctx.fail('C17|%s|written' % x['name'], '%s: %s on a returned value changed the expression to %s' % (hist, nm, summ(v2)))
            for l, a in zip(leaves, data(x, 5)):
                l.x = a
            cmp_(ctx, x['name'], hist + ' (changed afterwards)', observe(node, leaves), base[1])


# ---------------------------------------------------------------- other activities
def act_min(method):
    def f():
        a, b = ch.Ch(vals((3,), 1)), ch.Ch(vals((1,), 2))
        ch.minimize({'e': a * b - 1., 'f': a[IX1] * 2.}, x0=[a, b], method=method, options={'maxiter': 3})
    return f


def act_pickle():
    a, b = ch.Ch(vals((2, 3))), ch.Ch(vals((3,)))
    y = ch.sum(a * b, axis=0) + a[1]
    z = pickle.loads(pickle.dumps(y)); z.r
    z = _copy.deepcopy(y); z.r
    ch.copy(y).r


def act_graph():
    a, b = ch.Ch(vals((2, 3))), ch.Ch(vals((3,)))
    y = ch.sin(a * b) + a * b
    y.remove_redundancy() if hasattr(y, 'remove_redundancy') else None
    y.r
    list(y.tree_iterator())
    y.is_dr_wrt(a)
    y.replace(b, ch.Ch(vals((3,), 4)))
    y.r


def act_show():
    a, b = ch.Ch(vals((2, 3))), ch.Ch(vals((3,)))
    y = ch.sin(a * b) + a.T.T
    y.r; y.dr_wrt(a)
    a.label = 'a'
    str(y); repr(y)
    y.J_for if hasattr(y, 'J_for') else None


def act_views():
    a = ch.Ch(vals((2, 3)))
    v = a[0]; v[:] = 3.; a.T[1] = 4.; a.ravel()[2] = -1.
    (v * 2.).r; a[:, 1].dr_wrt(a)


def act_errors():
    for f in (lambda: (ch.Ch(vals((3,))) + ch.Ch(vals((2,)))).r, lambda: ch.Ch(vals((3,))).dot(ch.Ch(vals((2,)))).dr_wrt(None), lambda: ch.linalg.inv(ch.Ch(np.zeros((2, 2)))).r,
              lambda: ch.sum(ch.Ch(vals((3,))), axis=3).r, lambda: ch.concatenate((ch.Ch(vals((3,))), ch.Ch(vals((2, 2))))).r, lambda: ch.Ch(vals((3,)))[7].r):
        try:
            f()
        except Exception:
            pass
    a, b = ch.Ch(vals((3,))), ch.Ch(vals((2,)))
    for f in (lambda x, y: x * y, lambda x, y: x + y, lambda x, y: x ** y, lambda x, y: ch.maximum(x, y)):
        try:
            f(a, b).dr_wrt(a)
        except Exception:
            pass


def act_resize():
    a, b = ch.Ch(vals((3,))), ch.Ch(vals((3,), 2))
    ys = [a * b, ch.sum(a), ch.concatenate((a, b)), a[IX1], ch.roll(a, 1), a.T, ch.cumsum(a)]
    for sh in ((3,), (4,), (6,)):
        a.x, b.x = vals(sh, 3), vals(sh, 4)
        for y in ys:
            y.r; y.dr_wrt(a)


def act_sub():
    class multiply(ch.Ch):           # same name as an operation of the library
        dterms = 'p', 'a'
        terms = 'axis'
        def compute_r(self): return self.p.r + 100.
        def compute_dr_wrt(self, wrt): return None
    class sum(ch.Ch):
        dterms = 'axis', 'x'
        def compute_r(self): return self.x.r * 0.
        def compute_dr_wrt(self, wrt): return None
    class sort(ch.cumsum):
        term_order = "axis", "a"
    class add(ch.add):
        dterms = 'b', 'a'
        terms = 'extra'
    multiply(p=vals((3,)), a=vals((3,)), axis=1).r
    sum(vals((3,)), vals((3,))).r
    sort(None, ch.Ch(vals((2, 3)))).r
    add(extra=1, a=vals((3,)), b=vals((3,))).r


ACTS = [('dogleg', act_min('dogleg')), ('bfgs', act_min('BFGS')), ('copying', act_pickle), ('graph', act_graph), ('printing', act_show), ('views', act_views),
        ('failed evaluations', act_errors), ('resizing', act_resize), ('classes', act_sub)]


def acts(i, ctx):
    x = S[i]
    base = load(i)
    for nm, f in ACTS:
        for when in ('before', 'between'):
            ctx.hist([x['name'], nm, when]); ctx.step(); ctx.state('act', i, nm, when)
            hist = '%s with %s %s' % (x['name'], nm, when)
            with contextlib.redirect_stdout(io.StringIO()):
                if when == 'before': f()
                leaves = [ch.Ch(a) for a in data(x, 0)]
                node = x['f'](*leaves)
                if when == 'between':
                    cmp_(ctx, x['name'], hist, observe(node, leaves), base[0])
                    f()
            cmp_(ctx, x['name'], hist, observe(node, leaves), base[0])
            for l, a in zip(leaves, data(x, 5)):
                l.x = a
            cmp_(ctx, x['name'], hist + ' (changed)', observe(node, leaves), base[1])


# ---------------------------------------------------------------- user classes that share a name or inherit
def mkclass(k, parent=None):
    from chumpy import Ch, depends_on
    P = parent or Ch
    if k == 'one':
        class Dyn(P):
            dterms = 'x'
            def compute_r(self): return self.x.r * 2.
            def compute_dr_wrt(self, wrt): return sp.eye(self.x.size) * 2. if wrt is self.x else None
        return Dyn, lambda C, a, b: C(a), lambda a, b: a * 2., (2., 0.)
    if k == 'two':
        class Dyn(P):
            dterms = 'p', 'x'
            def compute_r(self): return self.p.r - 3. * self.x.r
            def compute_dr_wrt(self, wrt):
                return sp.eye(self.x.size) * (1. if wrt is self.p else -3.) if wrt is self.p or wrt is self.x else None
        return Dyn, lambda C, a, b: C(a, b), lambda a, b: a - 3. * b, (1., -3.)
    if k == 'swapped':
        class Dyn(P):
            dterms = 'x', 'p'
            def compute_r(self): return self.p.r * 5. + self.x.r
            def compute_dr_wrt(self, wrt):
                return sp.eye(self.x.size) * (5. if wrt is self.p else 1.) if wrt is self.p or wrt is self.x else None
        return Dyn, lambda C, a, b: C(a, b), lambda a, b: b * 5. + a, (1., 5.)
    if k == 'param':
        class Dyn(P):
            terms = 'k'
            dterms = 'x',
            def compute_r(self): return self.x.r * self.k
            def compute_dr_wrt(self, wrt): return sp.eye(self.x.size) * self.k if wrt is self.x else None
        return Dyn, lambda C, a, b: C(7., a), lambda a, b: a * 7., (7., 0.)
    if k == 'derived':
        class Dyn(P):
            dterms = 'x', 'y'
            @depends_on('x', 'y')
            def total(self): return self.x.r + 2. * self.y.r
            def compute_r(self): return self.total * 1.
            def compute_dr_wrt(self, wrt):
                return sp.eye(self.x.size) * (1. if wrt is self.x else 2.) if wrt is self.x or wrt is self.y else None
        return Dyn, lambda C, a, b: C(a, b), lambda a, b: a + 2. * b, (1., 2.)
    if k == 'derived2':
        class Dyn(P):
            dterms = 'x', 'y'
            @depends_on('y')
            def total(self): return 4. * self.y.r
            def compute_r(self): return self.total + self.x.r
            def compute_dr_wrt(self, wrt):
                return sp.eye(self.x.size) * (1. if wrt is self.x else 4.) if wrt is self.x or wrt is self.y else None
        return Dyn, lambda C, a, b: C(y=b, x=a), lambda a, b: a + 4. * b, (1., 4.)
    if k == 'ordered':
        class Dyn(P):
            dterms = 'x', 'y'
            term_order = 'y', 'x'
            def compute_r(self): return self.y.r - 2. * self.x.r
            def compute_dr_wrt(self, wrt):
                return sp.eye(self.x.size) * (-2. if wrt is self.x else 1.) if wrt is self.x or wrt is self.y else None
        return Dyn, lambda C, a, b: C(b, a), lambda a, b: b - 2. * a, (-2., 1.)
    if k == 'named':
        class Dyn(P):
            terms = 'name'
            dterms = 'x', 'p'
            def compute_r(self): return self.p.r * 5. + self.x.r * (1. if self.name == 'u' else 9.)
            def compute_dr_wrt(self, wrt):
                return sp.eye(self.x.size) * (5. if wrt is self.p else 1.) if wrt is self.p or wrt is self.x else None
        return Dyn, lambda C, a, b: C('u', a, b), lambda a, b: b * 5. + a, (1., 5.)


CLASSES = {'same name A': ['one', 'two', 'swapped'], 'same name B': ['param', 'derived', 'derived2'], 'same name C': ['ordered', 'named', 'one'],
           'inherit A': ['one', 'one>two', 'one>param'], 'inherit B': ['two', 'two>swapped', 'two>named'], 'inherit C': ['derived', 'derived>derived2', 'derived>one'],
           'inherit D': ['ordered', 'ordered>two', 'ordered>two>one'] }


def class_events(nm):
    ks = CLASSES[nm]
    return [(e, k) for k in ks for e in ('use', 'keep', 'kw')] + [('again', None), ('gc', None)]


def classes(nm, first, depth, ctx):
    """every sequence of: define and use a class (dropping it or keeping the instance), use kept ones again, collect garbage"""
    al = class_events(nm)
    ks = CLASSES[nm]
    if 'inherit' not in nm:
        al = [e for e in al if e[0] != 'kw']
        if first >= len(al):
            return
    for rest in itertools.product(range(len(al)), repeat=depth - 2):
        seq = [al[first]] + [al[i] for i in rest] + [('again', None)]
        if any(seq[t][0] == 'gc' and seq[t - 1][0] in ('gc',) for t in range(1, len(seq))) or seq[0][0] in ('gc', 'again'):
            continue
        ctx.hist([nm, [list(e) for e in seq]]); ctx.state(nm, str(seq))
        defs, kept = {}, []
        for e, k in seq:
            ctx.step()
            if e == 'gc':
                defs.clear() if 'inherit' not in nm else None
                gc.collect()
            elif e == 'again':
                for inst in kept:
                    use(ctx, nm, seq, inst)
            else:
                if 'inherit' in nm:       # one class hierarchy per history
                    C, mk, f, d = getdef(defs, k)
                else:
                    C, mk, f, d = mkclass(k)
                a, b = ch.Ch(vals((3,), 1)), ch.Ch(vals((3,), 2))
                try:
                    if e == 'kw':
                        to = {'one': dict(x=a), 'two': dict(p=a, x=b), 'swapped': dict(x=a, p=b), 'param': dict(k=7., x=a), 'derived': dict(x=a, y=b), 'derived2': dict(x=a, y=b), 'ordered': dict(x=a, y=b),
                              'named': dict(name='u', x=a, p=b)}[k.split('>')[-1]]
                        node = C(**to)
                    else:
                        node = mk(C, a, b)
                    inst = [node, a, b, f, d, k, 0]
                    use(ctx, nm, seq, inst)
                except Exception as ex:
                    ctx.fail('C17|class|%s|%s' % (nm, k), 'classes %s, history %s: %s %s: %s' % (nm, seq, k, type(ex).__name__, ex))
                    continue
                if e == 'keep':
                    kept.append(inst)


def getdef(defs, k):
    if k not in defs:
        if '>' in k:
            pk_, ck = k.rsplit('>', 1)
            P = getdef(defs, pk_)[0]
            r = mkclass(ck, P)
            if ck in ('two', 'swapped', 'one', 'named') and pk_.startswith('ordered'):
                # an order given explicitly is inherited, so is declared again
                r[0].term_order = {'two': ('p', 'x'), 'one': ('x',), 'swapped': ('x', 'p'), 'named': ('name', 'x', 'p')}[ck]
            if ck in ('two', 'one', 'swapped', 'derived', 'derived2'):
                r[0].terms = []
            defs[k] = r
        else:
            defs[k] = mkclass(k)
    return defs[k]


def use(ctx, nm, seq, inst):
    node, a, b, f, d, k, n = inst
    for _ in range(2):
        want = f(a.r, b.r)
        got = node.r
        ctx.seen(k, got.tobytes())
        if got.shape != want.shape or not np.allclose(got, want):
            ctx.fail('C17|class|%s|%s' % (nm, k), 'classes %s, history %s: value of %s is %s, should be %s' % (nm, seq, k, summ(got), summ(want)))
        for l, c in ((a, d[0]), (b, d[1])):
            J = dense(node.dr_wrt(l), 3, 3)
            if not np.allclose(J, np.eye(3) * c):
                ctx.fail('C17|class|%s|%s|jac' % (nm, k), 'classes %s, history %s: Jacobian of %s is %s, should be %s times the identity' % (nm, seq, k, summ(J), c))
        inst[6] += 1
        a.x, b.x = vals((3,), 10 + inst[6]), vals((3,), 20 + inst[6])
