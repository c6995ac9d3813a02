"""C05 elementwise / broadcasting operations."""
import itertools, operator
from oracle import *
from lifecycle import *
import scipy.special
ID = 'C05'
RULE = ('every elementwise operation x every shape (pairs: every ordered broadcast-compatible pair) x operand form '
        '(function, operator, reflected operator with number/array, one object twice) x every history of up to N value/shape changes '
        'with every pattern of reads in between; plus every point (pair) of a grid of special values. '
        'A case is non-trivial if its Jacobian or value differs from every other (distinct_nontrivial counts distinct observations).')
ASSUMPTIONS = ['shapes up to 3 dimensions with extents 1-3', 'derivatives are compared where the function is differentiable and finite']

SH = [(), (1,), (2,), (3,), (1, 1), (1, 3), (2, 1), (2, 3), (3, 1), (1, 2, 1), (2, 1, 3), (2, 3, 1), (1, 1, 1)]
SHT = SH + [(2, 2), (2, 2, 3), (3, 3), (1, 2, 3), (4,), (2, 1, 1), (12,), (1, 12)]

def w(real):
    return lambda x: real(x)

def c_abs(x): return np.where(np.real(x) > 0, x, -x)
def c_clip(x): return np.where(np.real(x) < -0.5, -0.5, np.where(np.real(x) > 0.6, 0.6, x))

UN = {
 'exp': ('any', np.exp, None), 'log': ('pos', np.log, None), 'sin': ('any', np.sin, None), 'cos': ('any', np.cos, None),
 'tan': ('any', np.tan, None), 'arcsin': ('unit', np.arcsin, None), 'arccos': ('unit', np.arccos, None), 'arctan': ('any', np.arctan, None),
 'sqrt': ('pos', np.sqrt, None), 'square': ('any', np.square, None), 'absolute': ('any', np.abs, c_abs), 'abs': ('any', np.abs, c_abs),
 'negative': ('any', np.negative, None), 'reciprocal': ('nz', np.reciprocal, None),
 'nan_to_num': ('any', np.nan_to_num, lambda x: x),
 'clip': ('any', lambda x: np.clip(x, -.5, .6), c_clip),
 'gamma': ('pos', scipy.special.gamma, None),
 'builtin_abs': ('any', np.abs, c_abs), 'neg_op': ('any', np.negative, None), 'pos_op': ('any', lambda x: x, None),
 'pow2': ('any', lambda x: x ** 2, None), 'pow3.0': ('any', lambda x: x ** 3., None), 'pow-1': ('nz', lambda x: x ** -1., None), 'pow.5': ('pos', lambda x: x ** .5, None),
 'pow0': ('any', lambda x: x ** 0., lambda x: x * 0 + 1.), 'pow1': ('any', lambda x: x ** 1., None),
 'rpow2': ('any', lambda x: 2. ** x, None),
}
def build_un(name):
    if name == 'clip': return lambda l, p: ch.clip(l[0], -.5, .6)
    if name == 'gamma': return lambda l, p: ch.extras.gamma(l[0])
    if name == 'builtin_abs': return lambda l, p: operator.abs(l[0])
    if name == 'neg_op': return lambda l, p: -l[0]
    if name == 'pos_op': return lambda l, p: (+l[0]) * 1.
    if name == 'pow2': return lambda l, p: l[0] ** 2
    if name == 'pow3.0': return lambda l, p: l[0] ** 3.
    if name == 'pow-1': return lambda l, p: l[0] ** -1.
    if name == 'pow.5': return lambda l, p: l[0] ** .5
    if name == 'pow0': return lambda l, p: l[0] ** 0.
    if name == 'pow1': return lambda l, p: l[0] ** 1.
    if name == 'rpow2': return lambda l, p: 2. ** l[0]
    return lambda l, p: getattr(ch, name)(l[0])

def c_max(a, b): return np.where(np.real(a) >= np.real(b), a, b)
def c_min(a, b): return np.where(np.real(a) <= np.real(b), a, b)

BIN = {
 'add': (('any', 'any'), np.add, None), 'subtract': (('any', 'any'), np.subtract, None), 'multiply': (('any', 'any'), np.multiply, None),
 'divide': (('any', 'nz'), np.divide, None), 'NanDivide': (('any', 'nz'), np.divide, None),
 'power': (('pos', 'any'), np.power, None),
 'maximum': (('any', 'any'), np.maximum, c_max), 'minimum': (('any', 'any'), np.minimum, c_min),
}
OPR = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': operator.truediv, 'power': operator.pow}
# one object as both operands: (a op a)
def same_ok(name): return True

FORMS = ['fn', 'op', 'num_op', 'op_num', 'arr_op', 'op_arr', 'list_fn']

def cases(tier):
    sh = SHT if tier == 'thorough' else SH
    out = []
    for n in sorted(UN):
        for s in sh:
            out.append(['un', n, list(s)])
    for n in sorted(BIN):
        for s1 in sh:
            for s2 in sh:
                if bcast_ok(s1, s2):
                    out.append(['bin', n, list(s1), list(s2)])
        for s in sh:
            out.append(['same', n, list(s)])
    for n in sorted(OPR):
        for s1 in sh:
            for form in FORMS[1:]:
                for s2 in (sh if form in ('op', 'arr_op', 'op_arr') else [()]):
                    if bcast_ok(s1, s2):
                        out.append(['form', n, form, list(s1), list(s2)])
    for n in sorted(UN):
        out.append(['grid1', n])
    for n in sorted(BIN):
        out.append(['grid2', n])
    for s in sh:
        for lay in LAYOUTS:
            out.append(['layout', lay, list(s)])
    out += [['tour', n] for n in sorted(UN) + sorted(BIN)]
    out += [['tour', n, 'same'] for n in sorted(BIN)]
    for n in ('clip_bounds',):
        for s in sh:
            out.append(['clip', list(s)])
    return [c + [tier] for c in out]

def depth(tier): return 2 if tier == 'thorough' else 1

def other(s):
    """another shape with the same broadcasting role"""
    if s == (): return (2,)
    return tuple(3 if d == 2 else 2 if d == 3 else d for d in s) if any(d in (2, 3) for d in s) else tuple(list(s[:-1]) + [2])

def other2(s1, s2):
    o1, o2 = (tuple({2: 3, 3: 2}.get(d, d) for d in s) for s in (s1, s2))
    if (o1, o2) == (s1, s2):
        return (s1, tuple(list(s2) + [2]) if len(s2) else (2,))
    return o1, o2

GRID = np.array([-3., -2., -1., -.5, 0., .5, 1., 2., 3.])
GRIDX = np.array([-np.inf, -1e200, -2., -1., -.5, -1e-200, 0., 1e-200, .5, 1., 2., 1e200, np.inf, np.nan])

LAYOUTS = ['C', 'F', 'strided', 'neg', 'int', 'f32', 'list', 'bool', 'scalar0d']

def run(case, ctx):
    kind, tier = case[0], case[-1]
    nch = depth(tier)
    if kind == 'un':
        n, s = case[1], tuple(case[2])
        dom, f, cf = UN[n]
        s2 = other(s)
        op = OpCase('C05|%s' % n, build_un(n), f, cf)
        cfgs = [([vals(s, 0, dom)], {}), ([vals(s, 5, dom)], {}), ([vals(s2, 2, dom)], {})]
        run_histories(ctx, op, cfgs, nch)
    elif kind == 'bin':
        n, s1, s2 = case[1], tuple(case[2]), tuple(case[3])
        (d1, d2), f, cf = BIN[n]
        t1, t2 = other2(s1, s2)
        op = OpCase('C05|%s' % n, lambda l, p: getattr(ch, n)(l[0], l[1]), f, cf)
        cfgs = [([vals(s1, 0, d1), vals(s2, 9, d2)], {}), ([vals(s1, 4, d1), vals(s2, 13, d2)], {}), ([vals(t1, 2, d1), vals(t2, 7, d2)], {})]
        run_histories(ctx, op, cfgs, nch, patterns=('r', 'dr', 'both') if tier == 'quick' else PATTERNS)
    elif kind == 'same':
        n, s = case[1], tuple(case[2])
        (d1, d2), f, cf = BIN[n]
        d = d2 if d1 == 'any' else d1
        s2 = other(s)
        if n == 'maximum' or n == 'minimum':
            f, cf = (lambda a, b: a), None
        op = OpCase('C05|%s_same' % n, lambda l, p: getattr(ch, n)(l[0], l[0]), f, cf, same=True)
        cfgs = [([vals(s, 0, d)] * 2, {}), ([vals(s, 5, d)] * 2, {}), ([vals(s2, 2, d)] * 2, {})]
        run_histories(ctx, op, cfgs, nch)
    elif kind == 'form':
        n, form, s1, s2 = case[1], case[2], tuple(case[3]), tuple(case[4])
        (d1, d2), f, cf = BIN[n]
        o = OPR[n]
        a1, b1 = vals(s1, 0, d1), vals(s1, 1, d1)
        ctx.state(*map(str, case)); ctx.hist(case); ctx.step()
        if form == 'op':
            la, lb = ch.Ch(vals(s1, 0, d1)), ch.Ch(vals(s2, 3, d2))
            op = OpCase('C05|%s|op' % n, None, f, cf)
            node = o(la, lb)
            full_check(ctx, op, node, [la, lb], 0, ([vals(s1, 0, d1), vals(s2, 3, d2)], {}), str(case))
            la.x = vals(s1, 6, d1)
            full_check(ctx, op, node, [la, lb], 1, ([vals(s1, 6, d1), vals(s2, 3, d2)], {}), str(case))
            return
        if form in ('op_num', 'num_op'):
            for c in (2., 3, 0.5, np.float64(1.5), -1., np.int64(2), True):
                if n == 'power' and form == 'num_op' and c < 0: continue
                left = form == 'op_num'
                dom = d1 if left else d2
                for k in (0, 4):
                    pass
                l = ch.Ch(vals(s1, 0, dom))
                node = o(l, c) if left else o(c, l)
                ff = (lambda x: f(x, float(c))) if left else (lambda x: f(float(c), x))
                op = OpCase('C05|%s|%s' % (n, form), None, ff, None)
                full_check(ctx, op, node, [l], 0, ([vals(s1, 0, dom)], {}), '%s const %r' % (case, c))
                l.x = vals(s1, 4, dom)
                full_check(ctx, op, node, [l], 1, ([vals(s1, 4, dom)], {}), '%s const %r' % (case, c))
            return
        left = form in ('op_arr', 'list_fn')
        dom, odom = (d1, d2) if left else (d2, d1)
        c = vals(s2, 3, odom)
        l = ch.Ch(vals(s1, 0, dom))
        if form == 'list_fn':
            c = np.asarray(c).tolist()
            node = getattr(ch, n)(l, c)
        else:
            node = o(l, c) if left else o(c, l)
        if not hasattr(node, 'dr_wrt'):
            ctx.fail('C05|%s|%s|type' % (n, form), '%s: the result is a %s, not an expression' % (case, type(node).__name__))
            return
        ff = (lambda x: f(x, c)) if left else (lambda x: f(c, x))
        op = OpCase('C05|%s|%s' % (n, form), None, ff, None)
        full_check(ctx, op, node, [l], 0, ([vals(s1, 0, dom)], {}), str(case))
        l.x = vals(s1, 4, dom)
        full_check(ctx, op, node, [l], 1, ([vals(s1, 4, dom)], {}), str(case))
    elif kind == 'tour':
        tour(ctx, case[1], len(case) > 3)
    elif kind == 'grid1':
        grid1(case[1], ctx)
    elif kind == 'grid2':
        grid2(case[1], ctx)
    elif kind == 'layout':
        layout(case[1], tuple(case[2]), ctx)
    elif kind == 'clip':
        clipcase(tuple(case[1]), ctx)


TSH = [(6,), (2, 3), (3, 2), (1, 6), (6, 1), (2, 1, 3), (3, 1, 2), (), (1,), (1, 1), (2,), (3,), (4,), (2, 2)]
TPAIR = [((2, 3), (2, 3)), ((3, 2), (3, 2)), ((2, 3), (3,)), ((2, 3), (1, 3)), ((3, 2), (3, 1)), ((2, 3), (2, 1)), ((3, 2), (2,)), ((3,), (2, 3)), ((2, 1), (2, 3)),
         ((6,), (6,)), ((6, 1), (1, 6)), ((1, 6), (6, 1)), ((2, 1), (1, 3)), ((3, 1), (1, 2)), ((1, 2), (3, 1)), ((), (6,)), ((6,), ()), ((2, 3), (1,)), ((1, 1), (3, 2)),
         ((), ()), ((1,), (1,)), ((2, 1, 3), (3, 1)), ((3,), (2, 3, 1))]


def tour(ctx, n, same):
    """one object through every ordered pair of shapes (several of one size, several with one size of the result)"""
    if n in UN:
        dom, f, cf = UN[n]
        return run_tour(ctx, OpCase('C05|%s' % n, build_un(n), f, cf), [([vals(s, i, dom)], {}) for i, s in enumerate(TSH)])
    (d1, d2), f, cf = BIN[n]
    if same:
        if n in ('maximum', 'minimum'):
            f, cf = (lambda a, b: a), None
        d = d2 if d1 == 'any' else d1
        return run_tour(ctx, OpCase('C05|%s_same' % n, lambda l, p: getattr(ch, n)(l[0], l[0]), f, cf, same=True), [([vals(s, i, d)] * 2, {}) for i, s in enumerate(TSH)])
    run_tour(ctx, OpCase('C05|%s' % n, lambda l, p: getattr(ch, n)(l[0], l[1]), f, cf), [([vals(s, i, d1), vals(t, i + 40, d2)], {}) for i, (s, t) in enumerate(TPAIR)])


def grid1(n, ctx):
    """every special value: value as NumPy; derivative as the one-sided limits where they agree and are finite"""
    dom, f, cf = UN[n]
    b = build_un(n)
    for x0 in GRIDX:
        for form in ((), (1,), (3,)):
            arr = np.full(form, x0)
            ctx.hist(); ctx.step(); ctx.state('grid1', n, float(x0), form)
            with np.errstate(all='ignore'):
                want = np.atleast_1d(np.asarray(f(arr), dtype=np.float64))
            l = ch.Ch(arr)
            node = b([l], {})
            if not np.all(np.isfinite(want)) and (n.startswith('pow') or n == 'rpow2'):
                continue      # power maps infinities to zero on purpose
            check_value(ctx, 'C05|%s|grid' % n, node, want, '%s at %r' % (n, x0))
            if not np.isfinite(x0) or abs(x0) > 1e100 or (x0 != 0 and abs(x0) < 1e-100) or not np.all(np.isfinite(want)):
                continue
            if n == 'gamma' and x0 <= 0: continue
            if n.startswith('pow') and x0 == 0 and n in ('pow-1', 'pow.5'): continue
            e = 1e-6
            fp = np.asarray((f(np.array([x0 + e])) - f(np.array([x0]))) / e, dtype=float)
            fm = np.asarray((f(np.array([x0])) - f(np.array([x0 - e]))) / e, dtype=float)
            if not (np.all(np.isfinite(fp)) and np.all(np.isfinite(fm))) or abs(fp - fm) > 1e-3 or abs(fp) > 1e5:
                continue
            c = cjac(cf or f, [np.array([x0])], 0)[0, 0]
            nn = max(1, arr.size)
            check_jac(ctx, 'C05|%s|grid' % n, node, l, np.eye(nn) * c, '%s at %r' % (n, x0))


def grid2(n, ctx):
    (d1, d2), f, cf = BIN[n]
    # all pairs of grid values at once, as column and row vectors, and one at a time as scalars
    for A, B, tag in ((GRID.reshape(-1, 1), GRID.reshape(1, -1), 'outer'), (np.repeat(GRID, GRID.size), np.tile(GRID, GRID.size), 'flat')):
        la, lb = ch.Ch(A), ch.Ch(B)
        node = getattr(ch, n)(la, lb)
        ctx.hist(); ctx.step(); ctx.state('grid2', n, tag)
        with np.errstate(all='ignore'):
            want = f(A, B)
        if n in ('NanDivide', 'power'):
            want = np.where(np.isinf(want), 0, want)
        if n == 'NanDivide':
            want = np.where(np.isnan(want), 0, want)
        check_value(ctx, 'C05|%s|grid' % n, node, want, n + ' on the value grid')
        # derivatives: exact where differentiable, 0 where nan-safe division is not finite; ties of max/min count for both operands
        Af, Bf = np.broadcast_arrays(A, B)
        if n == 'power':
            ok0 = (Af > 0) | (Af < 0)
            da = np.where(ok0, Bf * np.power(np.where(Af == 0, 1., Af), Bf - 1), 0)
            ok0 = np.isfinite(da) & (Af != 0)
            db = np.where(Af > 0, np.log(np.where(Af > 0, Af, 1)) * np.power(np.abs(Af) + (Af == 0), Bf), 0)
            ok1 = Af > 0
        elif n == 'divide':
            ok0 = ok1 = Bf != 0
            da, db = np.where(ok0, 1 / np.where(ok0, Bf, 1), 0), np.where(ok0, -Af / np.where(ok0, Bf, 1) ** 2, 0)
        elif n == 'NanDivide':
            nz = Bf != 0
            ok0 = ok1 = np.ones_like(nz)
            da, db = np.where(nz, 1 / np.where(nz, Bf, 1), 0), np.where(nz, -Af / np.where(nz, Bf, 1) ** 2, 0)
        elif n in ('maximum', 'minimum'):
            ge = (Af >= Bf) if n == 'maximum' else (Af <= Bf)
            le = (Af <= Bf) if n == 'maximum' else (Af >= Bf)
            da, db = ge * 1., le * 1.
            ok0 = ok1 = np.ones_like(ge)
        else:
            ok0 = ok1 = np.ones(Af.shape, bool)
            da = {'add': np.ones_like(Af), 'subtract': np.ones_like(Af), 'multiply': Bf}[n]
            db = {'add': np.ones_like(Af), 'subtract': -np.ones_like(Af), 'multiply': Af}[n]
        for l, arr, d, ok in ((la, A, da, ok0), (lb, B, db, ok1)):
            idx = np.broadcast_to(np.arange(arr.size).reshape(arr.shape), Af.shape).ravel()
            want = np.zeros((Af.size, arr.size)); want[np.arange(Af.size), idx] = d.ravel()
            mask = np.ones_like(want, dtype=bool); mask[~ok.astype(bool).ravel()] = False
            check_jac(ctx, 'C05|%s|grid|wrt%s' % (n, 'a' if l is la else 'b'), node, l, want, n + ' on the value grid', mask=mask)


def layout(lay, s, ctx):
    """input memory layouts and dtypes make no difference"""
    if lay == 'scalar0d' and s != (): return
    base = np.round(vals(s, 3, 'nz') * 4)
    if lay in ('int', 'bool'): base = np.asarray(base, dtype=np.int64)
    if lay == 'bool': base = base > 0
    def mk(v):
        if lay == 'C': return np.array(v, order='C')
        if lay == 'F': return np.array(v, order='F')
        if lay == 'strided':
            return np.repeat(v, 2, axis=-1)[..., ::2] if v.ndim else np.array([v, v])[0:1].reshape(())
        if lay == 'neg': return np.array(v[..., ::-1])[..., ::-1] if v.ndim else np.array(v)
        if lay == 'f32': return np.array(v, dtype=np.float32)
        if lay == 'list': return v.tolist()
        return np.array(v)
    ref = np.asarray(base, np.float64)
    for how in ('ctor', 'assign'):
        ctx.hist([lay, list(s), how]); ctx.step(); ctx.state('layout', lay, s, how)
        src = mk(base)
        if how == 'ctor':
            l = ch.Ch(src)
        else:
            l = ch.Ch(np.zeros(s)); l.x = src
        b = ch.Ch(vals(s, 1))
        for nm, node, f in (('x*b+sin(x)', l * b + ch.sin(l), lambda x: x * vals(s, 1) + np.sin(x)),
                            ('x', l, lambda x: x), ('3-x', 3 - l, lambda x: 3 - x)):
            check_value(ctx, 'C05|layout', node, f(ref), '%s with %s input of shape %s via %s' % (nm, lay, s, how))
            if how == 'ctor' or lay != 'list':
                check_jac(ctx, 'C05|layout', node, l, cjac(f, [ref], 0), '%s with %s input of shape %s via %s' % (nm, lay, s, how))
        if l.r.dtype != np.float64:
            ctx.fail('C05|layout|dtype', '%s input gives %s values' % (lay, l.r.dtype))


def clipcase(s, ctx):
    """clip: bounds of every sign and order of magnitude, changed on the existing object"""
    x = vals(s, 0)
    bounds = [(-.5, .6), (-9., 9.), (0., 1.), (-1., 0.), (.2, .3), (5., 6.), (-6., -5.), (.1, .1), (.3, -.3)]
    for i, b0 in enumerate(bounds):
        for b1 in bounds:
            for rd in (0, 1):
                ctx.hist(); ctx.step(); ctx.state('clip', s, b0, b1, rd)
                l = ch.Ch(x)
                node = ch.clip(l, b0[0], b0[1])
                if rd:
                    node.r; node.dr_wrt(l)
                node.a_min, node.a_max = b1
                check_value(ctx, 'C05|clip|bounds', node, np.clip(x, *b1), 'clip %s then %s' % (b0, b1))
                d = ((np.atleast_1d(x) > b1[0]) & (np.atleast_1d(x) < b1[1])).ravel() * 1.
                check_jac(ctx, 'C05|clip|bounds', node, l, np.diag(d), 'clip %s then %s' % (b0, b1))
