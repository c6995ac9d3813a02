"""Histories of one operation object: configurations (leaf data incl. shape, parameters) and read patterns.

A *configuration* is (arrays for the leaves, parameter dict).  A history is
    build in c0 ; reads p0 ; change to c1 ; reads p1 ; change to c2 ; full check
and every history over the given configurations and read patterns, up to the given number of changes, is executed.
"""
import itertools
from oracle import *

PATTERNS = ('none', 'r', 'dr', 'both', 'lop')


class OpCase(object):
    """build(leaves, params)->node ; val(arrays, params)->value ; jac(arrays, params, i)->Jacobian"""
    def __init__(self, key, build, val, cval=None, fd=False, mask=None, skip_jac=False, rtol=1e-7, atol=1e-8, same=False,
                 valcheck=None):
        self.key, self.build, self.val = key, build, val
        self.cval = cval or val
        self.fd, self.mask, self.skip_jac = fd, mask, skip_jac
        self.rtol, self.atol = rtol, atol
        self.same = same       # all leaves are one object
        self.memo = {}

    def ref(self, ci, cfg):
        if ci not in self.memo:
            arrs, params = cfg
            arrs = [np.asarray(a, dtype=np.float64) for a in arrs]
            v = self.val(*arrs, **params)
            js = []
            if not self.skip_jac:
                f = lambda *a: self.cval(*a, **params)
                wrts = [tuple(range(len(arrs)))] if self.same else list(range(len(arrs)))
                js = [(fdjac if self.fd else cjac)(f, arrs, w) for w in wrts]
            self.memo[ci] = (v, js)
        return self.memo[ci]


def apply_cfg(leaves, node, old, new, same, setp):
    arrs, params = new
    for i, (l, a) in enumerate(zip(leaves, arrs)):
        if same and i:
            continue
        l.x = np.array(a, dtype=np.float64)
    for k, v in params.items():
        if old[1].get(k, object()) is not v and not _eq(old[1].get(k), v):
            setp(node, k, v)


def _eq(a, b):
    try:
        return type(a) == type(b) and bool(np.all(a == b))
    except Exception:
        return False


def read(ctx, op, node, leaves, pat):
    ls = leaves[:1] if op.same else leaves
    if pat in ('r', 'both'):
        node.r
    if pat in ('dr', 'both') and not op.skip_jac:
        for l in ls:
            node.dr_wrt(l)
    if pat == 'lop' and not op.skip_jac:
        n = node.r.size
        for l in ls:
            node.lop(l, np.eye(n))


def full_check(ctx, op, node, leaves, ci, cfg, tag, scale=1.):
    v, js = op.ref(ci, cfg)
    if scale != 1.:
        v, js = np.asarray(v) * scale, [j * scale for j in js]
    key = op.key
    ok = check_value(ctx, key, node, v, tag)
    if op.skip_jac:
        return ok
    ls = leaves[:1] if op.same else leaves
    for i, l in enumerate(ls):
        m = None if op.mask is None else op.mask(cfg, i)
        want = js[i]
        ok = check_jac(ctx, '%s|wrt%d' % (key, i), node, l, want, tag + ' wrt operand %d' % i, mask=m, rtol=op.rtol, atol=op.atol) and ok
    return ok


def run_histories(ctx, op, cfgs, nchanges=1, patterns=('none', 'r', 'dr', 'both'), setp=setattr, keep_alive=None, only=None):
    """All histories with exactly 0..nchanges configuration changes."""
    n = len(cfgs)
    if Mode.prop is not None:
        return sweep_histories(ctx, op, cfgs, nchanges, setp)
    for c in range(nchanges + 1):
        for seq in itertools.product(range(n), repeat=c + 1):
            if any(seq[i] == seq[i + 1] and n > 1 for i in range(c)):
                continue
            if only is not None and not only(seq):
                continue
            for pats in itertools.product(patterns, repeat=c):
                one_history(ctx, op, cfgs, seq, pats, setp)


def euler(n):
    """a closed walk through every ordered pair of n configurations"""
    left = {i: [j for j in range(n) if j != i] for i in range(n)}
    st, out = [0], []
    while st:
        if left[st[-1]]:
            st.append(left[st[-1]].pop())
        else:
            out.append(st.pop())
    return out[::-1]


def run_tour(ctx, op, cfgs, setp=setattr, orders=('value', 'jac')):
    """One object taken through every ordered pair of configurations in one long history; everything is read at every stop."""
    seq = euler(len(cfgs))
    if Mode.prop in ('C03', 'C04'):
        return
    if Mode.prop is not None:
        orders = ('value',)
    for order in orders:
        ctx.hist({'op': op.key, 'tour': len(cfgs), 'order': order})
        cur = cfgs[seq[0]]
        leaves = [ch.Ch(np.array(a, dtype=np.float64)) for a in cur[0]]
        if op.same:
            leaves = [leaves[0]] * len(leaves)
        ops = leaves
        if Mode.prop is not None:
            ops = [l + 0. for l in leaves]
            if op.same:
                ops = [ops[0]] * len(ops)
        node = op.build(ops, cur[1])
        top, scale = (node, 1.) if Mode.prop is None else (node * 3., 3.)
        prev = None
        for k, c in enumerate(seq):
            if k:
                apply_cfg(leaves, node, cur, cfgs[c], op.same, setp)
                cur = cfgs[c]
                ctx.step()
            ctx.state(op.key, 'tour', order, prev, c)
            if order == 'jac':
                read(ctx, op, top, leaves, 'dr')
            if not full_check(ctx, op, top, leaves, c, cur, '%s [tour step %d: configuration %s -> %d; shapes %s; params %s]'
                              % (op.key, k, prev, c, [np.shape(a) for a in cur[0]], cur[1]), scale):
                return
            prev = c


def one_history(ctx, op, cfgs, seq, pats, setp=setattr):
    ctx.hist({'op': op.key, 'configs': list(seq), 'reads': list(pats)})
    arrs, params = cfgs[seq[0]]
    leaves = [ch.Ch(np.array(a, dtype=np.float64)) for a in arrs]
    if op.same:
        leaves = [leaves[0]] * len(leaves)
    node = op.build(leaves, params)
    cur = cfgs[seq[0]]
    hist = 'c%d' % seq[0]
    for p, c in zip(pats, seq[1:]):
        read(ctx, op, node, leaves, p)
        apply_cfg(leaves, node, cur, cfgs[c], op.same, setp)
        cur = cfgs[c]
        hist += '-%s->c%d' % (p, c)
        ctx.step()
    ctx.state(op.key, tuple(np.shape(a) for a in arrs), str(params), seq, pats)
    full_check(ctx, op, node, leaves, seq[-1], cur,
               '%s [history %s; shapes %s; params %s]' % (op.key, hist, [np.shape(a) for a in cur[0]], cur[1]))


def sweep_histories(ctx, op, cfgs, nchanges, setp):
    """The same operation inside an expression (operands that are expressions, a parent) as part of another property: C01/C02 all
    histories c0 -> ci [-> cj] with reads before every change; C03/C04 every configuration as built."""
    if Mode.prop in ('C03', 'C04'):
        for c in range(len(cfgs)):
            in_context(ctx, op, cfgs, (c,), (), setp)
        return
    r = ('r',) if Mode.prop == 'C01' else ('both',)
    for i in range(1, len(cfgs)):
        for p in r:
            in_context(ctx, op, cfgs, (0, i), (p,), setp)
            in_context(ctx, op, cfgs, (0, i, 0), (p, p), setp)
            if nchanges > 1:
                for j in range(1, len(cfgs)):
                    if j != i:
                        in_context(ctx, op, cfgs, (0, i, j), (p, p), setp)


def in_context(ctx, op, cfgs, seq, pats, setp):
    ctx.hist({'op': op.key, 'configs': list(seq), 'reads': list(pats)})
    cur = cfgs[seq[0]]
    leaves = [ch.Ch(np.array(a, dtype=np.float64)) for a in cur[0]]
    if op.same:
        leaves = [leaves[0]] * len(leaves)
    ops = [l + 0. for l in leaves]
    if op.same:
        ops = [ops[0]] * len(ops)
    node = op.build(ops, cur[1])
    top = node * 3.
    hist = 'c%d' % seq[0]
    for p, c in zip(pats, seq[1:]):
        read(ctx, op, top, leaves, p)
        apply_cfg(leaves, node, cur, cfgs[c], op.same, setp)
        cur = cfgs[c]
        hist += '-%s->c%d' % (p, c)
        ctx.step()
    ctx.state(op.key, tuple(np.shape(a) for a in cur[0]), str(cur[1]), seq, pats)
    full_check(ctx, op, top, leaves, seq[-1], cur, '3 * %s of expressions [history %s; shapes %s; params %s]' % (op.key, hist, [np.shape(a) for a in cur[0]], cur[1]), 3.)
    if Mode.prop == 'C01':
        full_check(ctx, op, node, leaves, seq[-1], cur, '%s of expressions [history %s; shapes %s; params %s]' % (op.key, hist, [np.shape(a) for a in cur[0]], cur[1]))
