BUGS = []
def bug(id, property, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))
CH, OPS, RE, LA, OPT, OPI, UT = ('chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/optimization.py',
                             'chumpy/optimization_internal.py', 'chumpy/utils.py')

bug('c01-set-iter', 'C01', [(CH, "            self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)",
                             "            self.__setattr__(kwall[-1], kwargs[kwall[-1]], None if len(kwall) == 1 else 9999)")],
    'two operands (or parameters) of one node set together with set(), after its value had been read',
    'the second and later multi-term set() no longer invalidates the node: its value stays the old one',
    '''a, b, c = ch.Ch([1., 2.]), ch.Ch([3., 4.]), ch.Ch([5., 6.])
y = a + b
eq(y.r, [4., 6.])
y.set(a=c, b=a)
eq(y.r, [6., 8.], 'after set')
y.set(a=b, b=c)
eq(y.r, [8., 10.], 'after second set')
''', also=['C02', 'C12'])

bug('c02-select-resize', 'C02', [(RE, "            if 'idxs' in which or self.a.r.size != self._dr_cached.shape[1]:",
                                  "            if 'idxs' in which:")],
    'the derivative of a selection is read, then the selected array is assigned an array of another size, then the derivative is read again',
    'the remembered selection Jacobian keeps the old number of columns',
    '''a = ch.Ch([1., 2., 3.])
v = ch.Select(a=a, idxs=np.array([0, 2]))
y = v * 2.
eq(D(y.dr_wrt(a)), [[2, 0, 0], [0, 0, 2]])
a.x = np.array([1., 2., 3., 4., 5.])
eq(D(y.dr_wrt(a)), [[2, 0, 0, 0, 0], [0, 0, 2, 0, 0]])
''', also=['C07'])

bug('c06-mean-size', 'C06', [(OPS, "                data = np.ones(idxs_postsum.size) / self.x.shape[self.axis]",
                              "                data = np.ones(idxs_postsum.size) / self.x.shape[self.axis if self.axis > 0 else self.axis // len(self.x.shape)]")],
    'the derivative of a mean along a negative axis other than the last',
    'the mean along axis -2 of a non-square matrix is differentiated with the wrong divisor',
    '''a = ch.Ch(np.arange(6.).reshape(2, 3))
for ax in (0, 1, -1, -2):
    J = D(ch.mean(a, axis=ax).dr_wrt(a))
    n = a.r.shape[ax]
    eq(J.sum(axis=1), np.ones(J.shape[0]), 'axis %d' % ax)
    need(np.allclose(J[J != 0], 1. / n), 'axis %d' % ax)
''')

bug('c07-rollaxis-key', 'C07', [(RE, "    def unique_reorder_id(self): return (self.a.shape, self.axis, self.start)",
                                 "    def unique_reorder_id(self): return (self.a.shape, self.axis)")],
    'the derivative of rollaxis is read, its start position is changed on the existing object, and the derivative is read again',
    'the remembered permutation for the old start is used',
    '''x = np.arange(24.).reshape(2, 3, 4)
a = ch.Ch(x)
y = ch.rollaxis(a, 2, 0)
def ref(start): return np.eye(24)[np.rollaxis(np.arange(24).reshape(2, 3, 4), 2, start).ravel()]
eq(D(y.dr_wrt(a)), ref(0))
y.start = 1
eq(D(y.dr_wrt(a)), ref(1))
''')

bug('c01-parent-dropped', 'C01', [(CH, "                    if len(term._parents[self]['varnames']) == 0:\n", "                    if term is not value:\n")],
    'one expression is bound to two operands of an operation, one of them is re-bound, and later the expression changes',
    'the operation is no longer told about changes of the expression it still uses through the other operand',
    '''a, b = ch.Ch([1., 2.]), ch.Ch([3., 4.])
u = ch.exp(a)
y = u * u
y.r
y.b = b
eq(y.r, np.exp([1., 2.]) * [3., 4.])
a.x = np.array([0., 1.])
eq(y.r, np.exp([0., 1.]) * [3., 4.])
''', also=['C02', 'C12'])

bug('c02-only-if-value', 'C02', [(CH, "                next._cache['r'] = None\n                next._cache['drs'].clear()\n",
                                  "                if next._cache['r'] is not None or next is self:\n                    next._cache['r'] = None\n                    next._cache['drs'].clear()\n")],
    'the derivative of an expression is read, its value never is, and an input changes',
    'an expression whose value has not been computed keeps its old Jacobian',
    '''a, b = ch.Ch([1., 2.]), ch.Ch([3., 4.])
y = ch.sin(a) + b
eq(D(y.dr_wrt(a)), np.diag(np.cos([1., 2.])))
a.x = np.array([.5, .7])
eq(D(y.dr_wrt(a)), np.diag(np.cos([.5, .7])))
''', also=['C12'])

bug('c02-sum-key', 'C02', [(OPS, "    def compute_r(self):\n        return np.sum(self.x.r, axis=self.axis)\n\n    def compute_dr_wrt(self, wrt):\n        if wrt is not self.x:\n            return\n        if self.axis == None:\n            return row(np.ones((1, len(self.x.r.ravel()))))\n        else:\n            uid = tuple(list(self.x.shape) + [self.axis])",
                            "    def compute_r(self):\n        return np.sum(self.x.r, axis=self.axis)\n\n    def compute_dr_wrt(self, wrt):\n        if wrt is not self.x:\n            return\n        if self.axis == None:\n            return row(np.ones((1, len(self.x.r.ravel()))))\n        else:\n            uid = (self.r.size, self.x.size, self.axis)")],
    'the derivative of a sum along the middle axis, and again after the input took on another shape with the same number of elements in and out',
    'the remembered Jacobian of the old shape is used',
    '''a = ch.Ch(np.arange(12.).reshape(2, 2, 3))
y = ch.sum(a, axis=1)
def ref(s): return np.array([np.sum(np.eye(12)[j].reshape(s), axis=1).ravel() for j in range(12)]).T
eq(D(y.dr_wrt(a)), ref((2, 2, 3)))
a.x = np.arange(12.).reshape(3, 2, 2)
eq(D(y.dr_wrt(a)), ref((3, 2, 2)))
''', also=['C06'])

bug('c03-power-same', 'C03', [(OPS, "        if wrt is self.pow:\n            result.append(", "        elif wrt is self.pow:\n            result.append(")],
    'base and exponent of a power are one expression',
    'only the derivative with respect to the base is counted',
    '''a = ch.Ch([1.5, 2.5])
y = a ** a
eq(D(y.dr_wrt(a)), np.diag(np.array([1.5, 2.5]) ** np.array([1.5, 2.5]) * (np.log([1.5, 2.5]) + 1)))
''', also=['C05'])

bug('c03-single-parent', 'C03', [(CH, "        if len(list(self._parents.keys())) != 1:\n            self._cache['drs'][wrt] = result",
                                  "        if len(list(self._parents.keys())) != 1 or result is None:\n            self._cache['drs'][wrt] = result if direct_dr is None else direct_dr")],
    'the derivative, read twice, of an expression that uses the input both directly and through a sub-expression',
    'the second read gives the direct part only',
    '''a = ch.Ch([1., 2.])
y = a * ch.sin(a)
x = a.r
want = np.diag(np.sin(x) + x * np.cos(x))
eq(D(y.dr_wrt(a)), want)
eq(D(y.dr_wrt(a)), want, 'again')
''', also=['C02', 'C04'])

bug('c05-same-size', 'C05', [(OPS, "def _broadcast_setup(a, b, wrt):\n    if len(set((a.shape, b.shape))) == 1:", "def _broadcast_setup(a, b, wrt):\n    if a.size == b.size:")],
    'quotient or maximum of a column and a row of the same length',
    'the Jacobian of the outer combination is that of the elementwise one (or fails)',
    '''a, b = ch.Ch([[1.], [2.]]), ch.Ch([[3., 4.]])
y = a / b
eq(D(y.dr_wrt(a)), [[1 / 3., 0], [1 / 4., 0], [0, 1 / 3.], [0, 1 / 4.]])
''', also=['C17'])

bug('c05-nandivide-inf', 'C05', [(OPS, "                result.data[np.isinf(result.data)] = 0\n", "")],
    'derivative of the nan-safe quotient where the denominator is zero and the numerator is not',
    'infinite entries appear in the Jacobian',
    '''a, b = ch.Ch([1., 2.]), ch.Ch([0., 4.])
y = ch.NanDivide(a, b)
eq(D(y.dr_wrt(a)), [[0, 0], [0, .25]])
eq(D(y.dr_wrt(b)), [[0, 0], [0, -2 / 16.]])
''')

bug('c05-clip-edge', 'C05', [(OPS, "            result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)", "            result = np.asarray((self.r > self.a_min) != (self.a.r > self.a_max), np.float64)")],
    'derivative of clip below the lower limit while nothing is above the upper one: same as before; both limits equal', 'an input above the upper limit where both limits coincide gets a derivative',
    '''a = ch.Ch([-1., .5, 3.])
eq(D(ch.clip(a, 0., 1.).dr_wrt(a)), np.diag([0, 1, 0]))
eq(D(ch.clip(a, 1., 1.).dr_wrt(a)), np.zeros((3, 3)))
''')

bug('c06-cumsum-none', 'C06', [(OPS, "        if self.axis is not None:\n            raise NotImplementedError\n", "        if self.axis is not None:\n            return None\n")],
    'derivative of a cumulative sum along an axis',
    'no derivative is reported instead of an error, so that it is silently taken as zero',
    '''a = ch.Ch(np.arange(6.).reshape(2, 3))
y = ch.cumsum(a, axis=1)
try:
    J = y.dr_wrt(a)
except NotImplementedError:
    sys.exit(0)
eq(D(J, 6, 6), np.kron(np.eye(2), np.tril(np.ones((3, 3)))))
''')

bug('c06-nanargmax', 'C06', [(OPS, "    def argf(self, *args, **kwargs): return np.nanargmax(*args, **kwargs)", "    def argf(self, *args, **kwargs): return np.argmax(*args, **kwargs)")],
    'derivative of nanmax of data that contain a nan',
    'the Jacobian points at the nan',
    '''a = ch.Ch([1., np.nan, 3., 2.])
y = ch.nanmax(a)
eq(y.r, [3.])
eq(D(y.dr_wrt(a)), [[0, 0, 1, 0]])
''')

bug('c07-rot-key', 'C07', [(RE, "    def reorder(self, a): return np.rot90(a, self.k)\n    def unique_reorder_id(self): return (self.a.shape, self.k)",
                            "    def reorder(self, a): return np.rot90(a, self.k)\n    def unique_reorder_id(self): return (self.a.shape, self.k % 2)")],
    'the derivative of a rotation is read, the number of quarter turns is changed by two on the existing object, and the derivative is read again',
    'a half turn is forgotten',
    '''a = ch.Ch(np.arange(6.).reshape(2, 3))
y = ch.rot90(a, 1)
def ref(k): return np.eye(6)[np.rot90(np.arange(6).reshape(2, 3), k).ravel()]
eq(D(y.dr_wrt(a)), ref(1))
y.k = 3
eq(D(y.dr_wrt(a)), ref(3))
''', also=['C02'])

bug('c08-pinv-once', 'C08', [(LA, "        self._result = result\n        \n    def compute_r", "        if not (hasattr(self, '_result') and self._result.is_dr_wrt(mtx)): self._result = result\n        \n    def compute_r")],
    'a pseudo-inverse is evaluated, then its matrix is assigned one of the other orientation (tall to wide)',
    'the formula for the old orientation is kept and inverts a singular matrix',
    '''x = np.array([[1., 2.], [3., 5.], [0., 1.]])
a = ch.Ch(x)
y = ch.linalg.pinv(a)
eq(y.r, np.linalg.pinv(x))
a.x = x.T.copy()
eq(y.r, np.linalg.pinv(x.T))
''', also=['C01'])

bug('c08-cross-cache', 'C08', [(OPS, "        if h!=self._h or w!=self._w:", "        if h>self._h or w!=self._w:")],
    'the derivative of a cross product of several rows is read, then both operands are assigned fewer rows',
    'index arrays of the larger problem are used',
    '''x, y = np.arange(9.).reshape(3, 3) ** 1.5, np.arange(9.).reshape(3, 3)[::-1].copy()
a, b = ch.Ch(x), ch.Ch(y)
c = ch.cross(a, b)
c.dr_wrt(a)
a.x, b.x = x[:2].copy(), y[:2].copy()
J = D(c.dr_wrt(a))
d = np.zeros((2, 3)); d[1, 2] = 1.
eq(J.dot(d.ravel()), np.cross(d, y[:2]).ravel())
''', also=['C02'])

bug('c10-restore-first', 'C10', [(CH, "        for k in set(self.dterms).intersection(set(self.__dict__.keys())):\n            setattr(self, k, self.__dict__[k])",
                                  "        for k in set(self.dterms).intersection(set(self.__dict__.keys())):\n            if self not in self.__dict__[k].__dict__.get('_parents', {}): setattr(self, k, self.__dict__[k])")],
    'a copy of an operation bound twice to one expression, one of the copied operands is then re-bound and the shared expression changes',
    'the copy does not know that it uses the shared expression through the second operand, so re-binding the first cuts it off',
    '''for first in 'ab':
    a, b = ch.Ch([1., 2.]), ch.Ch([3., 4.])
    u = ch.exp(a)
    y = u * u
    z = y.copy()
    z.r
    setattr(z, first, b)
    eq(z.r, np.exp([1., 2.]) * [3., 4.])
    v = z.b if first == 'a' else z.a
    v.x.x = np.array([0., 1.])
    eq(z.r, np.exp([0., 1.]) * [3., 4.], 'after change')
''')

bug('c10-keep-cache', 'C10', [(CH, "        d['_cache'] = {'r': None, 'drs': weakref.WeakKeyDictionary()}\n        object.__setattr__(self, '__dict__', d)",
                               "        d['_cache'], d['_dirty_vars'] = {'r': None, 'drs': weakref.WeakKeyDictionary()}, set()\n        object.__setattr__(self, '__dict__', d)")],
    'an operation that prepares its computation when told of a changed parameter is copied after the parameter changed and before it was evaluated again',
    'the copy forgets that the parameter changed',
    '''import chumpy.extras
im = np.arange(27.).reshape(3, 3, 3) ** 1.3
loc = ch.Ch([[.5, .5, 1.2]])
y = ch.extras.Interp3D(locations=loc, image=im)
y.r
y.image = im[::-1] * 2.
z = y.copy()
w = ch.extras.Interp3D(locations=loc, image=im[::-1] * 2.)
eq(z.r, w.r)
''')

bug('c11-replace-first', 'C11', [(CH, "            if term is old:\n                setattr(self, term_name, new)\n", "            if term is old:\n                return setattr(self, term_name, new)\n")],
    'replacing an input that is bound to two operands of one operation (or that also occurs below another operand)',
    'only the first occurrence is replaced',
    '''a, b = ch.Ch([1., 2.]), ch.Ch([3., 4.])
y = a * ch.sin(a)
y.replace(a, b)
eq(y.r, b.r * np.sin(b.r))
''', also=['C18'])

bug('c11-sid-terms', 'C11', [(CH, "        pnames = list(self.terms)+list(self.dterms)\n        pnames.sort()\n        return (self.__class__,", "        pnames = list(self.dterms) or list(self.terms)\n        pnames.sort()\n        return (self.__class__,")],
    'redundancy removal on an expression with two operations of one kind on one input that differ in a parameter only',
    'they are merged and the value changes',
    '''a = ch.Ch(np.arange(4.).reshape(2, 2))
y = ch.sum(a, axis=0) - ch.sum(a, axis=1)
want = y.r.copy()
y.remove_redundancy()
eq(y.r, want)
''')

bug('c12-term-prop', 'C12', [(CH, "            self._dirty_vars.add(name)\n            self._invalidate_cacheprop_names([name])\n", "            self._dirty_vars.add(name)\n            if name_in_dterms: self._invalidate_cacheprop_names([name])\n")],
    'a derived attribute that depends on a non-differentiable term is read, the term is assigned, the attribute is read again',
    'the derived attribute keeps its old value',
    '''from chumpy import depends_on
class Op(ch.Ch):
    dterms = 'a'
    terms = 'k'
    @depends_on('k')
    def factor(self): return self.k * 2.
    def compute_r(self): return self.factor * self.a.r
    def compute_dr_wrt(self, wrt):
        if wrt is self.a: return sp.eye(self.a.size, self.a.size) * self.factor
a = ch.Ch([1., 2.])
y = Op(a=a, k=1.)
eq(y.r, [2., 4.])
y.k = 3.
eq(y.r, [6., 12.])
''', also=['C01'])

bug('c12-deps-list', 'C12', [(CH, "            [deps.add(d) for d in dep]", "            deps.add(tuple(dep)[0])")],
    'a derived attribute whose dependencies are given as a list of several names; the second of them changes',
    'changes of all but the first listed term are missed',
    '''from chumpy import depends_on
class Op(ch.Ch):
    dterms = 'a', 'b'
    @depends_on(['a', 'b'])
    def total(self): return self.a.r + self.b.r
    def compute_r(self): return self.total * 1.
    def compute_dr_wrt(self, wrt): return sp.eye(self.a.size, self.a.size)
a, b = ch.Ch([1., 2.]), ch.Ch([3., 4.])
y = Op(a=a, b=b)
eq(y.r, [4., 6.])
b.x = np.array([5., 6.])
eq(y.r, [6., 8.])
''')

bug('c09-nested-order', 'C14', [(OPI, "                        idxs = idxs[selects.pop()]", "                        idxs = idxs[selects.pop(0)]")],
    'a selection of a selection of a selection as the free variable of the dogleg minimizer',
    'the values are written to other elements than the selected ones',
    """a = ch.Ch(np.arange(8.))
v = a[1:][np.array([4, 2, 0, 5])][np.array([1, 3])]
need(np.array_equal(v.r, [3., 6.]))
ch.minimize(v - np.array([10., 20.]), [v], options={'disp': False, 'maxiter': 5})
eq(a.r, [0, 1, 2, 10, 4, 5, 20, 7], tol=1e-4)
""", also=['C14'])

bug('c09-write-through-rounding', 'C09', [(CH, "            self = self[key]\n", "            self = self[key] if not isinstance(key, (int, np.integer)) or key >= 0 else self[key:]\n")],
    'a single element is assigned through a view with a negative index other than -1',
    'everything from that element to the end is overwritten',
    """a = ch.Ch(np.arange(6.))
v = a[1:]
v[-2] = 9.
eq(a.r, [0, 1, 2, 3, 9, 5])
""")

bug('c09-leaf-scalar', 'C09', [(CH, "            data.__setitem__(key, value)\n", "            data.ravel().__setitem__(key, value) if isinstance(key, np.ndarray) and key.dtype == bool else data.__setitem__(key, value)\n")],
    'assignment with a two-dimensional boolean mask', 'fails', """a = ch.Ch(np.arange(4.).reshape(2, 2))
a[np.array([[True, False], [False, True]])] = 7.
eq(a.r, [[7, 1], [2, 7]])
""")

bug('c14-accept-equal', 'C14', [(OPI, "            return self.rho > 0\n", "            return self.rho >= 0\n")],
    'a trial point with exactly the same sum of squares as the current one (the step moves along a plateau)',
    'a step that does not improve is accepted and reported',
    """class Flat(ch.Ch):
    dterms = 'x'
    def compute_r(self): return np.array([2. + np.maximum(np.abs(self.x.r[0]) - 5., 0.), 1.])
    def compute_dr_wrt(self, wrt):
        if wrt is self.x: return np.array([[1.], [0.]])
x = ch.Ch([1.])
seen = []
y = Flat(x=x)
ch.minimize(y, [x], callback=lambda o: seen.append(float((y.r ** 2).sum())), options={'disp': False, 'maxiter': 5})
need(all(b < a for a, b in zip(seen, seen[1:])), seen)
""")

bug('c14-lazy-restore', 'C14', [(OPI, "                    obj.on_changed('x') # copies from flat vector to free variables\n", "                    if not state.done: obj._call_on_changed() if state.iteration < maxiter else None\n")],
    'the last trial step before the iteration limit is rejected',
    'the free variables are left at the rejected point',
    """class Wall(ch.Ch):
    dterms = 'x'
    def compute_r(self): return self.x.r * 1. if self.x.r[0] >= 2. else np.array([100.])
    def compute_dr_wrt(self, wrt):
        if wrt is self.x: return np.array([[1.]])
x = ch.Ch([3.])
y = Wall(x=x)
seen = []
ch.minimize(y, [x], callback=lambda o: seen.append(x.r.copy()), options={'disp': False, 'maxiter': 1, 'max_fevals': 2})
eq(x.r, seen[-1])
""")

bug('c14-radius', 'C14', [(OPI, "        if self.delta is not None and np.linalg.norm(self.d_sd) >= self.delta:", "        if self.delta is not None and self.d_gn is None and np.linalg.norm(self.d_sd) >= self.delta:")],
    'a step is rejected and the radius shrinks below the length of the steepest-descent step within one iteration',
    'the interpolated step is computed although the steepest-descent step already leaves the trust region',
    """import chumpy.optimization_internal as oi
st = oi.DoglegState(delta=10., solve=None)
st.J = np.array([[1., 0.], [0., 3.]]); st.p = np.zeros(2); st.r = np.array([-5., -5.])
st.start_iteration(); st.update_step()
st.delta = .01
st.update_step()
need(st.step_size <= .01 * 1.000001, st.step_size)
""")

bug('c15-final', 'C15', [(OPT, "    changevars(x1, obj, obj_scalar, free_variables)\n    return free_variables", "    if obj_scalar.size > 1: changevars(x1, obj, obj_scalar, free_variables)\n    return free_variables")],
    'a solver whose last evaluation is not at the point it returns',
    'the free variables hold the last point the solver looked at instead of its answer',
    """import scipy.optimize
x0 = np.array([1., -1.5])
f = lambda v: (v[0] - .3) ** 2 + 3 * (v[1] + .2) ** 4 + np.sin(v[0] * v[1])
for m in ('Nelder-Mead', 'Powell'):
    a = ch.Ch(x0.copy())
    y = (a[0] - .3) ** 2 + 3 * (a[1] + .2) ** 4 + ch.sin(a[0] * a[1])
    ch.minimize(y, [a], method=m, options={'maxiter': 7})
    want = scipy.optimize.minimize(f, x0, method=m, options={'maxiter': 7}).x
    eq(a.r, want, m, 1e-9)
""")

bug('c15-tiny-step', 'C15', [(OPT, "            if np.max(np.abs(newvals-free_variables[idx]).ravel()) > 0:", "            if np.max(np.abs(newvals-free_variables[idx]).ravel()) > 1e-9:")],
    'the solver asks about a point very close to the last one', 'it is answered with the value at the old point',
    """import scipy.optimize
a = ch.Ch([1., 2.])
got = []
old = scipy.optimize.minimize
def fake(fun, x0, args=(), **kw):
    for d in (0., 1e-10, -2e-10, 5e-10):
        got.append((d, fun(x0 + d, *args), a.r.copy()))
    return old(fun, x0, args=args, **kw)
import chumpy.optimization as o
o.scipy.optimize.minimize = fake
ch.minimize(ch.sin(a) * 3., [a], method='BFGS', options={'maxiter': 1})
for d, v, x in got:
    need(np.array_equal(x, np.array([1., 2.]) + d), (d, x))
""")

bug('c16-dirty-first', 'C16', [(CH, "            self.on_changed(self._dirty_vars)\n            object.__setattr__(self, '_dirty_vars', set())\n", "            dirty = self._dirty_vars\n            object.__setattr__(self, '_dirty_vars', set())\n            self.on_changed(dirty)\n            object.__setattr__(self, '_dirty_vars', set())\n")],
    'a change notification raises once; the evaluation is tried again without a further change',
    'the notification is not delivered again, so the operation keeps what it had prepared for the old inputs',
    """x = np.array([[2., 1.], [1., 3.]])
a = ch.Ch(x)
y = ch.linalg.slogdet(a)[1]
eq(y.r, [np.log(5.)])
import numpy.linalg as nl
old = nl.slogdet
def bad(*a): raise RuntimeError('transient')
a.x = x * 2.
nl.slogdet = bad
try:
    y.r; need(False, 'no error')
except RuntimeError:
    pass
nl.slogdet = old
eq(y.r, [np.log(20.)])
""", also=['C12'])

bug('c16-flag-first', 'C16', [(CH, "                sdf['value'] = func(self, *args, **kwargs)\n                sdf['out_of_date'] = False\n", "                sdf['out_of_date'] = False\n                sdf['value'] = func(self, *args, **kwargs)\n")],
    'the computation of a derived attribute raises once and is read again',
    'the old value of the attribute is used as if it were current',
    """from chumpy import depends_on
fail = [False]
class Op(ch.Ch):
    dterms = 'a'
    @depends_on('a')
    def sq(self):
        if fail[0]: raise RuntimeError('transient')
        return self.a.r ** 2
    def compute_r(self): return self.sq + 0.
    def compute_dr_wrt(self, wrt):
        if wrt is self.a: return sp.diags([2 * self.a.r], [0])
a = ch.Ch([1., 2.])
y = Op(a=a)
y.r
a.x = np.array([3., 4.])
fail[0] = True
try:
    y.r; need(False)
except RuntimeError: pass
fail[0] = False
eq(y.r, [9., 16.])
""", also=['C12'])

bug('c17-reorder-shared', 'C17', [(RE, "        if not hasattr(self, 'dr_lookup'):\n            self.dr_lookup = {}", "        if not hasattr(self, 'dr_lookup'):\n            Reorder.dr_lookup = {}")],
    'two different reorderings with the same kind of parameters on arrays of one shape (a rotation and a diagonal, say) in one process',
    'they share remembered Jacobians, and the later one gets that of the earlier',
    """x = np.arange(4.).reshape(2, 2)
a, b = ch.Ch(x), ch.Ch(x)
ch.swapaxes(a, 0, 1).dr_wrt(a)
y = ch.rollaxis(b, 0, 1)
eq(D(y.dr_wrt(b)), np.eye(4))
ch.rot90(a, 1).dr_wrt(a)
z = ch.diagflat(b[0], 1)
w = ch.diag(b, 1)
eq(D(w.dr_wrt(b)), [[0, 1, 0, 0]])
""", also=['C07'])

bug('c17-writeable', 'C17', [(CH, "            self._cache['rview'].flags.writeable = False\n", "            self._cache['rview'].flags.writeable = self._cache['r'].base is not None and type(self) is not Ch\n")],
    'writing into the value of a reshaped or otherwise aliasing expression',
    'the returned value of an expression that is a view can be written to, which changes other expressions',
    """a = ch.Ch(np.arange(4.))
y = a.reshape((2, 2))
v = y.r
try:
    v[0, 0] = 99.
except ValueError:
    pass
eq(a.r, [0, 1, 2, 3.])
eq(y.r, [[0, 1], [2, 3.]])
""")

bug('c17-bcast-key', 'C17', [(OPS, "        uid = (a.shape, b.shape, wrt is a, wrt is b)", "        uid = (a.size, b.size, np.broadcast(a.r, b.r).shape, wrt is a, wrt is b)")],
    'two broadcasting operations in one process, in which operands of equal size are stretched along different axes to the same result',
    'the second gets the index pattern of the first',
    """a, b = ch.Ch(np.ones((2, 2))), ch.Ch([[1.], [2.]])
c = ch.Ch([[1., 2.]])
(a + b).dr_wrt(b)
eq(D((a + c).dr_wrt(c)), [[1, 0], [0, 1], [1, 0], [0, 1]])
""", also=['C05'])

bug('c18-shallow', 'C18', [(CH, "        return wrt in dterms_we_have or any([d.is_dr_wrt(wrt) for d in dterms_we_have])", "        return wrt in dterms_we_have or (not wrt.is_ch_baseclass() and wrt.is_dr_wrt(self)) or any([d.is_dr_wrt(wrt) for d in dterms_we_have])")],
    'asking whether a sub-expression depends on the expression that is built from it', 'the answer is yes in both directions',
    """a = ch.Ch([1., 2.])
u = ch.sin(a)
y = ch.exp(u)
need(y.is_dr_wrt(u) and y.is_dr_wrt(a))
need(not u.is_dr_wrt(y))
""")

bug('c19-logic-args', 'C19', [('chumpy/logic.py', "        return fn(arr, *self.args, **self.kwargs)", "        return fn(arr, *self.args, **{k: v for k, v in self.kwargs.items() if v})")],
    'a logical test along axis 0 given by keyword', 'the axis is ignored',
    """a = ch.Ch([[1., 0.], [2., 3.]])
eq(ch.all(a, axis=0).r, [True, False])
eq(ch.any(a, axis=1).r, [True, True])
""")

bug('c19-ge', 'C19', [(OPS, "class greater_equal(BinaryElemwiseNoDrv):\n    def _f(self, a, b): return np.greater_equal(a,b)", "class greater_equal(BinaryElemwiseNoDrv):\n    def _f(self, a, b): return np.logical_not(np.less(a,b))")],
    'comparison with nan', 'nan >= 1 becomes true',
    """a = ch.Ch([np.nan, 1., 2.])
eq((a >= 1.5).r, [False, False, True])
""")

bug('c20-verbose', 'C20', [(OPI, "            nonzero = np.count_nonzero(self.J)\n", "            nonzero = np.count_nonzero(np.where(np.abs(self.J) < 1e-3 * np.abs(self.J).max(), 0., self.J, ) if False else self.J.__setitem__(np.abs(self.J) < 1e-3 * np.abs(self.J).max(), 0.) or self.J)\n")],
    'minimization in verbose mode of a problem whose dense Jacobian has entries of very different size', 'small entries are dropped, so the path differs from the one without verbose mode',
    """import chumpy.ch as c, io
def go(v):
    x = ch.Ch([.4, .3])
    M = np.array([[1000., .5], [3., .9], [2., .7]])
    y = ch.sin(ch.MatVecMult(mtx=M, vec=x * .001)) * 100. - np.array([1., 2., 3.])
    y = ch.add(y, ch.sum(x) * .01)
    so = sys.stdout; sys.stdout = io.StringIO(); c.VERBOSE = v
    try: ch.minimize(y, [x], options={'disp': False, 'maxiter': 3, 'treat_as_dense': True})
    finally: c.VERBOSE = False; sys.stdout = so
    return x.r.copy()
eq(go(True), go(False))
""")

bug('c20-superdot-1', 'C20', [(CH, "            if not sp.issparse(lhs) and sp.issparse(rhs):\n                return rhs.T.dot(lhs.T).T", "            if not sp.issparse(lhs) and sp.issparse(rhs):\n                return rhs.T.dot(lhs.T).T if rhs.format != 'dia' or rhs.offsets.size == 1 else rhs.T.dot(lhs)")],
    'a dense left factor and a banded right one', 'transposition forgotten',
    """class Band(ch.Ch):
    dterms = 'x'
    def M(self): return sp.diags([np.ones(3), np.full(2, 2.)], [0, 1]).todia()
    def compute_r(self): return self.M().dot(self.x.r)
    def compute_dr_wrt(self, wrt):
        if wrt is self.x: return self.M()
class Full(Band):
    dterms = 'x'
    def M(self): return np.arange(9.).reshape(3, 3)
a = ch.Ch([1., 2., 3.])
y = Full(x=Band(x=a))
eq(D(y.dr_wrt(a)), np.arange(9.).reshape(3, 3).dot(np.eye(3) + 2 * np.eye(3, k=1)))
""", also=['C03'])



bug('c04-lop-memo', 'C04', [(CH, "        return self._superdot(lhs, dr) if not isinstance(lhs, LinearOperator) else lhs.matmat(dr)",
                             "        return self._superdot(lhs, self._cache['drs'].get(wrt, dr)) if not isinstance(lhs, LinearOperator) else lhs.matmat(dr)")],
    'an input is used both directly and through another operand of the same operation, its forward derivative has been read, and then a left product is asked for',
    'the remembered total derivative is used as the partial one, so the indirect path is counted twice',
    """a = ch.Ch([.3, .7])
for pre in (0, 1):
    y = ch.sin(a) * a
    want = np.diag(np.cos(a.r) * a.r + np.sin(a.r))
    if pre: eq(D(y.dr_wrt(a)), want)
    eq(D(y.lop(a, np.eye(2))), want, 'after forward %d' % pre)
""", also=['C15'])

bug('c13-initial-frozen', 'C13', [(CH, "                    args[initial_arg].x = initial_args[initial_arg]        ",
                                   "                    args[initial_arg].x = initial_args[initial_arg] if type(initial_args[initial_arg]) == Ch else Ch(initial_args[initial_arg])")],
    'a function-defined expression is given an expression (not a plain input) as an initial argument, and an input below that changes',
    'the initial argument is frozen at its value',
    """a = ch.Ch([1., 2.])
u = ch.exp(a)
f = ch.Ch(lambda x, y: x * y, initial_args={'x': u, 'y': a})
eq(f.r, np.exp(a.r) * a.r)
eq(D(f.dr_wrt(a)), np.diag(np.exp(a.r) * (a.r + 1)))
a.x = np.array([.5, .1])
eq(f.r, np.exp(a.r) * a.r)
""")

bug('c18-sid', 'C18', [(CH, "        if self not in visited:\n            if path", "        if self.sid not in visited:\n            if path"),
                       (CH, "            visited.add(self)\n            yield self", "            visited.add(self.sid)\n            yield self")],
    'a graph contains two separate but structurally identical sub-expressions', 'the traversal yields only one of them',
    """a = ch.Ch([1., 2.])
u, v = ch.sin(a), ch.sin(a)
y = u * v
got = list(y.tree_iterator())
need(len(got) == 4 and {id(g) for g in got} == {id(n) for n in (y, u, v, a)}, 'traversal')
""")

bug('c18-dict-terms', 'C18', [(CH, "        dterms_we_have = [getattr(self, dterm) for dterm in self.dterms if hasattr(self, dterm)]",
                               "        dterms_we_have = [self.__dict__[dterm] for dterm in self.dterms if dterm in self.__dict__]")],
    'an operation whose differentiable operand is defined by a property', 'the dependency query misses what the expression depends on through that operand',
    """class P(ch.Ch):
    terms = 'scale',
    dterms = 'a', 'twice'
    @property
    def twice(self): return self._t
    @twice.setter
    def twice(self, v): self.add_t(v)
    def add_t(self, v): object.__setattr__(self, '_t', v)
    def compute_r(self): return self.a.r + self.twice.r
    def compute_dr_wrt(self, w):
        if w is self.a or w is self.twice: return sp.eye(2, 2)
a, b = ch.Ch([1., 2.]), ch.Ch([3., 4.])
y = P(a=a, twice=ch.sin(b))
need(y.is_dr_wrt(a)); need(y.is_dr_wrt(b), 'through the property'); need(not y.is_dr_wrt(ch.Ch([1., 2.])))
""")

bug('c20-tiny', 'C20', [(CH, "                tm_convert_to_sparse = timer()\n                result = sp.csc_matrix(result)", "                tm_convert_to_sparse = timer()\n                result = sp.csc_matrix(np.where(np.abs(result) > 1e-10, result, 0.))")],
    'a mostly-zero derivative whose entries are small in absolute terms', 'small entries are dropped when the derivative is stored sparsely',
    """class S(ch.Ch):
    dterms = 'a'
    def compute_r(self): return self.a.r * 1e-11
    def compute_dr_wrt(self, w):
        if w is self.a: return np.eye(12) * 1e-11
a = ch.Ch(np.arange(12.))
y = S(a=a)
J = D(y.dr_wrt(a))
need(np.allclose(J * 1e11, np.eye(12)), 'small derivative')
""")

bug('c15-alias', 'C15', [(OPT, "        scalar_jacfunc.J = result\n        scalar_jacfunc.vs = vs.copy()", "        scalar_jacfunc.J = result\n        scalar_jacfunc.vs = vs")],
    'a solver that changes its point in place between two gradient requests', 'the gradient of the earlier point is returned',
    """import scipy.optimize
x = ch.Ch([1., 2.])
got = []
class R: pass
def solver(fun=None, x0=None, jac=None, args=(), **kw):
    p = np.array(x0)
    for d in (0., .5, -1.):
        p += d
        got.append((p.copy(), np.array(jac(p, *args))))
    r = R(); r.x = p
    return r
old = scipy.optimize.minimize
scipy.optimize.minimize = solver
try: ch.minimize(x * 2., [x], method='BFGS')
finally: scipy.optimize.minimize = old
for p, g in got: eq(g, 8 * p)
""")

bug('c14-fevals', 'C14', [(OPI, "            if state.done or trial.is_improvement or (obj.fevals >= max_fevals):", "            if state.done or trial.is_improvement or (state.iteration > 1 and obj.fevals >= max_fevals):")],
    'the first iteration rejects several steps and a small limit of evaluations is set', 'the evaluation limit is not respected within the first iteration',
    """x = ch.Ch([3.])
n = [0]
class F(ch.Ch):
    dterms = 'x'
    def compute_r(self): n[0] += 1; return np.arctan(self.x.r * 5.)
    def compute_dr_wrt(self, w):
        if w is self.x: return np.array([[5. / (1 + 25 * self.x.r[0] ** 2)]])
ch.minimize({'o': F(x=x)}, [x], options={'max_fevals': 3, 'disp': False, 'delta_0': 1e4, 'maxiter': 10})
need(n[0] <= 4, 'evaluations: %d' % n[0])
""")

bug('c10-class-terms', 'C10', [(CH, "        for k in set(self.dterms).intersection(set(self.__dict__.keys())):\n            setattr(self, k, self.__dict__[k])",
                                "        for k in set(type(self).dterms or self.dterms).intersection(set(self.__dict__.keys())):\n            setattr(self, k, self.__dict__[k])")],
    'a copied expression contains an operation that was given an extra operand with add_dterm, and that operand changes after the copy was read',
    'the copy is not told about changes of that operand',
    """class Two(ch.Ch):
    dterms = 'a'
    def compute_r(self): return self.a.r + (self.extra.r if hasattr(self, 'extra') else 0.)
    def compute_dr_wrt(self, w):
        if w is self.a or w is self.extra: return sp.eye(2, 2)
a, b = ch.Ch([1., 2.]), ch.Ch([3., 4.])
y = Two(a=a)
y.add_dterm('extra', b)
eq(y.r, [4., 6.])
z = copy.deepcopy(y)
eq(z.r, [4., 6.])
z.extra.x = np.array([0., 0.])
eq(z.r, [1., 2.], 'copy after change')
""")

bug('c07-diag-size', 'C07', [(RE, "    def reorder(self, a): return np.diag(a, self.k)\n    def unique_reorder_id(self): return (self.a.shape, self.k)", "    def reorder(self, a): return np.diag(a, self.k)\n    def unique_reorder_id(self): return (self.a.size, self.k)")],
    'the derivative of a diagonal is read, the matrix is assigned one of the same size but another shape, and the derivative is read again',
    'the positions of the old shape are used',
    """a = ch.Ch(np.arange(6.).reshape(2, 3))
y = ch.diag(a)
eq(D(y.dr_wrt(a)), np.eye(6)[[0, 4]])
a.x = np.arange(6.).reshape(3, 2)
eq(D(y.dr_wrt(a)), np.eye(6)[[0, 3]])
""", also=['C02'])

bug('c08-sign-first', 'C08', [(LA, "        _ = self.logabsdet.r\n", "        if not hasattr(self.logabsdet, 'sign'): self.logabsdet.r\n")],
    'the sign of a determinant is read, the matrix changes to one of the other sign, and the sign is read before the logarithm', 'the old sign is returned',
    """a = ch.Ch(np.array([[2., 1.], [0., 3.]]))
s, l = ch.linalg.slogdet(a)
eq(s.r, [1.])
a.x = np.array([[-2., 1.], [0., 3.]])
eq(s.r, [-1.])
""", also=['C01'])
