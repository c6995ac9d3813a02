"""User-defined operations used by several checks (importable, so that they can be pickled)."""
import numpy as np
import scipy.sparse as sp
import chumpy as ch
from chumpy import Ch, depends_on


class Scaled(Ch):
    """k * (a + b) ** 2 with a derived attribute"""
    dterms = 'a', 'b'
    terms = 'k'

    @depends_on('a', 'b')
    def total(self):
        return np.array(self.a.r + self.b.r)

    @depends_on('k')
    def factor(self):
        return float(self.k) * 2.

    def compute_r(self):
        return self.factor * self.total ** 2

    def compute_dr_wrt(self, wrt):
        if wrt is not self.a and wrt is not self.b:
            return None
        m = (1. if wrt is self.a else 0.) + (1. if wrt is self.b else 0.)
        return sp.diags([2. * m * self.factor * self.total.ravel()], [0])


class Notified(Ch):
    """keeps what it needs in on_changed"""
    dterms = 'a',
    terms = 'n',

    def on_changed(self, which):
        if 'n' in which:
            self._pw = int(self.n)
        if 'a' in which:
            self._sq = np.array(self.a.r)

    def compute_r(self):
        return self._sq ** self._pw

    def compute_dr_wrt(self, wrt):
        if wrt is self.a:
            return sp.diags([self._pw * self._sq.ravel() ** (self._pw - 1)], [0])


class Extra(Ch):
    """an operand declared at run time (add_dterm) besides the class's own"""
    dterms = 'a'

    def compute_r(self):
        return self.a.r ** 2 + (np.sin(self.b.r) if hasattr(self, 'b') else 0.)

    def compute_dr_wrt(self, wrt):
        out = 0.
        if wrt is self.a:
            out = out + 2. * self.a.r.ravel()
        if hasattr(self, 'b') and wrt is self.b:
            out = out + np.cos(self.b.r.ravel())
        return sp.diags([out], [0]) if wrt is self.a or (hasattr(self, 'b') and wrt is self.b) else None


def extra(a, b):
    n = Extra(a=a)
    n.add_dterm('b', b)
    return n

