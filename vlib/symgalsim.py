"""galsim stand-in used during symbolic runs.

Only what batoid uses.  The basis matrices are galsim's own (concrete numbers);
the coefficients stay symbolic.  Gradients are taken as the exact derivative of
the Cartesian polynomial, which is what galsim documents.
"""
import types
from fractions import Fraction
import numpy as _np
from . import npshim, sym
from .npshim import NP, SymArray, base
from .sym import const


def _mods():
    import galsim.zernike as gz
    return gz


class Zernike:
    def __init__(self, coef, R_outer=1.0, R_inner=0.0):
        self.coef = NP.asarray(coef, dtype=float)
        if len(self.coef) <= 1:
            self.coef = NP.array([0, 0], dtype=float)
        self.R_outer = npshim.symfloat(R_outer)
        self.R_inner = npshim.symfloat(R_inner)

    @property
    def _coef_array_xy(self):
        if '_xy' not in self.__dict__:
            gz = _mods()
            ro, ri = float(self.R_outer), float(self.R_inner)
            m = gz._noll_coef_array_xy(len(self.coef)-1, ri/ro)
            n = m.shape[0]
            out = _np.empty((n, n), dtype=object)
            c = [npshim._lift1(v) for v in base(self.coef)[1:]]
            unit = sym.CTX is not None and sym.CTX.roots and all(v.op == 'c' for v in c)
            for i in range(n):
                for j in range(n):
                    t = sym.ZERO
                    for k in range(len(c)):
                        if m[i, j, k]:
                            t = t + sym.mul(root(m[i, j, k]) if unit else const(nice(m[i, j, k])), c[k])
                    out[i, j] = sym.mul(t, const(Fraction(ro)**-(i+j)))
            self._xy = out.view(SymArray)
        return self._xy

    def _grad(self, ax):
        xy = base(self._coef_array_xy)
        n = xy.shape[0]
        k = max(n-1, 1)
        out = _np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                a, b = (i+1, j) if ax == 0 else (i, j+1)
                out[i, j] = xy[a, b]*(i+1 if ax == 0 else j+1) if a < n and b < n else sym.ZERO
        g = Zernike.__new__(Zernike)
        g._xy = out.view(SymArray)
        g.R_outer, g.R_inner = self.R_outer, self.R_inner
        return g

    @property
    def gradX(self): return self._grad(0)
    @property
    def gradY(self): return self._grad(1)

    def __call__(self, x, y, robust=False):
        xy = base(self._coef_array_xy)
        x, y = NP.asarray(x), NP.asarray(y)
        r = 0*x*y
        for i in range(xy.shape[0]):
            for j in range(xy.shape[1]):
                if xy[i, j] is not sym.ZERO:
                    r = r + xy[i, j]*x**i*y**j
        return r


def nice(v):
    """basis entries are integers times sqrt(n+1): keep the double's value,
    integers exact"""
    r = round(v)
    return Fraction(r) if abs(v - r) < 1e-9*max(1, abs(v)) else Fraction(v)


def root(v):
    """exact value of a signed square root of a whole number, else the double"""
    q = round(v*v)
    if abs(v*v - q) < 1e-9*max(1, q):
        r = sym.sqrt(const(Fraction(q)))
        r = sym.tidy(r)
        return r if v > 0 else sym.neg(r)
    return const(nice(v))


def zernikeBasis(jmax, x, y, R_outer=1.0, R_inner=0.0):
    x, y = NP.asarray(x, dtype=float), NP.asarray(y, dtype=float)
    out = [x*0]
    for j in range(1, jmax+1):
        c = [0]*(j+1)
        c[j] = 1
        out.append(Zernike(c, R_outer, R_inner)(x, y))
    return NP.array([base(o) for o in out])


zernike = types.ModuleType('galsim.zernike')
zernike.Zernike = Zernike
zernike.zernikeBasis = zernikeBasis


def module():
    import galsim, galsim.zernike as gz
    m = types.ModuleType('galsim')
    zernike.noll_to_zern = gz.noll_to_zern
    zernike.DoubleZernike = gz.DoubleZernike
    m.zernike = zernike
    m.__path__ = []
    return m
