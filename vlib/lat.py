"""Independent references for the lattice modules.

Nothing here uses gftool.  Green's functions are obtained as averages of
1/(z - eps) over the Brillouin zone: one momentum is integrated in closed form,
``(1/2pi) int dk 1/(w - a - b cos k) = 1/(sqrt(w-a-b) sqrt(w-a+b))``, the others by the
trapezoidal rule, which converges exponentially; the number of points is doubled
until two successive results agree.
"""
import functools
from fractions import Fraction
from math import comb, factorial

import numpy as np

from .core import Inconclusive


def _g1(w, a, b):
    """Average of ``1/(w - a - b cos k)``."""
    return 1/(np.sqrt(w - a - b + 0j)*np.sqrt(w - a + b + 0j))


@functools.lru_cache(maxsize=64)
def _grid(n):
    """Half-shifted symmetric grid on (0, pi); even integrands only."""
    return np.cos(np.pi*(np.arange(n) + 0.5)/n)


def _fin(n):
    """Fold a conjugate value of negative zero."""
    return n


def _bz1(fct, tol=1e-12, n0=32, nmax=2**15):
    """Average of even periodic `fct(cos k)` over one momentum."""
    old = np.mean(fct(_grid(n0)))
    n = n0
    while n < nmax:
        n *= 2
        new = np.mean(fct(_grid(n)))
        if abs(new - old) <= tol*abs(new):
            return new
        old = new
    raise Inconclusive


def _bz2(fct, tol=1e-11, n0=16, nmax=512):
    """Average of even periodic `fct(cos k1, cos k2)` symmetric in its arguments over two momenta."""
    def val(n):
        c = _grid(n)
        return np.mean(fct(c[:, None], c[None, :]))
    n = n0
    old = val(n)
    while n < nmax:
        n *= 2
        new = val(n)
        if abs(new - old) <= tol*abs(new):
            return new
        old = new
    raise Inconclusive


def gf_bethe(z, D):
    # eps = D cos(th), weight 2/pi sin^2(th): average over theta of 2 sin^2
    return _bz1(lambda c: 2*(1 - c*c)/(z - D*c))


def gf_bethez(z, D, Z):
    t2 = D*D/4/(Z - 1)  # D = 2 t sqrt(Z-1)
    g = 1/z
    for it in range(200000):
        new = 1/(z - (Z - 1)*t2*g)
        if abs(new - g) <= 1e-15*abs(new):
            g = new
            break
        g = new
    else:
        raise Inconclusive
    return 1/(z - Z*t2*g)


_GL = np.polynomial.legendre.leggauss(40)


def gf_box(z, D):
    # composite Gauss-Legendre
    def val(n):
        edges = np.linspace(-D, D, n + 1)
        mid, half = 0.5*(edges[1:] + edges[:-1]), 0.5*(edges[1] - edges[0])
        x = mid[:, None] + half*_GL[0]
        return np.sum(_GL[1]*half/(z - x))/(2*D)
    old = val(4)
    for n in (16, 64, 256, 1024):
        new = val(n)
        if abs(new - old) <= 1e-12*abs(new):
            return new
        old = new
    raise Inconclusive


def gf_onedim(z, D):
    return _bz1(lambda c: 1/(z - D*c))


def gf_square(z, D):
    return _bz1(lambda c: _g1(z, 0.5*D*c, 0.5*D))


def gf_rectangular(z, D, scale):
    t2 = D/(1 + scale)  # 2t
    return _bz1(lambda c: _g1(z, t2*c, t2*scale))


def gf_triangular(z, D):
    t = 4*D/9
    return _bz1(lambda c: _g1(z, t*(2*c*c - 1), 2*t*c))


def gf_honeycomb(z, D):
    # eps^2 = (D/3)^2 [1 + 4 cos(a)^2 + 4 cos(a) cos(b)]
    t2 = D*D/9
    w = z*z
    return z*_bz1(lambda c: _g1(w, t2*(1 + 4*c*c), t2*4*c))


def gf_kagome(z, D):
    # eps = D/3 (1 +- |f|), flat band at -2D/3
    t = D/3
    x = z - t
    w = x*x
    disp = 2*x*_bz1(lambda c: _g1(w, t*t*(1 + 4*c*c), t*t*4*c))
    return (disp + 1/(z + 2*t))/3


def gf_lieb(z, D):
    t = D*D/4
    w = z*z
    return (2*z*_bz1(lambda c: _g1(w, t*(2 + c), t)) + 1/z)/3


def gf_sc(z, D):
    t = D/3
    return _bz2(lambda c, d: _g1(z, t*(c + d), t))


def gf_bcc(z, D):
    return _bz2(lambda c, d: _g1(z, 0., D*c*d))


def gf_fcc(z, D):
    t = D/2
    return _bz2(lambda c, d: _g1(z, t*c*d, t*(c + d)))


GF = {"bethe": gf_bethe, "box": gf_box, "onedim": gf_onedim, "square": gf_square, "triangular": gf_triangular,
      "honeycomb": gf_honeycomb, "kagome": gf_kagome, "lieb": gf_lieb, "sc": gf_sc, "bcc": gf_bcc, "fcc": gf_fcc,
      "rectangular": gf_rectangular, "bethez": gf_bethez}
#: lattices parametrised by the half-bandwidth only
PLAIN = ["bethe", "box", "onedim", "square", "triangular", "honeycomb", "kagome", "lieb", "sc", "bcc", "fcc"]
#: support of the DOS in units of D
BAND = {"triangular": (-2/3, 4/3), "kagome": (-2/3, 4/3), "fcc": (-0.5, 1.5)}
#: points (in units of D) where the DOS is not smooth
SPECIAL = {
    "bethe": [-1, 1], "box": [-1, 1], "onedim": [-1, 1], "square": [-1, 0, 1],
    "triangular": [-2/3, -4/9, 4/3], "honeycomb": [-1, -1/3, 0, 1/3, 1],
    "kagome": [-2/3, 0, 1/3, 2/3, 4/3], "lieb": [-1, -2**-0.5, 0, 2**-0.5, 1],
    "sc": [-1, -1/3, 1/3, 1], "bcc": [-1, 0, 1], "fcc": [-0.5, 0, 1.5],
}
#: weight of dispersionless bands not contained in the DOS
FLAT = {"kagome": (-2/3, 1/3), "lieb": (0., 1/3)}
SYMMETRIC = ["bethe", "box", "onedim", "square", "honeycomb", "lieb", "sc", "bcc"]


def band(name):
    return BAND.get(name, (-1., 1.))


# ---------------------------------------------------------------------------
# exact moments, in units of D
# ---------------------------------------------------------------------------
def _cosm(m):
    """<cos^m k>"""
    return Fraction(comb(m, m//2), 2**m) if m % 2 == 0 else Fraction(0)


def _polymom(terms, m):
    """``<(sum_i c_i prod_j cos^{e_ij})^m>`` for terms ``[(c, (e1, e2, e3))]`` in three independent momenta."""
    # expand the power by repeated multiplication of sparse polynomials
    poly = {(0, 0, 0): Fraction(1)}
    for _ in range(m):
        new = {}
        for exp, co in poly.items():
            for c, e in terms:
                key = (exp[0] + e[0], exp[1] + e[1], exp[2] + e[2])
                new[key] = new.get(key, 0) + co*c
        poly = new
    return sum((co*_cosm(e[0])*_cosm(e[1])*_cosm(e[2]) for e, co in poly.items()), Fraction(0))


_HONEY2 = [(Fraction(1, 9), (0, 0, 0)), (Fraction(4, 9), (2, 0, 0)), (Fraction(4, 9), (1, 1, 0))]  # (|f|/3)^2
_LIEB2 = [(Fraction(1, 2), (0, 0, 0)), (Fraction(1, 4), (1, 0, 0)), (Fraction(1, 4), (0, 1, 0))]


@functools.lru_cache(maxsize=None)
def moment(name, m):
    """Exact m-th moment of the *spectrum* (flat bands included) in units of D**m."""
    F = Fraction
    if name == "bethe":
        if m % 2:
            return F(0)
        k = m//2
        return F(comb(2*k, k), (k + 1)*4**k)
    if name == "box":
        return F(0) if m % 2 else F(1, m + 1)
    if name == "onedim":
        return _cosm(m)
    if name == "square":
        return _polymom([(F(1, 2), (1, 0, 0)), (F(1, 2), (0, 1, 0))], m)
    if name == "triangular":
        t = F(4, 9)
        return _polymom([(2*t, (2, 0, 0)), (-t, (0, 0, 0)), (2*t, (1, 1, 0))], m)
    if name == "honeycomb":
        return F(0) if m % 2 else _polymom(_HONEY2, m//2)
    if name == "kagome":
        # eps = (1/3)(1 +- |f|): sum over even powers of |f|
        tot = F(0)
        for j in range(0, m + 1, 2):
            tot += comb(m, j)*F(1, 3)**(m - j)*_polymom(_HONEY2, j//2)
        return (2*tot + F(-2, 3)**m)/3
    if name == "lieb":
        if m == 0:
            return F(1)
        return F(0) if m % 2 else F(2, 3)*_polymom(_LIEB2, m//2)
    if name == "sc":
        t = F(1, 3)
        return _polymom([(t, (1, 0, 0)), (t, (0, 1, 0)), (t, (0, 0, 1))], m)
    if name == "bcc":
        return _cosm(m)**3
    if name == "fcc":
        t = F(1, 2)
        return _polymom([(t, (1, 1, 0)), (t, (1, 0, 1)), (t, (0, 1, 1))], m)
    raise KeyError(name)
