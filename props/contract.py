"""C26, C27: array contract of all public functions and rejection of invalid requests."""
import copy
import os
import pickle
import signal
import sys
import threading
import warnings
from functools import partial

import mpmath
import numpy as np
from hypothesis import strategies as st

import gftool as gf
from gftool import basis, beb, cpa, fourier, hermpade, lattice, linalg, matrix, pade, polepade, siam, statistics
from gftool import linearprediction as lp
from gftool.basis import pole
from vlib.core import Inconclusive, Violation, close, ensure, facet, raises
from vlib.gen import rng, seeds


# ---------------------------------------------------------------------------
# table of entry points: arguments, core dimensions of the arguments that broadcast
# ---------------------------------------------------------------------------
class Entry:
    """One public function.

    `make` gives the arguments from a random generator, `core` the number of core dimensions of the arguments which may
    carry additional leading axes, `tol` the tolerance relative to the largest value.
    """

    def __init__(self, name, call, make, core=None, tol=1e-9, heavy=False):
        self.name, self.call, self.make, self.core, self.tol, self.heavy = name, call, make, core or {}, tol, heavy


ENTRIES = {}


def entry(name, call, make, core=None, **kwds):
    assert name not in ENTRIES, name
    ENTRIES[name] = Entry(name, call, make, core, **kwds)


def outputs(res):
    """Flat list of arrays in the result."""
    if res is None:
        return []
    if isinstance(res, np.ndarray) or np.isscalar(res) or isinstance(res, (mpmath.mpf, mpmath.mpc)):
        return [res if isinstance(res, np.ndarray) else np.asarray(complex(res))]
    if isinstance(res, np.polynomial.Polynomial):
        return [res.coef]
    if isinstance(res, polepade.PadeApprox):
        return [res.zeros, res.poles, res.residues, np.asarray(res.amplitude)]
    if isinstance(res, (tuple, list)):
        return [arr for part in res for arr in outputs(part)]
    raise TypeError(type(res))


def rc(rg, *shape):
    return rg.normal(size=shape) + 1j*rg.normal(size=shape)


def zc(rg, *shape):
    return rg.normal(size=shape) + 1j*rg.uniform(0.3, 2, size=shape)


def one(x):
    return np.asarray(x)


LATS = {"bethe": {}, "bethez": {"coordination": 5}, "box": {}, "onedim": {}, "square": {}, "rectangular": {"scale": 1.6},
        "triangular": {}, "honeycomb": {}, "kagome": {}, "lieb": {}, "sc": {}, "bcc": {}, "fcc": {}}
for lat_, kw_ in LATS.items():
    mod_ = getattr(lattice, lat_)
    entry(f"{lat_}.gf_z", partial(mod_.gf_z, half_bandwidth=1.3, **kw_), lambda rg: {"z": one(zc(rg))}, {"z": 0})
    if hasattr(mod_, "hilbert_transform"):
        entry(f"{lat_}.hilbert_transform", partial(mod_.hilbert_transform, half_bandwidth=0.7, **kw_),
              lambda rg: {"xi": one(zc(rg))}, {"xi": 0})
    entry(f"{lat_}.dos", partial(mod_.dos, half_bandwidth=1.3, **kw_), lambda rg: {"eps": one(rg.uniform(-1.6, 1.6))}, {"eps": 0})
for fn_ in ("gf_d1_z", "gf_d2_z"):
    entry(f"bethe.{fn_}", partial(getattr(lattice.bethe, fn_), half_bandwidth=1.3), lambda rg: {"z": one(zc(rg))}, {"z": 0})
entry("bethe.gf_z_inv", partial(lattice.bethe.gf_z_inv, half_bandwidth=1.3), lambda rg: {"gf": one(rc(rg))}, {"gf": 0})
for lat_ in ("bethe", "box"):
    entry(f"{lat_}.gf_ret_t", partial(getattr(lattice, lat_).gf_ret_t, half_bandwidth=1.3, center=0.2),
          lambda rg: {"tt": one(rg.uniform(-2, 9))}, {"tt": 0})
entry("square.stress_trafo", partial(lattice.square.stress_trafo, half_bandwidth=1.3), lambda rg: {"xi": one(zc(rg))}, {"xi": 0})
if hasattr(getattr(gf, "_util", None), "_u_ellipk"):
    entry("_u_ellipk", gf._util._u_ellipk, lambda rg: {"z": one(zc(rg))}, {"z": 0})

# statistics
for fn_, lo_ in [("fermi_fct", -3), ("fermi_fct_d1", -3), ("bose_fct", 0.1)]:
    entry(fn_, getattr(statistics, fn_), lambda rg, lo_=lo_: {"eps": one(rg.uniform(lo_, 3)), "beta": one(rg.uniform(0.3, 5))},
          {"eps": 0, "beta": 0})
entry("fermi_fct complex", statistics.fermi_fct, lambda rg: {"eps": one(rc(rg)), "beta": one(rg.uniform(0.3, 2))}, {"eps": 0, "beta": 0})
entry("fermi_fct_inv", statistics.fermi_fct_inv, lambda rg: {"fermi": one(rg.uniform(0.01, 0.99)), "beta": one(rg.uniform(0.3, 5))},
      {"fermi": 0, "beta": 0})
for fn_ in ("matsubara_frequencies", "matsubara_frequencies_b"):
    entry(fn_, getattr(statistics, fn_), lambda rg: {"n_points": rg.integers(-5, 9, size=4), "beta": 1.7})
entry("pade_frequencies", partial(statistics.pade_frequencies, beta=2.3), lambda rg: {"num": int(rg.integers(1, 9))})

# poles
PW = {"poles": 1, "weights": 1}
entry("pole.gf_z", pole.gf_z, lambda rg: {"z": one(zc(rg)), "poles": rg.normal(size=4), "weights": rc(rg, 4)}, {"z": 0, **PW})
entry("pole.gf_d1_z", pole.gf_d1_z, lambda rg: {"z": one(zc(rg)), "poles": rg.normal(size=4), "weights": rg.normal(size=4)}, {"z": 0, **PW})
entry("pole.gf_tau", partial(pole.gf_tau, beta=2.1), lambda rg: {"tau": one(rg.uniform(0, 2.1)), "poles": rg.normal(size=4), "weights": rc(rg, 4)},
      {"tau": 0, **PW})
entry("pole_gf_tau_b", partial(gf.pole_gf_tau_b, beta=2.1),
      lambda rg: {"tau": one(rg.uniform(0, 2.1)), "poles": rg.uniform(0.2, 2, size=4), "weights": rg.normal(size=4)}, {"tau": 0, **PW})
entry("pole.gf_ret_t", pole.gf_ret_t, lambda rg: {"tt": one(rg.uniform(-1, 9)), "poles": rg.normal(size=4), "weights": rc(rg, 4)},
      {"tt": 0, **PW})
entry("pole.moments", partial(pole.moments, order=[1, 3, 2]), lambda rg: {"poles": rg.normal(size=4), "weights": rc(rg, 4)}, PW)
entry("gf_from_moments", lambda **k: pole.gf_from_moments(**k).residues, lambda rg: {"moments": rc(rg, 4)}, {"moments": 1}, tol=1e-7)


def _from_z(z, gf_z, moments, weight):
    return pole.gf_from_z(z, gf_z, n_pole=5, moments=moments, width=1.5, weight=weight).residues


entry("gf_from_z", _from_z, lambda rg: {"z": 1j*(np.arange(12) + 0.5), "gf_z": rc(rg, 12), "moments": rg.normal(size=2),
                                        "weight": rg.uniform(0.5, 2, size=12)}, {"gf_z": 1, "moments": 1}, tol=1e-6)
entry("gf_from_tau", lambda gf_tau, moments, weight: pole.gf_from_tau(gf_tau, n_pole=5, beta=3.3, moments=moments, occ=True, width=1.5,
                                                                     weight=weight).residues,
      lambda rg: {"gf_tau": -rg.uniform(size=12), "moments": rg.normal(size=2), "weight": rg.uniform(0.5, 2, size=12)},
      {"gf_tau": 1, "moments": 1}, tol=1e-6)
entry("PoleFct.eval_z", lambda poles, residues, z: basis.PoleFct(poles, residues).eval_z(z),
      lambda rg: {"poles": rg.normal(size=3), "residues": rc(rg, 3), "z": one(zc(rg))}, {"poles": 1, "residues": 1, "z": 0})
entry("PoleGf.eval_tau", lambda poles, residues, tau: basis.PoleGf(poles, residues).eval_tau(tau, beta=2.),
      lambda rg: {"poles": rg.normal(size=3), "residues": rc(rg, 3), "tau": one(rg.uniform(0, 2))}, {"poles": 1, "residues": 1, "tau": 0})
entry("PoleGf.occ", lambda poles, residues: basis.PoleGf(poles, residues).occ(beta=2.),
      lambda rg: {"poles": rg.normal(size=3), "residues": rc(rg, 3)}, {"poles": 1, "residues": 1})
entry("ZeroPole.eval", lambda zeros, poles, amplitude, z: basis.ZeroPole(zeros, poles, amplitude).eval(z),
      lambda rg: {"zeros": rc(rg, 2), "poles": rc(rg, 3), "amplitude": one(rg.normal()), "z": one(zc(rg))},
      {"zeros": 1, "poles": 1, "amplitude": 0, "z": 0}, tol=1e-8)
entry("ZeroPole.reciprocal", lambda zeros, poles, amplitude, z: basis.ZeroPole(zeros, poles, amplitude).reciprocal(z),
      lambda rg: {"zeros": rc(rg, 2), "poles": rc(rg, 3), "amplitude": one(1.5), "z": one(zc(rg))},
      {"zeros": 1, "poles": 1, "amplitude": 0, "z": 0}, tol=1e-8)

# package level
entry("surface_gf_zeps", gf.surface_gf_zeps, lambda rg: {"z": one(zc(rg)), "eps": one(rg.normal()), "hopping_nn": one(rg.uniform(0.2, 2))},
      {"z": 0, "eps": 0, "hopping_nn": 0})
for knd_ in "+-":
    entry(f"hubbard_dimer{knd_}", partial(gf.hubbard_dimer_gf_z, kind=knd_),
          lambda rg: {"z": one(zc(rg)), "hopping": one(rg.uniform(0.2, 2)), "interaction": one(rg.normal())},
          {"z": 0, "hopping": 0, "interaction": 0})
entry("hubbard_I", gf.hubbard_I_self_z, lambda rg: {"z": one(zc(rg)), "U": one(rg.normal()), "occ": one(rg.uniform(0, 1))},
      {"z": 0, "U": 0, "occ": 0})
entry("density", lambda gf_iw, potential: gf.density(gf_iw, potential, beta=1.9),
      lambda rg: {"gf_iw": 1/(1j*np.pi/1.9*(2*np.arange(32) + 1) + rg.normal()), "potential": one(rg.normal())})
entry("density_error", gf.density_error, lambda rg: {"delta_gf_iw": rg.normal(size=64)*1e-3, "iw_n": 1j*(2*np.arange(64) + 1.)})
entry("density_error2", gf.density_error2, lambda rg: {"delta_gf_iw": rg.normal(size=64)*1e-3, "iw_n": 1j*(2*np.arange(64) + 1.)})
entry("check_convergence", partial(gf.check_convergence, beta=1.9),
      lambda rg: {"gf_iw": 1/(1j*np.pi/1.9*(2*np.arange(64) + 1) + rg.normal()), "potential": one(rg.normal())})
entry("density_iw", lambda gf_iw, moments: gf.density_iw(1j*np.pi/1.9*(2*np.arange(16) + 1), gf_iw, 1.9, moments=moments),
      lambda rg: {"gf_iw": rc(rg, 16), "moments": rg.normal(size=2)}, {"gf_iw": 1, "moments": 1}, tol=1e-7)


def _density_pade(gf_iw, moments, izp, weights):
    return gf.density_iw(izp, gf_iw, 1.9, weights=weights, moments=moments, n_fit=2)


def _mk_density_pade(rg):
    izp, rp = statistics.pade_frequencies(9, beta=1.9)
    return {"gf_iw": rc(rg, 9), "moments": rg.normal(size=2), "izp": np.array(izp), "weights": np.array(rp)}


entry("density_iw pade", _density_pade, _mk_density_pade, {"gf_iw": 1, "moments": 1}, tol=1e-5)

# fourier
for fn_ in ("iw2tau_dft", "iw2tau_dft_soft"):
    entry(fn_, partial(getattr(fourier, fn_), beta=2.2), lambda rg: {"gf_iw": rc(rg, 10)}, {"gf_iw": 1})
entry("iw2tau", partial(fourier.iw2tau, beta=2.2), lambda rg: {"gf_iw": rc(rg, 10), "moments": rg.normal(size=2)}, {"gf_iw": 1, "moments": 1}, tol=1e-7)
entry("iw2tau n_fit", partial(fourier.iw2tau, beta=2.2, n_fit=2), lambda rg: {"gf_iw": rc(rg, 10), "moments": rg.normal(size=1)},
      {"gf_iw": 1, "moments": 1}, tol=1e-5)
for fn_ in ("tau2iv_dft", "tau2iv_ft_lin", "tau2iv", "tau2iw_dft", "tau2iw_ft_lin"):
    entry(fn_, partial(getattr(fourier, fn_), beta=2.2), lambda rg: {"gf_tau": rg.normal(size=11)}, {"gf_tau": 1})
entry("tau2iw", partial(fourier.tau2iw, beta=2.2), lambda rg: {"gf_tau": rg.normal(size=11)}, {"gf_tau": 1})
entry("tau2iw moments", partial(fourier.tau2iw, beta=2.2, n_pole=4), lambda rg: {"gf_tau": rg.normal(size=11), "moments": rg.normal(size=2)},
      {"gf_tau": 1, "moments": 1}, tol=1e-6)


def _izp2tau(gf_izp, tau, moments):
    izp, _ = statistics.pade_frequencies(8, beta=2.2)
    return fourier.izp2tau(izp, gf_izp, tau, beta=2.2, moments=moments)


entry("izp2tau", _izp2tau, lambda rg: {"gf_izp": rc(rg, 8), "tau": rg.uniform(0, 2.2, size=5), "moments": rg.normal(size=2)}, tol=1e-5)
entry("tau2izp", lambda gf_tau, izp: fourier.tau2izp(gf_tau, 2.2, izp), lambda rg: {
    "gf_tau": -rg.uniform(size=11), "izp": np.array(statistics.pade_frequencies(5, beta=2.2)[0])}, tol=1e-5)
TT = np.linspace(0, 3, 13)
for fn_ in ("tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z"):
    entry(fn_, getattr(fourier, fn_), lambda rg: {"tt": TT.copy(), "gf_t": rc(rg, 13), "z": zc(rg, 3)}, {"gf_t": 1})
entry("tt2z_lpz", fourier.tt2z_lpz, lambda rg: {"tt": TT.copy(), "gf_t": rc(rg, 13), "z": zc(rg, 3)}, {"gf_t": 1}, tol=1e-6)
entry("tt2z_pade", fourier.tt2z_pade, lambda rg: {"tt": TT.copy(), "gf_t": rc(rg, 13), "z": zc(rg, 3)}, {"gf_t": 1}, tol=1e-5)
entry("tt2z_herm2", fourier.tt2z_herm2, lambda rg: {"tt": TT.copy(), "gf_t": rc(rg, 13), "z": zc(rg, 3)}, {"gf_t": 1}, tol=1e-5)


# matrices
def _herm(rg, n=3):
    mat = rc(rg, n, n)
    return mat + mat.conj().T


def _dec(fct):
    def call(mat):
        dec = fct(mat)
        return [dec.reconstruct(kind="full"), dec.reconstruct(1/(1j + dec.eig), kind="diag"), dec.reconstruct(dec.eig**2)]
    return call


entry("decompose_mat", _dec(matrix.decompose_mat), lambda rg: {"mat": np.diag([-3., 0, 4]) + 0.3*rc(rg, 3, 3)}, {"mat": 2})
entry("decompose_her", _dec(matrix.decompose_her), lambda rg: {"mat": _herm(rg)}, {"mat": 2})
entry("decompose_sym", _dec(matrix.decompose_sym), lambda rg: {"mat": (lambda m: np.diag([-3., 0, 4]) + 0.2*(m + m.T))(rc(rg, 3, 3))}, {"mat": 2})
entry("decompose_gf", _dec(matrix.decompose_gf), lambda rg: {"mat": np.diag([-3., 0, 4]) + 0.3*rc(rg, 3, 3)}, {"mat": 2})
entry("decompose_hamiltonian", _dec(matrix.decompose_hamiltonian), lambda rg: {"mat": _herm(rg)}, {"mat": 2})
entry("Decomposition.reconstruct", lambda rv, eig, rv_inv: [matrix.Decomposition(rv, eig, rv_inv).reconstruct(kind=k) for k in ("full", "diag")],
      lambda rg: {"rv": rc(rg, 3, 3), "eig": rc(rg, 3), "rv_inv": rc(rg, 3, 3)}, {"rv": 2, "eig": 1, "rv_inv": 2})
entry("construct_gf", matrix.construct_gf, lambda rg: {"rv": rc(rg, 3, 3), "diag_inv": rc(rg, 3), "rv_inv": rc(rg, 3, 3)},
      )
entry("gf_2x2_z", matrix.gf_2x2_z, lambda rg: {"z": one(zc(rg)), "eps0": one(rg.normal()), "eps1": one(rg.normal()), "hopping": one(rg.uniform(0.3, 2))},
      {"z": 0, "eps0": 0, "eps1": 0, "hopping": 0})
entry("orth_compl", lambda mat: (lambda q: q @ np.swapaxes(q, -1, -2).conj())(linalg.orth_compl(mat)), lambda rg: {"mat": rc(rg, 5, 2)})
entry("lstsq_ec", linalg.lstsq_ec, lambda rg: {"a": rc(rg, 7, 4), "b": rc(rg, 7), "c": rc(rg, 2, 4), "d": rc(rg, 2)}, tol=1e-7)

# SIAM
entry("siam.gf0_loc_z", siam.gf0_loc_z, lambda rg: {"z": one(zc(rg)), "e_onsite": one(rg.normal()), "e_bath": rg.normal(size=3),
                                                    "hopping_sqr": rg.uniform(0.1, 1, size=3)},
      {"z": 0, "e_onsite": 0, "e_bath": 1, "hopping_sqr": 1})
entry("siam.hybrid_z", siam.hybrid_z, lambda rg: {"z": one(zc(rg)), "e_bath": rg.normal(size=3), "hopping_sqr": rg.uniform(0.1, 1, size=3)},
      {"z": 0, "e_bath": 1, "hopping_sqr": 1})
entry("siam.hamiltonian_matrix", siam.hamiltonian_matrix, lambda rg: {"e_onsite": one(rg.normal()), "e_bath": rg.normal(size=3), "hopping": rc(rg, 3)},
      {"e_onsite": 0, "e_bath": 1, "hopping": 1})
entry("siam.gf0_loc_ret_t", siam.gf0_loc_ret_t, lambda rg: {"tt": one(rg.uniform(0, 9)), "e_onsite": one(rg.normal()), "e_bath": rg.normal(size=3),
                                                            "hopping": rc(rg, 3)},
      {"tt": 0, "e_onsite": 0, "e_bath": 1, "hopping": 1})
for fn_ in ("gf0_loc_gr_t", "gf0_loc_le_t"):
    entry(f"siam.{fn_}", partial(getattr(siam, fn_), beta=2.3), lambda rg: {
        "tt": one(rg.uniform(-5, 5)), "e_onsite": one(rg.normal()), "e_bath": rg.normal(size=3), "hopping": rc(rg, 3)},
        {"tt": 0, "e_onsite": 0, "e_bath": 1, "hopping": 1})

# alloys
HIL = partial(lattice.bethe.hilbert_transform, half_bandwidth=1.)
CONC = np.array([0.3, 0.7])
for fn_ in ("self_root_eq", "self_fxdpnt_eq"):
    entry(f"cpa.{fn_}", partial(getattr(cpa, fn_), hilbert_trafo=HIL),
          lambda rg: {"self_cpa_z": one(rg.normal() - 0.3j), "z": one(zc(rg)), "e_onsite": rg.normal(size=2), "concentration": CONC.copy()},
          {"self_cpa_z": 0, "z": 0, "e_onsite": 1, "concentration": 1}, tol=1e-8)
entry("cpa.gf_cmpt_z", partial(cpa.gf_cmpt_z, hilbert_trafo=HIL),
      lambda rg: {"z": one(zc(rg)), "self_cpa_z": one(rg.normal() - 0.3j), "e_onsite": rg.normal(size=2)},
      {"z": 0, "self_cpa_z": 0, "e_onsite": 1}, tol=1e-8)
entry("cpa.solve_root", partial(cpa.solve_root, hilbert_trafo=HIL, concentration=CONC),
      lambda rg: {"z": one(rg.normal() + 1j*rg.uniform(0.8, 2)), "e_onsite": 0.4*rg.normal(size=2)}, {"z": 0, "e_onsite": 1}, tol=1e-3, heavy=True)
entry("cpa.solve_root z0", partial(cpa.solve_root, hilbert_trafo=HIL, concentration=CONC, restricted=False),
      lambda rg: {"z": rg.normal(size=2) + 1j*rg.uniform(0.8, 2, size=2), "e_onsite": 0.4*rg.normal(size=2), "self_cpa_z0": np.full(2, -0.1j)}, tol=1e-5,
      heavy=True)
entry("cpa.solve_fxdocc_root", partial(cpa.solve_fxdocc_root, hilbert_trafo=HIL, concentration=CONC, beta=2., occ=0.45, n_fit=0),
      lambda rg: {"iws": 1j*np.pi/2*(2*np.arange(12) + 1), "e_onsite": 0.4*rg.normal(size=2)}, tol=1e-5, heavy=True)
HOP = np.array([[1., 0.6], [0.6, 0.8]])
entry("beb.gf_loc_z", partial(beb.gf_loc_z, hilbert_trafo=HIL), lambda rg: {
    "z": one(zc(rg)), "self_beb_z": np.diag(rg.normal(size=2) - 0.3j) + 0.05*rg.normal(), "hopping": HOP.copy()}, {"z": 0, "self_beb_z": 2}, tol=1e-8)
entry("beb.self_root_eq", lambda self_beb_z, z, e_onsite, concentration, hopping: beb.self_root_eq(
    self_beb_z, z, e_onsite, concentration, beb.SpecDec(*_svd(hopping)), HIL),
      lambda rg: {"self_beb_z": np.diag(rg.normal(size=2) - 0.3j) + 0.05*rg.normal(), "z": one(zc(rg)), "e_onsite": rg.normal(size=2),
                  "concentration": CONC.copy(), "hopping": HOP.copy()}, {"self_beb_z": 2, "z": 0, "e_onsite": 1}, tol=1e-8)
entry("beb.solve_root", partial(beb.solve_root, hilbert_trafo=HIL, concentration=CONC),
      lambda rg: {"z": one(rg.normal() + 1j*rg.uniform(0.8, 2)), "e_onsite": 0.4*rg.normal(size=2), "hopping": HOP.copy()},
      {"z": 0, "e_onsite": 1}, tol=1e-3, heavy=True)


def _svd(hopping):
    dec = matrix.decompose_her(hopping)
    return dec.rv, dec.eig, dec.rv_inv


# Pade
def _ratio(rg, n):
    z = 1j*(np.arange(n) + 0.5)
    return z, np.sum(rg.uniform(0.2, 1, size=3)/(z[:, None] - rg.normal(size=3)), axis=-1)


entry("pade.coefficients", lambda fct_z, z: pade.coefficients(z, fct_z).astype(complex), lambda rg: dict(zip(("z", "fct_z"), _ratio(rg, 5))),
      {"fct_z": 1}, tol=1e-6)
entry("pade.calc_iterator", lambda z_out, z_in, coeff: [np.array(x, dtype=complex) for x in pade.calc_iterator(z_out, z_in, coeff)],
      lambda rg: (lambda z, f: {"z_out": zc(rg, 3), "z_in": z, "coeff": pade.coefficients(z, f)})(*_ratio(rg, 5)), {"coeff": 1}, tol=1e-8)
entry("pade.averaged", lambda z_out, z_in, fct_z: pade.averaged(z_out, z_in, fct_z=fct_z, filter_valid=pade.FilterNegImag(0.5), kind=pade.KindGf(3, 7)),
      lambda rg: (lambda z, f: {"z_out": zc(rg, 3), "z_in": z, "fct_z": f})(*_ratio(rg, 8)), tol=1e-5)
for filt_ in ("FilterHighVariance", "FilterNegImagNum"):
    entry(f"pade.{filt_}", lambda x, filt_=filt_: np.asarray(getattr(pade, filt_)(abs_num=2)(x), dtype=float), lambda rg: {"x": rc(rg, 5, 3)})
entry("pade.FilterNegImag", lambda x: np.asarray(pade.FilterNegImag(0.4)(x), dtype=float), lambda rg: {"x": rc(rg, 5, 3)})
entry("pade.avg_no_neg_imag", lambda z_out, z_in, fct_z: pade.avg_no_neg_imag(z_out, z_in, fct_z=fct_z, kind=pade.KindGf(3, 7), threshold=0.5),
      lambda rg: (lambda z, f: {"z_out": zc(rg, 3), "z_in": z, "fct_z": f})(*_ratio(rg, 8)), {"fct_z": 1}, tol=1e-5)
for fn_ in ("continuation",):
    entry(f"polepade.{fn_}", lambda z, fct_z: (lambda p: [p.eval_polefct(np.array([1j, 2.])), p.eval_zeropole(np.array([1j, 2.]))])(
        polepade.continuation(z, fct_z)), lambda rg: dict(zip(("z", "fct_z"), _ratio(rg, 14))), tol=1e-2)
entry("polepade.residues_ols", lambda z, fct_z, poles, weight, moments: polepade.residues_ols(z, fct_z, poles, weight=weight, moments=moments)[0],
      lambda rg: {"z": zc(rg, 9), "fct_z": rc(rg, 9), "poles": np.array([-1., 0.2, 1.]) - 0.5j, "weight": rg.uniform(0.5, 2, size=9), "moments": rc(rg, 1)},
      tol=1e-7)
entry("polepade.poles", lambda z, fct_z, weight: np.sort_complex(polepade.poles(z, fct_z, m=2, weight=weight)),
      lambda rg: {"z": zc(rg, 9), "fct_z": rc(rg, 9), "weight": rg.uniform(0.5, 2, size=9)}, tol=1e-5)
entry("polepade.zeros", lambda z, fct_z, poles, weight: np.sort_complex(polepade.zeros(z, fct_z, poles, weight=weight)),
      lambda rg: {"z": zc(rg, 9), "fct_z": rc(rg, 9), "poles": rc(rg, 3) - 2j, "weight": rg.uniform(0.5, 2, size=9)}, tol=1e-5)
entry("polepade.asymptotic", lambda z, fct_z, zeros, poles, weight: list(polepade.asymptotic(z, fct_z, zeros, poles, weight=weight)),
      lambda rg: {"z": zc(rg, 9), "fct_z": rc(rg, 9), "zeros": rc(rg, 2) - 2j, "poles": rc(rg, 3) - 2j, "weight": rg.uniform(0.5, 2, size=9)}, tol=1e-6)
entry("polepade.number_poles", lambda z, fct_z, weight: polepade.number_poles(z, fct_z, weight=weight),
      lambda rg: {**dict(zip(("z", "fct_z"), _ratio(rg, 14))), "weight": np.ones(14)})

# Taylor series
X0 = np.array([0.1, -0.2j])
entry("hermpade.pade", lambda an: hermpade.pade(an, 2, 3).eval(X0), lambda rg: {"an": rc(rg, 8)}, tol=1e-6)
entry("hermpade.pade fast", lambda an: hermpade.pade(an, 2, 3, fast=True).eval(X0), lambda rg: {"an": rc(rg, 8)}, tol=1e-6)
entry("hermpade.pade_lstsq", lambda an: hermpade.pade_lstsq(an, 2, 2).eval(X0), lambda rg: {"an": rc(rg, 8)}, tol=1e-6)
entry("hermpade.pader", lambda an: hermpade.pader(an, 2, 3).eval(X0), lambda rg: {"an": rc(rg, 8)}, tol=1e-6)
entry("Hermite2.from_taylor", lambda an: hermpade.Hermite2.from_taylor(an, 2, 1, 1).eval(X0), lambda rg: {"an": rc(rg, 8)}, tol=1e-5)
entry("Hermite2.from_taylor_lstsq", lambda an: hermpade.Hermite2.from_taylor_lstsq(an, 2, 1, 1).eval(X0), lambda rg: {"an": rc(rg, 8)}, tol=1e-5)

# linear prediction
for fn_ in ("pcoeff_covar", "pcoeff_burg"):
    entry(f"lp.{fn_}", lambda x, fn_=fn_: getattr(lp, fn_)(x, order=3), lambda rg: {"x": rc(rg, 12)}, {"x": 1}, tol=1e-6)
    entry(f"lp.{fn_} real", lambda x, fn_=fn_: getattr(lp, fn_)(x, order=3), lambda rg: {"x": rg.normal(size=12)}, {"x": 1}, tol=1e-6)
for stb_ in (False, True):
    entry(f"lp.predict stable={stb_}", partial(lp.predict, num=5, stable=stb_), lambda rg: {"x": rc(rg, 8), "pcoeff": 0.3*rc(rg, 3)}, {"x": 1},
          tol=1e-6)
    entry(f"lp.predict stack stable={stb_}", lambda xp, stb_=stb_: lp.predict(xp[..., :8], xp[..., 8:], num=5, stable=stb_),
          lambda rg: {"xp": np.concatenate([rc(rg, 8), 0.3*rc(rg, 3)])}, {"xp": 1}, tol=1e-6)
entry("lp.companion", lp.companion, lambda rg: {"a": np.concatenate([[1.2], rc(rg, 3)])}, {"a": 1})
NAMES = sorted(ENTRIES)
LIGHT = [n for n in NAMES if not ENTRIES[n].heavy]
SPREAD = [n for n in NAMES if ENTRIES[n].core]


def compare(got, want, tol, what):
    got, want = outputs(got), outputs(want)
    ensure(len(got) == len(want), lambda: f"{what}: {len(got)} results instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        ensure(a.shape == b.shape, lambda: f"{what}: shape {a.shape} instead of {b.shape}")
        scale = np.max(abs(b[np.isfinite(b)]), initial=0.)
        close(a, b, rtol=0, atol=tol*scale, what=f"{what} (result {i})")


def run(ent, args):
    try:
        return ent.call(**args)
    except RuntimeError as err:
        if ent.heavy:  # solver did not converge
            raise Inconclusive from err
        raise


# ---------------------------------------------------------------------------
# C26
# ---------------------------------------------------------------------------
LAYOUTS = ["fortran", "strided", "reversed", "readonly", "offset", "transposed", "zerostride"]


def relayout(arr, layout, rg):
    """Array with same values in other memory layout."""
    if not isinstance(arr, np.ndarray) or arr.ndim == 0 and layout != "readonly":
        return arr
    if layout == "fortran":
        out = np.asfortranarray(arr)
    elif layout == "strided":
        out = np.full(tuple(2*s + 1 for s in arr.shape), 7.7, dtype=arr.dtype)
        view = out[tuple(slice(1, None, 2) for _ in arr.shape)]
        view[...] = arr
        out = view
    elif layout == "reversed":
        idx = (slice(None, None, -1),)*arr.ndim
        out = np.ascontiguousarray(arr[idx])[idx]
    elif layout == "transposed":
        out = np.ascontiguousarray(np.moveaxis(arr, 0, -1))
        out = np.moveaxis(out, -1, 0)
    elif layout == "offset":
        buf = np.zeros(arr.nbytes + arr.itemsize + 1, dtype=np.uint8)
        start = (-buf.ctypes.data) % arr.itemsize + arr.itemsize//2  # not aligned to the item size
        out = buf[start:start + arr.nbytes].view(arr.dtype).reshape(arr.shape)
        out[...] = arr
    elif layout == "zerostride":
        if arr.shape[0] == 1 or not np.all(arr == arr[:1]):
            return arr
        out = np.broadcast_to(arr[:1], arr.shape)
        return out
    else:
        out = arr.copy()
        out.flags.writeable = False
    return out


def unchanged(args, before, what):
    for key, val in args.items():
        if isinstance(val, np.ndarray):
            old = before[key]
            ensure(val.shape == old.shape and val.dtype == old.dtype and np.array_equal(val, old, equal_nan=True),
                   lambda: f"{what} modified its argument {key!r}")


def batch(ent, seed, lead):
    """Arguments with leading axes and list of arguments for the elements."""
    rg = rng(seed)
    num = int(np.prod(lead, dtype=int))
    single = [ent.make(rng(seed + 1 + i)) for i in range(max(num, 1))]
    names = [k for k in ent.core]
    chosen = [k for k in names if rg.integers(0, 3)] or names[:1]
    shared = {k: v for k, v in single[0].items() if k not in chosen}
    full = dict(shared)
    for key in chosen:
        shape = single[0][key].shape
        if num:
            full[key] = np.stack([s[key] for s in single]).reshape((*lead, *shape))
        else:
            full[key] = np.zeros((*lead, *shape), dtype=single[0][key].dtype)
    return full, [{**shared, **{k: s[k] for k in chosen}} for s in single[:num]], chosen


@facet("C26", "layout", st.fixed_dictionaries({"name": st.sampled_from(NAMES), "layout": st.sampled_from(LAYOUTS), "seed": seeds(),
                                               "lead": st.sampled_from([[], [2], [2, 3]])}),
       quick=2000, thorough=20000, rule="same result for Fortran-ordered, strided, reversed, unaligned, read-only arguments, which stay untouched")
def check_layout(case):
    ent = ENTRIES[case["name"]]
    lead = case["lead"] if ent.core and not ent.heavy else []
    args = batch(ent, case["seed"], lead)[0] if lead else ent.make(rng(case["seed"]))
    args = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in args.items()}
    before = copy.deepcopy(args)
    ref = run(ent, args)
    unchanged(args, before, case["name"])
    rg = rng(case["seed"] + 7)
    other = {k: relayout(v, case["layout"], rg) for k, v in args.items()}
    got = run(ent, other)
    unchanged(other, before, case["name"])
    compare(got, ref, ent.tol, f"{case['name']} with {case['layout']} arguments")
    return case["layout"]


@facet("C26", "broadcast", st.fixed_dictionaries({"name": st.sampled_from(SPREAD), "seed": seeds(),
                                                  "lead": st.sampled_from([[], [1], [2], [3], [2, 2], [3, 1], [2, 1, 2]])}),
       quick=2000, thorough=20000, rule="arguments with leading axes give the results of separate calls, also if only some carry them")
def check_broadcast(case):
    ent, lead = ENTRIES[case["name"]], case["lead"]
    full, singles, chosen = batch(ent, case["seed"], lead)
    before = copy.deepcopy(full)
    got = outputs(run(ent, full))
    unchanged(full, before, case["name"])
    want = [outputs(run(ent, arg)) for arg in singles]
    for i, part in enumerate(got):
        ref = np.stack([w[i] for w in want])
        ref = ref.reshape((*lead, *ref.shape[1:]))
        compare(part, ref, ent.tol, f"{case['name']} with leading axes {tuple(lead)} of {chosen}")
    return f"{len(lead)} axes"


@facet("C26", "long", st.fixed_dictionaries({"name": st.sampled_from(SPREAD), "seed": seeds(), "size": st.sampled_from([65, 300, 1025, 5000, 20011]),
                                             "dim": st.integers(1, 2)}),
       quick=500, thorough=6000, rule="long arrays (up to 20000 elements) equal separate calls for the few distinct elements they consist of")
def check_long(case):
    ent = ENTRIES[case["name"]]
    if ent.heavy:
        return False
    rg = rng(case["seed"])
    size = case["size"] if all(c == 0 for c in ent.core.values()) else min(case["size"], 301)
    single = [ent.make(rng(case["seed"] + 1 + i)) for i in range(4)]
    chosen = [k for k in ent.core if rg.integers(0, 4)] or list(ent.core)
    shared = {k: v for k, v in single[0].items() if k not in chosen}
    idx = rg.integers(0, 4, size=size)
    full = dict(shared)
    shape = (size,) if case["dim"] == 1 else (5, size//5)
    idx = idx[:int(np.prod(shape))]
    for key in chosen:
        full[key] = np.stack([s[key] for s in single])[idx].reshape(*shape, *single[0][key].shape)
    got = outputs(run(ent, full))
    want = [outputs(run(ent, {**shared, **{k: s[k] for k in chosen}})) for s in single]
    for i, part in enumerate(got):
        ref = np.stack([w[i] for w in want])[idx]
        compare(part, ref.reshape(*shape, *ref.shape[1:]), ent.tol, f"{case['name']} for {shape} elements of {chosen}")
    return f"{size} elements"


@facet("C26", "outer", st.fixed_dictionaries({"name": st.sampled_from([n for n in SPREAD if len(ENTRIES[n].core) > 1]), "seed": seeds(),
                                              "shape": st.sampled_from([[2, 3], [3, 2], [1, 2]])}),
       quick=900, thorough=9000, rule="arguments with different leading axes broadcast against each other (outer product)")
def check_outer(case):
    ent = ENTRIES[case["name"]]
    if ent.heavy:
        return False
    rg = rng(case["seed"])
    n1, n2 = case["shape"]
    names = list(ent.core)
    rg.shuffle(names)
    cut = int(rg.integers(1, len(names)))
    first, second = names[:cut], names[cut:]
    single = [ent.make(rng(case["seed"] + 1 + i)) for i in range(max(n1, n2))]
    full = dict(single[0])
    for key in first:  # axis 0
        val = np.stack([single[i][key] for i in range(n1)])
        full[key] = val[:, None]
    for key in second:  # axis 1
        full[key] = np.stack([single[i][key] for i in range(n2)])
    got = outputs(run(ent, full))
    for i in range(n1):
        for j in range(n2):
            arg = {**single[0], **{k: single[i][k] for k in first}, **{k: single[j][k] for k in second}}
            want = outputs(run(ent, arg))
            for g, w in zip(got, want):
                ensure(g.shape == (n1, n2, *w.shape), lambda: f"{case['name']}: shape {g.shape} instead of {(n1, n2, *w.shape)}")
                compare(g[i, j], w, ent.tol, f"{case['name']} outer product of {first} and {second}")
    return "outer"


UNIT = {"beta": 1, "half_bandwidth": 1, "scale": 1, "center": 0, "width": 1}
SPECIAL = np.array([0, 1, -1, 0.5, -0.5, 1/3, -1/3, 1/9, -1/9, 3, -3, 2, 0.25, 1e-3, 1e3])


@facet("C26", "special", st.fixed_dictionaries({
    "name": st.sampled_from(LIGHT), "seed": seeds(), "unit": st.sampled_from(["int", "float", "no"]), "n": st.integers(1, 6),
    "values": st.sampled_from(["random", "special", "real", "ones", "zeros", "single"])}), quick=2500, thorough=20000,
       rule="neutral parameters (unit bandwidth, temperature) and special values (zero, one, band edges, single elements): "
            "arguments untouched, result is no view of them, settings kept")
def check_special(case):
    ent, kind, rg = ENTRIES[case["name"]], case["values"], rng(case["seed"])
    call = ent.call
    if case["unit"] != "no" and isinstance(call, partial):
        conv = int if case["unit"] == "int" else float
        call = partial(call.func, *call.args, **{k: conv(UNIT[k]) if k in UNIT else v for k, v in call.keywords.items()})
    args = ent.make(rg)
    elementwise = bool(ent.core) and all(c == 0 for c in ent.core.values()) and set(ent.core) == set(args)
    for key, val in args.items():
        if key == "beta" and case["unit"] != "no":
            val = args[key] = np.ones_like(val) if isinstance(val, np.ndarray) else type(val)(1)
        if key == "tt" and np.ndim(val) == 1 and case["unit"] != "no":  # unit time step
            args[key] = np.arange(val.size)*(1 if case["unit"] == "int" and case["seed"] % 2 else 1.0)
            continue
        if not isinstance(val, np.ndarray) or val.dtype.kind not in "fc":
            continue
        if kind in ("special", "real"):
            pick = rg.choice(SPECIAL, size=(case["n"], *val.shape) if elementwise else val.shape)
            args[key] = pick + (1j*val.imag if val.dtype.kind == "c" and kind == "special" else np.zeros((), val.dtype))
        elif elementwise:
            args[key] = np.stack([val]*case["n"])
        if kind == "ones":
            args[key] = np.ones_like(args[key])
        elif kind == "zeros":
            args[key] = np.zeros_like(args[key])
        elif kind == "single" and ent.core.get(key) == 1 and len({args[k].shape[-1] for k, c in ent.core.items() if c == 1}) == 1:
            args[key] = val[..., :1].copy()
    before = copy.deepcopy(args)
    modes = dict.fromkeys(["divide", "over", "under", "invalid"], ["ignore", "warn"][case["seed"] & 1])
    res = None
    with warnings.catch_warnings(), np.errstate(**modes):
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        state = settings_state()
        try:
            res = call(**args)
        except Violation:
            raise
        except Exception:  # noqa: BLE001 - not every special value is valid, other properties judge that
            pass
        new = settings_state()
    unchanged(args, before, f"{case['name']} ({case['unit']}, {kind})")
    for key, val in state.items():
        ensure(new[key] == val, lambda: f"{case['name']} changed the global setting {key} from {val} to {new[key]}")
    if res is None:
        return "exception"
    for part in outputs(res):
        for key, val in args.items():
            if isinstance(val, np.ndarray):
                ensure(not np.shares_memory(part, val), lambda: f"result of {case['name']} is a view of its argument {key}")
    return kind


@st.composite
def history(draw):
    names = draw(st.lists(st.sampled_from(LIGHT), min_size=1, max_size=4))
    steps = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2), st.sampled_from(["keep", "spoil"])), min_size=2, max_size=10))
    return {"names": names, "steps": [list(s) for s in steps], "seed": draw(seeds())}


def settings_state():
    return {"errstate": np.geterr(), "mp.dps": mpmath.mp.dps, "mp.prec": mpmath.mp.prec, "random": repr(np.random.get_state()[1][:5]) + str(np.random.get_state()[2]),
            "filters": list(warnings.filters), "print": str(np.get_printoptions()["precision"])}


@facet("C26", "history", history(), quick=1500, thorough=15000,
       rule="histories of calls with few argument sets: same call same result, earlier results untouched, even after overwriting others; global settings kept")
def check_history(case):
    """The global settings are not the default ones, such that any change of them shows."""
    modes = {key: ["ignore", "warn"][(case["seed"] >> i) & 1] for i, key in enumerate(["divide", "over", "under", "invalid"])}
    with warnings.catch_warnings(), np.errstate(**modes), mpmath.workdps(15 + 2*(case["seed"] & 1)):
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        return follow_history(case)


def follow_history(case):
    reference = {}
    kept = []
    state = settings_state()
    repeats = 0
    for idx, which, action in case["steps"]:
        name = case["names"][idx % len(case["names"])]
        ent = ENTRIES[name]
        args = ent.make(rng(case["seed"] + which))
        res = run(ent, args)
        key = (name, which)
        now = [np.array(a, copy=True) for a in outputs(res)]
        if key in reference:
            compare(now, reference[key], ent.tol, f"repeated call of {name}")
            repeats += 1
        else:
            reference[key] = now
        if action == "spoil":
            for part in outputs(res):
                if part.ndim and part.flags.writeable and not any(np.shares_memory(part, a) for a in args.values() if isinstance(a, np.ndarray)):
                    part[...] = 17.
        else:
            kept.append((name, outputs(res), now))
    for name, live, snap in kept:
        for a, b in zip(live, snap):
            ensure(np.array_equal(a, b, equal_nan=True), lambda: f"result of {name} changed by later calls")
    new = settings_state()
    for key, val in state.items():
        ensure(new[key] == val, lambda: f"global setting {key} changed from {val} to {new[key]}")
    if len(case["steps"]) == len({(c[0] % len(case["names"]), c[1]) for c in case["steps"]}) and not kept:
        return False
    return f"{min(repeats, 3)} repeats"


def forked(ent, args):
    """Result of the call in a forked process, which leaves no trace in this one."""
    recv, send = os.pipe()
    pid = os.fork()
    if pid == 0:  # pragma: no cover
        signal.alarm(30)
        try:
            try:
                data = pickle.dumps([np.array(a) for a in outputs(ent.call(**args))])
            except Exception as err:  # noqa: BLE001
                data = pickle.dumps(repr(err))
            with os.fdopen(send, "wb") as pipe:
                pipe.write(data)
        finally:
            os._exit(0)
    os.close(send)
    with os.fdopen(recv, "rb") as pipe:
        data = pipe.read()
    os.waitpid(pid, 0)
    if not data:
        raise Inconclusive
    res = pickle.loads(data)
    if isinstance(res, str):
        raise Inconclusive
    return res


@facet("C26", "near_repeat", st.fixed_dictionaries({
    "name": st.sampled_from(LIGHT), "seed": seeds(), "size": st.sampled_from([0, 1, 5, 40]),
    "change": st.sampled_from(["element", "tiny", "all", "argument", "swap"]), "in_place": st.booleans()}),
    quick=500, thorough=9000, rule="after a call, the same call with slightly changed arguments (also changed in place by the caller) gives what it gives without the first call")
def check_near_repeat(case):
    ent, rg = ENTRIES[case["name"]], rng(case["seed"] + 3)
    lead = [case["size"]] if ent.core and case["size"] else []

    def make(seed):
        args = batch(ent, seed, lead)[0] if lead else ent.make(rng(seed))
        return {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in args.items()}

    first, second = make(case["seed"]), make(case["seed"] + 100)
    keys = [k for k, v in first.items() if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.shape == np.shape(second[k]) and v.size]
    if not keys:
        return False
    key = keys[rg.integers(0, len(keys))]
    change = case["change"]
    new = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in first.items()}
    ncore = ent.core.get(key)
    if change == "all":
        new.update({k: np.array(second[k]) for k in keys})
    elif change == "argument" and ncore is not None:
        new[key] = np.array(second[key])
    elif change in ("element", "swap") and ncore is not None and lead and new[key].ndim > ncore:
        i = int(rg.integers(0, new[key].shape[0]))
        if change == "element":
            new[key][i] = second[key][i]
        else:
            new[key][[i, 0]] = new[key][[0, i]]
    elif change == "tiny" and ncore == 0:
        new[key] *= 1 + 1e-6*np.sign(rg.normal(size=new[key].shape))
    else:
        new.update({k: np.array(second[k]) for k in keys})
    want = forked(ent, {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in new.items()})
    run(ent, first)
    if case["in_place"]:
        for k in keys:
            first[k][...] = new[k]
        new = {**new, **{k: first[k] for k in keys}}
    got = outputs(run(ent, new))
    tol = ent.tol if ent.tol < 1e-8 or change != "tiny" else 1e-8
    compare(got, want, tol, f"{case['name']} after a call with {'in-place ' if case['in_place'] else ''}changed arguments ({change})")
    return change


THREADABLE = [n for n in LIGHT if "mp" not in n]


@facet("C26", "threads", st.fixed_dictionaries({
    "names": st.lists(st.sampled_from(THREADABLE), min_size=1, max_size=3), "seed": seeds(), "threads": st.integers(2, 6),
    "lead": st.sampled_from([[], [3], [60]])}),
    quick=150, thorough=2500, rule="calls of several threads at once give the results of serial calls")
def check_threads(case):
    jobs = []
    for i in range(case["threads"]):
        ent = ENTRIES[case["names"][i % len(case["names"])]]
        args = batch(ent, case["seed"] + 10*i, case["lead"])[0] if ent.core and case["lead"] else ent.make(rng(case["seed"] + 10*i))
        jobs.append((ent, args, [np.array(a) for a in outputs(run(ent, args))]))
    barrier = threading.Barrier(len(jobs))
    done = [None]*len(jobs)

    def work(i):
        ent, args, __ = jobs[i]
        try:
            barrier.wait(20)
            done[i] = [[np.array(a) for a in outputs(ent.call(**args))] for __ in range(3)]
        except Exception as err:  # noqa: BLE001
            done[i] = err

    interval = sys.getswitchinterval()
    try:
        sys.setswitchinterval(1e-6)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pool = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
            for thread in pool:
                thread.start()
            for thread in pool:
                thread.join(60)
    finally:
        sys.setswitchinterval(interval)
    for res, (ent, __, want) in zip(done, jobs):
        if res is None:
            raise Inconclusive
        ensure(not isinstance(res, Exception), lambda: f"{ent.name} in several threads: {res!r}")
        for got in res:
            compare(got, want, ent.tol, f"{ent.name} in several threads")
    return f"{len(jobs)} threads"


@facet("C26", "scalars", st.fixed_dictionaries({
    "name": st.sampled_from([n for n in SPREAD if all(c == 0 for c in ENTRIES[n].core.values()) and n != "gf_2x2_z"]),
    "seed": seeds(), "kind": st.sampled_from(["python", "numpy", "array1", "empty", "int"])}),
    quick=1200, thorough=9000, rule="Python scalars, 0-d, one-element, empty and integer-valued input equal array evaluation")
def check_scalars(case):
    ent, kind = ENTRIES[case["name"]], case["kind"]
    args = ent.make(rng(case["seed"]))
    if kind == "int":
        val = {k: np.round(v.real*3) for k, v in args.items()}
        if any(np.any(v == 0) for v in val.values()) or "fermi" in val or "occ" in val or "hopping_nn" in val:
            return False
        val = {k: np.stack([v, v + np.sign(v)]) for k, v in val.items()}
        want = run(ent, val)
        if not all(np.all(np.isfinite(o)) for o in outputs(want)):
            return False
        got = run(ent, {k: v.astype(int) for k, v in val.items()})
        compare(got, want, 1e-10, f"{ent.name}: integer input")
        return kind
    want = run(ent, args)
    shape = {"python": (), "numpy": (), "array1": (1,), "empty": (0,)}[kind]
    make = {"python": lambda v: v.item(), "numpy": lambda v: v[()], "array1": lambda v: v.reshape(1), "empty": lambda v: v.reshape(1)[:0]}[kind]
    got = outputs(run(ent, {k: make(v) for k, v in args.items()}))
    for g, w in zip(got, outputs(want)):
        ensure(g.shape == shape, lambda: f"{ent.name}: {kind} input gives shape {g.shape}")
        if kind != "empty":
            compare(g.reshape(()), w, ent.tol, f"{ent.name}: {kind} input")
    return kind


def retype(val, kind):
    """Array of other data type and the double precision array of the same values."""
    if not isinstance(val, np.ndarray) or val.dtype.kind not in "fc":
        return val, val
    if kind == "swapped":
        return val.astype(val.dtype.newbyteorder()), val
    if kind == "single":
        low = val.astype(np.float32 if val.dtype.kind == "f" else np.complex64)
        return low, low.astype(val.dtype)
    whole = np.round(3*val.real)
    return whole.astype({"int64": np.int64, "int32": np.int32}[kind]), whole


@facet("C26", "dtype", st.fixed_dictionaries({
    "name": st.sampled_from([n for n in LIGHT if n != "polepade.continuation"]), "seed": seeds(),
    "kind": st.sampled_from(["int64", "int32", "single", "swapped"]), "pick": st.integers(0, 7)}), quick=2000, thorough=20000,
       rule="integer, single precision and byte-swapped arrays give the result of the same values in double precision")
def check_dtype(case):
    ent, kind = ENTRIES[case["name"]], case["kind"]
    if kind != "swapped" and case["name"].startswith("polepade"):  # ranks depend on rounding
        return False
    if kind == "single" and ent.tol > 1e-8:  # ill-conditioned
        return False
    args = ent.make(rng(case["seed"]))
    names = [k for k, v in args.items() if isinstance(v, np.ndarray) and v.dtype.kind in "fc"]
    chosen = [k for i, k in enumerate(names) if (case["pick"] + 1) >> i & 1] or names[:1]
    if not chosen:
        return False
    pairs = {k: retype(args[k], kind) for k in chosen}
    full = {**args, **{k: v[1] for k, v in pairs.items()}}
    try:
        with np.errstate(all="ignore"):
            want = run(ent, full)
    except Exception:  # noqa: BLE001 - rounded values are not always valid, other properties judge that
        return False
    parts = outputs(want)
    if not all(np.all(np.isfinite(o)) for o in parts) or any(np.max(abs(o), initial=0) > 1e6 for o in parts):
        return False
    low = {**args, **{k: v[0] for k, v in pairs.items()}}
    before = copy.deepcopy(low)
    got = run(ent, low)
    unchanged(low, before, case["name"])
    tol = max(ent.tol, {"single": 3e-3}.get(kind, 1e-9))
    compare(got, want, tol, f"{case['name']}: {', '.join(chosen)} of type {kind}")
    return kind


# ---------------------------------------------------------------------------
# C27: both sides of every documented limit
# ---------------------------------------------------------------------------
LIMITS = {}
REFUSE = (ValueError, AssertionError)


def limit(fn):
    LIMITS[fn.__name__.lstrip("_")] = fn
    return fn


def accepts(fn, what):
    try:
        return fn()
    except Exception as err:
        raise Violation(f"{what}: valid request rejected with {type(err).__name__}({err})") from err


def finite_all(res, what):
    for part in outputs(res):
        ensure(np.all(np.isfinite(part)), lambda: f"{what}: valid request gives {part}")
    return res


@limit
def bosonic_poles(rg):
    n = int(rg.integers(1, 6))
    poles = rg.uniform(0.05, 3, size=n)
    w, beta = rg.normal(size=n), float(np.exp(rg.uniform(-1, 3)))
    tau = np.linspace(0, beta, int(rg.integers(1, 5)))
    finite_all(accepts(lambda: gf.pole_gf_tau_b(tau, poles, w, beta), "positive poles"), "positive poles")
    bad = poles.copy()
    bad[rg.integers(n)] = [0., -10.**-rg.integers(0, 12), -rg.uniform(0, 3)][rg.integers(3)]
    raises(ValueError, lambda: gf.pole_gf_tau_b(tau, bad, w, beta), "bosonic Green's function of negative or zero pole")
    stack = np.stack([poles, bad])
    raises(ValueError, lambda: gf.pole_gf_tau_b(0.5*beta, stack, w, beta), "one negative pole in a stack")


@limit
def imaginary_times(rg):
    n = int(rg.integers(1, 6))
    poles, w, beta = rg.uniform(0.05, 3, size=n), rg.normal(size=n), float(np.exp(rg.uniform(-1, 3)))
    tau = np.linspace(0, beta, int(rg.integers(2, 7)))
    bad = tau.copy()
    bad[rg.integers(tau.size)] = [-beta*10.**-rg.integers(0, 9), beta*(1 + 10.**-rg.integers(0, 9))][rg.integers(2)]
    for name, fct in [("pole_gf_tau", gf.pole_gf_tau), ("pole_gf_tau_b", gf.pole_gf_tau_b)]:
        finite_all(accepts(lambda: fct(tau, poles, w, beta), name), name)
        raises(REFUSE, lambda: fct(bad, poles, w, beta), f"{name} for tau outside [0, beta]")
    raises(REFUSE, lambda: basis.PoleGf(poles, w).eval_tau(bad, beta), "eval_tau for tau outside [0, beta]")


@limit
def dimer_kind(rg):
    z = zc(rg, 2)
    for kind in ("+", "-"):
        finite_all(accepts(lambda: gf.hubbard_dimer_gf_z(z, 1., 2., kind=kind), "kind"), "kind")
    bad = ["", "++", "+-", "plus", "bonding", "p", None, 1, -1, " +", "*"][rg.integers(11)]
    raises(ValueError, lambda: gf.hubbard_dimer_gf_z(z, 1., 2., kind=bad), f"kind={bad!r}")


@limit
def fit_constraints_z(rg):
    n, extra = int(rg.integers(1, 6)), int(rg.integers(1, 4))
    z = 1j*(np.arange(20) + 0.5)
    data = np.sum(1/(z[:, None] - rg.uniform(-1, 1, size=3)), axis=-1)
    mom = np.array([3.] + [0.]*(n + extra - 1))
    accepts(lambda: pole.gf_from_z(z, data, n_pole=n, moments=mom[:n]), "as many moments as poles")
    raises(ValueError, lambda: pole.gf_from_z(z, data, n_pole=n, moments=mom), "more moments than poles")
    lead = np.stack([data, 2*data])
    raises(ValueError, lambda: pole.gf_from_z(z, lead, n_pole=n, moments=mom), "more moments than poles (stacked)")


@limit
def fit_constraints_tau(rg):
    n, beta, occ = int(rg.integers(1, 6)), 3., bool(rg.integers(2))
    tau = np.linspace(0, beta, 30)
    data = gf.pole_gf_tau(tau, [-0.3, 0.5], [0.5, 0.5], beta)
    kwds = {"occ": 0.5} if occ else {}
    most = n - occ
    mom = np.array([1.] + [0.]*(n + 3))
    accepts(lambda: pole.gf_from_tau(data, n, beta, moments=mom[:most], **kwds), "as many constraints as poles")
    many = mom[:most + int(rg.integers(1, 4))]
    raises(ValueError, lambda: pole.gf_from_tau(data, n, beta, moments=many, **kwds), "more constraints than poles")


@limit
def complement_shape(rg):
    n, k = int(rg.integers(1, 6)), int(rg.integers(1, 4))
    accepts(lambda: linalg.orth_compl(rg.normal(size=(n + k, n))), "tall matrix")
    raises(ValueError, lambda: linalg.orth_compl(rg.normal(size=(n, n))), "square matrix")
    raises(ValueError, lambda: linalg.orth_compl(rg.normal(size=(n, n + k))), "wide matrix")


@limit
def empty_constraints(rg):
    m, n, k = int(rg.integers(2, 6)), int(rg.integers(1, 4)), int(rg.integers(1, 4))
    a, b = rg.normal(size=(m + n, n)), rg.normal(size=m + n)
    accepts(lambda: linalg.lstsq_ec(a, b, np.zeros((0, n)), np.zeros(0)), "no constraint")
    raises(ValueError, lambda: linalg.lstsq_ec(a, b, np.zeros((0, n)), rg.normal(size=k)), "right-hand side without constraints")


@limit
def pade_shapes(rg):
    n = int(rg.integers(2, 9))
    z, f = _ratio(rg, n)
    accepts(lambda: pade.coefficients(z, f), "matching lengths")
    accepts(lambda: pade.coefficients(z, np.stack([f, 2*f])), "matching lengths (stacked)")
    for other in {n - 1, n + 1, n + int(rg.integers(2, 5))} - {0}:
        raises(ValueError, lambda: pade.coefficients(z, np.resize(f, other)), f"{n} points, {other} values")
        raises(ValueError, lambda: pade.coefficients(z, np.resize(f, (2, other))), f"{n} points, {other} values (stacked)")
    raises(ValueError, lambda: pade.coefficients(z.reshape(1, n), f), "2d points")


@limit
def pade_kinds(rg):
    lo = int(rg.integers(1, 20))
    for kind in (pade.KindGf, pade.KindSelf):
        accepts(lambda: kind(lo, lo + 2), "n_min < n_max")
        raises(ValueError, lambda: kind(lo, lo), "n_max == n_min")
        raises(ValueError, lambda: kind(lo, lo - int(rg.integers(1, 9))), "n_max < n_min")
        raises(ValueError, lambda: kind(-int(rg.integers(kind is pade.KindGf, 5)), lo), "n_min < 1")  # KindGf rounds 0 up to 1


@limit
def pade_valid(rg):
    z, f = _ratio(rg, 8)
    coeff = pade.coefficients(z, f)
    kind = pade.KindGf(3, 7)
    num = len(list(range(8))[kind[:] if isinstance(kind, slice) else slice(kind.start, kind.stop, kind.step)])
    good = np.ones(num, dtype=bool)
    avg = accepts(lambda: pade.Averager(z, coeff, valid_pades=good, kind=kind), "boolean selection")
    finite_all(avg(np.array([1j])), "average")
    for dtype in (int, float):
        raises(TypeError, lambda: pade.Averager(z, coeff, valid_pades=good.astype(dtype), kind=kind), f"selection of {dtype}")
        raises(TypeError, lambda: pade.Mod_Averager(z, coeff, abs, valid_pades=good.astype(dtype), kind=kind), f"selection of {dtype}")
    raises(RuntimeError, lambda: pade.Averager(z, coeff, valid_pades=~good, kind=kind), "nothing valid")
    raises(RuntimeError, lambda: pade.Mod_Averager(z, coeff, abs, valid_pades=~good, kind=kind), "nothing valid")
    only = np.zeros(num, dtype=bool)
    only[rg.integers(num)] = True
    accepts(lambda: pade.Averager(z, coeff, valid_pades=only, kind=kind), "a single valid approximant")
    stack = np.stack([coeff, coeff])
    mixed = np.stack([good, ~good], axis=-1)
    raises(RuntimeError, lambda: pade.Averager(z, stack, valid_pades=mixed, kind=kind), "nothing valid for one of two")
    nan = coeff.copy()
    nan[0] = np.nan
    raises(RuntimeError, lambda: pade.Averager(z, nan, valid_pades=good, kind=kind)(np.array([1j])), "NaN approximants")
    raises(RuntimeError, lambda: pade.Mod_Averager(z, nan, abs, valid_pades=good, kind=kind)(np.array([1j])), "NaN approximants")


@limit
def pade_filters(rg):
    num, rel = int(rg.integers(1, 6)), float(rg.uniform(0.1, 0.9))
    for filt in (pade.FilterHighVariance, pade.FilterNegImagNum):
        accepts(lambda: filt(abs_num=num), "abs_num")
        accepts(lambda: filt(rel_num=rel), "rel_num")
        raises(REFUSE, lambda: filt(abs_num=num, rel_num=rel), "abs_num and rel_num")
        raises(REFUSE, lambda: filt(), "neither abs_num nor rel_num")
    raises(REFUSE, lambda: pade.FilterHighVariance(rel_num=1 + float(rg.integers(0, 4))), "rel_num >= 1")
    raises(REFUSE, lambda: pade.FilterHighVariance(rel_num=-float(rg.integers(0, 4))), "rel_num <= 0")
    raises(REFUSE, lambda: pade.FilterHighVariance(abs_num=-int(rg.integers(0, 4))), "abs_num <= 0")
    z, f = _ratio(rg, 8)
    kind, out = pade.KindGf(3, 7), rg.normal(size=3) + 0.5j
    raises(RuntimeError, lambda: pade.avg_no_neg_imag(out, z, fct_z=-f, kind=kind, threshold=1e-8), "no causal approximant")
    accepts(lambda: pade.avg_no_neg_imag(out, z, fct_z=f, kind=kind, threshold=1e2), "causal approximants")
    raises(REFUSE, lambda: pade.averaged(out, z, fct_z=f, coeff=pade.coefficients(z, f), kind=kind), "fct_z and coeff")


@limit
def taylor_orders(rg):
    p, q, r = (int(x) for x in rg.integers(0, 5, size=3))
    an = rc(rg, p + q + r + 2)*0.7**np.arange(p + q + r + 2)
    pades = {"pade": hermpade.pade, "pade fast": partial(hermpade.pade, fast=True), "pade_lstsq": hermpade.pade_lstsq, "pader": hermpade.pader}
    for name, fct in pades.items():
        accepts(lambda: fct(an[:p + q + 1], p, q), f"{name}[{p}/{q}] of {p + q + 1} coefficients")
        if p + q:
            short = an[:int(rg.integers(1, p + q + 1))]
            raises(ValueError, lambda: fct(short, p, q), f"{name}[{p}/{q}] of {short.size} coefficients")
    herms = {"hermite2": hermpade.hermite2, "hermite2_lstsq": hermpade.hermite2_lstsq, "from_taylor": hermpade.Hermite2.from_taylor,
             "from_taylor_lstsq": hermpade.Hermite2.from_taylor_lstsq}
    for name, fct in herms.items():
        accepts(lambda: fct(an, p, q, r), f"{name}[{p}/{q}/{r}] of {p + q + r + 2} coefficients")
        short = an[:int(rg.integers(1, p + q + r + 2))]
        raises(ValueError, lambda: fct(short, p, q, r), f"{name}[{p}/{q}/{r}] of {short.size} coefficients")


@limit
def prediction_order(rg):
    n = int(rg.integers(2, 12))
    x = rc(rg, n)
    accepts(lambda: lp.pcoeff_covar(x, n - 1), "order = N - 1")
    accepts(lambda: lp.pcoeff_covar(x, 1), "order = 1")
    raises(ValueError, lambda: lp.pcoeff_covar(x, n), "order = N")
    raises(ValueError, lambda: lp.pcoeff_covar(x, n + int(rg.integers(1, 5))), "order > N")
    raises(ValueError, lambda: lp.pcoeff_covar(np.stack([x]*(n + 3)), n), "order = N (stacked)")


@limit
def prediction_steps(rg):
    x, coeff = rc(rg, 6), 0.2*rc(rg, int(rg.integers(1, 5)))
    for stable in (False, True):
        for num in (0, int(rg.integers(1, 9))):
            out = accepts(lambda: lp.predict(x, coeff, num=num, stable=stable), "num >= 0")
            ensure(out.shape == (6 + num,), lambda: f"predict: shape {out.shape}")
        raises(ValueError, lambda: lp.predict(x, coeff, num=-int(rg.integers(1, 9)), stable=stable), "negative num")


@limit
def companion_poly(rg):
    n = int(rg.integers(2, 7))
    a = rc(rg, n)
    accepts(lambda: lp.companion(a), "polynomial")
    raises(ValueError, lambda: lp.companion(a[:1]), "constant polynomial")
    bad = a.copy()
    bad[0] = 0
    raises(ValueError, lambda: lp.companion(bad), "leading coefficient zero")
    raises(ValueError, lambda: lp.companion(np.stack([a, bad, a])), "leading coefficient zero for one of three")


@limit
def symmetric_check(rg):
    n = int(rg.integers(2, 6))
    mat = rc(rg, n, n)
    i, j = (int(x) for x in rg.permutation(n)[:2])
    eps = 10.**-rg.integers(0, 4)
    sym, her = mat + mat.T, mat + mat.conj().T
    accepts(lambda: matrix.decompose_sym(sym), "symmetric matrix")
    accepts(lambda: matrix.decompose_her(her), "Hermitian matrix")
    bad = sym.copy()
    bad[i, j] += eps*(1 + abs(bad[i, j]))
    raises(ValueError, lambda: matrix.decompose_sym(bad), "non-symmetric matrix")
    raises(ValueError, lambda: matrix.decompose_sym(np.stack([sym, bad])), "non-symmetric matrix in stack")
    accepts(lambda: matrix.decompose_sym(bad, check=False), "check=False")
    bad = her.copy()
    bad[i, j] += eps*(1 + abs(bad[i, j]))*[1, 1j][rg.integers(2)]
    raises(ValueError, lambda: matrix.decompose_her(bad), "non-Hermitian matrix")
    raises(ValueError, lambda: matrix.decompose_her(np.stack([bad, her])), "non-Hermitian matrix in stack")
    accepts(lambda: matrix.decompose_her(bad, check=False), "check=False")
    bad = her.copy()
    bad[i, i] += 1j*eps*(1 + abs(bad[i, i]))
    raises(ValueError, lambda: matrix.decompose_her(bad), "complex diagonal")
    bad = her.copy()
    bad[i, j] = bad[j, i] = 1 + 1j  # symmetric, not Hermitian
    raises(ValueError, lambda: matrix.decompose_her(bad), "symmetric instead of Hermitian element")
    bad = sym.copy()
    bad[i, j], bad[j, i] = 1 + 1j, 1 - 1j
    raises(ValueError, lambda: matrix.decompose_sym(bad), "Hermitian instead of symmetric element")


@limit
def pole_number(rg):
    n, deg = int(rg.integers(8, 20)), int(rg.integers(-2, 1))
    z, f = _ratio(rg, n)
    most = (n - deg - 1)//2
    z = (z/1j).real
    raises(ValueError, lambda: polepade.number_poles(z, f, degree=deg, n_poles0=most + 1), "n_poles0 one too large")
    raises(ValueError, lambda: polepade.number_poles(z, f, degree=deg, n_poles0=most + int(rg.integers(1, 9))), "n_poles0 too large")
    start = int(rg.integers(3, most + 1)) if most > 3 else most
    try:
        polepade.number_poles(z, f, degree=deg, n_poles0=start)
    except RuntimeError:
        pass  # no exact solution


@limit
def pole_search(rg):
    """Data which is no rational function: no number of poles gives a solution."""
    n = int(rg.integers(6, 20))
    z = rg.permutation(np.linspace(-1, 1, n))
    raises(RuntimeError, lambda: polepade.number_poles(z, rc(rg, n), degree=-1), "random numbers")


@limit
def pole_continuation(rg):
    z, f = _ratio(rg, 14)
    raises(ValueError, lambda: polepade.continuation(z, f, degree=int(rg.integers(1, 5))), "positive degree")
    accepts(lambda: polepade.continuation(z, f, degree=-1), "degree -1")
    poles_ = rc(rg, int(rg.integers(1, 4))) - 3j
    mom = rc(rg, poles_.size + 1)
    accepts(lambda: polepade.residues_ols(z, f, poles_, moments=mom[:-1]), "as many moments as poles")
    raises(ValueError, lambda: polepade.residues_ols(z, f, poles_, moments=mom), "more moments than poles")


@limit
def no_chemical_potential(rg):
    gap = float(rg.uniform(0.01, 5))*[1, -1][rg.integers(2)]
    mu0 = float(rg.normal())
    raises(RuntimeError, lambda: gf.chemical_potential(lambda mu: gap, mu0=mu0), "constant occupation error")
    raises(RuntimeError, lambda: gf.chemical_potential(lambda mu: gap + 0.5*gap*np.tanh(mu), mu0=mu0), "unreachable occupation")
    res = accepts(lambda: gf.chemical_potential(lambda mu: np.tanh(mu - gap), mu0=mu0), "reachable occupation")
    ensure(abs(res - gap) < 1e-6, lambda: f"chemical potential {res} instead of {gap}")
    raises(RuntimeError, lambda: gf.chemical_potential(lambda mu: np.tanh(mu - gap), mu0=mu0 + gap + 1., maxiter=1), "too few iterations")


@limit
def no_convergence(rg):
    z = rg.normal(size=3) + 0.05j
    e, hop = np.array([-1.2, 0.9]), HOP
    raises(RuntimeError, lambda: cpa.solve_root(z, e, CONC, HIL, options={"fatol": 1e-14, "maxiter": 1}), "CPA after one iteration")
    raises(RuntimeError, lambda: beb.solve_root(z, e, CONC, hop, HIL, options={"fatol": 1e-14, "maxiter": 1}), "BEB after one iteration")
    iws = 1j*np.pi/2*(2*np.arange(8) + 1)
    raises(RuntimeError, lambda: cpa.solve_fxdocc_root(iws, e, CONC, HIL, beta=2., occ=0.31, options={"fatol": 1e-14, "maxiter": 1}),
           "CPA for fixed occupation after one iteration")
    far = z + 3j
    finite_all(accepts(lambda: cpa.solve_root(far, 0.3*e, CONC, HIL), "CPA"), "CPA")


@limit
def coordination(rg):
    z = zc(rg, 2)
    for zz in (1, 0, -int(rg.integers(1, 5))):
        raises(REFUSE, lambda: lattice.bethez.gf_z(z, 1., coordination=zz), f"coordination {zz}")
        raises(REFUSE, lambda: lattice.bethez.dos(z.real, 1., coordination=zz), f"coordination {zz}")
    finite_all(accepts(lambda: lattice.bethez.gf_z(z, 1., coordination=2), "coordination 2"), "coordination 2")


@limit
def laplace_domain(rg):
    n = int(rg.integers(4, 15))
    tt, g, z = 0.1*np.arange(n), rc(rg, n), zc(rg, 3)
    fct = [gf.fourier.tt2z_trapz, gf.fourier.tt2z_lin, gf.fourier.tt2z_simps][rg.integers(3)]
    accepts(lambda: gf.fourier.tt2z(tt, g, z, laplace=fct), "retarded")
    accepts(lambda: gf.fourier.tt2z(-tt, g, z.conj(), laplace=fct), "advanced")
    accepts(lambda: gf.fourier.tt2z(tt, g, z.real + 0j, laplace=fct), "real axis")
    i = rg.integers(3)
    bad = z.copy()
    bad[i] = bad[i].real - 1j*10.**-rg.integers(0, 12)
    raises(ValueError, lambda: gf.fourier.tt2z(tt, g, bad, laplace=fct), "one frequency in the lower half-plane")
    raises(ValueError, lambda: gf.fourier.tt2z(-tt, g, bad.conj(), laplace=fct), "one frequency in the upper half-plane")
    raises(ValueError, lambda: gf.fourier.tt2z(-tt, g, z, laplace=fct), "advanced times, retarded frequencies")
    shifted = tt - tt[rg.integers(1, n)]
    if shifted[-1] > 0:
        raises(ValueError, lambda: gf.fourier.tt2z(shifted, g, z, laplace=fct), "times of both signs")


@limit
def time_grids(rg):
    n = int(rg.integers(6, 15))
    dt = float(np.exp(rg.uniform(-3, 1)))
    tt, g, z = dt*np.arange(n), rc(rg, n)*0.7**np.arange(n), zc(rg, 3)/dt
    bad = tt.copy()
    bad[int(rg.integers(1, n)):] += dt*10.**-rg.integers(0, 3)
    for name in ("tt2z_simps", "tt2z_lin", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"):
        fct = getattr(gf.fourier, name)
        accepts(lambda: fct(tt, g, z), f"{name} on equidistant grid")
        raises(ValueError, lambda: fct(bad, g, z), f"{name} on non-equidistant grid")
        if name in ("tt2z_pade", "tt2z_herm2", "tt2z_lpz"):
            accepts(lambda: fct(tt, g, z, quad="simps"), f"{name} with Simpson weights")
            quad = ["simpson", "trapezoid", "", "Trapz", None][rg.integers(5)]
            raises(ValueError, lambda: fct(tt, g, z, quad=quad), f"{name} with quad={quad!r}")
    accepts(lambda: gf.fourier.tt2z_trapz(bad, g, z), "tt2z_trapz on non-equidistant grid")
    # series in the phase need times starting from zero; otherwise refused, or the phase is taken into account
    start = int(rg.integers(1, 4))
    tt, z = dt*(start + np.arange(40)), zc(rg, 3)/dt
    pole = (rg.uniform(-1, 1) - 1j*rg.uniform(0.5, 0.8))/dt
    ref = -1j*np.trapezoid(np.exp(1j*(z[:, None] - pole)*tt), x=tt)
    scale = dt
    for name in ("tt2z_pade", "tt2z_lpz"):
        try:
            got = getattr(gf.fourier, name)(tt, -1j*np.exp(-1j*pole*tt), z, quad="trapz")
        except (AssertionError, ValueError):
            continue
        ensure(np.allclose(got, ref, rtol=0, atol=1e-4*scale), f"{name}: wrong result for times starting from {start} steps")


@limit
def dos_moments(rg):
    for name in ("bethe", "onedim", "square", "triangular", "honeycomb", "kagome", "lieb", "sc", "bcc", "fcc"):
        mod = getattr(lattice, name)
        accepts(lambda: mod.dos_moment(int(rg.integers(1, 21)), half_bandwidth=1.), f"{name}: tabulated moment")
        order = 2*int(rg.integers(50, 500))
        try:
            mod.dos_moment(order, half_bandwidth=1.)
        except NotImplementedError:
            continue
        raise Violation(f"{name}: moment {order} not rejected")


@facet("C27", "limits", st.fixed_dictionaries({"limit": st.sampled_from(sorted(LIMITS)), "seed": seeds()}), quick=1200, thorough=15000,
       rule="for each documented limit, generated requests beyond it raise the documented error and the nearest valid ones are accepted")
def check_limits(case):
    LIMITS[case["limit"]](rng(case["seed"]))
    return case["limit"]
