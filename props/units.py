"""Metamorphic facet ``units`` of most properties: results do not depend on the units.

All functions relate physical quantities.  Measured in other units of energy (frequencies and energies multiplied by
``E``, times and inverse temperatures divided by it) and with data of other magnitude (Green's functions and weights
multiplied by ``B``) the results have to be the same numbers times the factor following from their dimension.  The
factors are powers of two, thus the scaling itself is exact.
"""
import warnings
from functools import partial

import mpmath
import numpy as np
from hypothesis import strategies as st

import gftool as gt
from gftool import basis, beb, cpa, fourier, hermpade, lattice, linalg, matrix, pade, polepade, siam, statistics
from gftool import linearprediction as lp
from vlib.core import close, ensure, facet
from vlib.gen import rng, seeds


class Unit:
    def __init__(self, name, call, make, dims, out, tol, energy, amp):
        self.name, self.call, self.make, self.dims, self.out = name, call, make, dims, out
        self.tol, self.energy, self.amp = tol, energy, amp


TABLE = {}


def unit(pid, name, call, make, dims, out, tol=1e-11, energy=60, amp=60):
    """Register a function.

    `dims` gives the exponents (energy, amplitude) of the arguments, `out` those of the results; both may be arrays to
    treat elements differently.  `energy` and `amp` are the largest exponents of two.
    """
    TABLE.setdefault(pid, {})[name] = Unit(name, call, make, dims, out, tol, energy, amp)


def results(res):
    if isinstance(res, (tuple, list)):
        return [np.asarray(r) for r in res]
    return [np.asarray(res)]


def factor(dim, ene, amp):
    if callable(dim):
        return dim(ene, amp)
    return ene**float(dim[0])*amp**float(dim[1])


def check_units(case):
    ent = TABLE[case["pid"]][case["name"]]
    rg = rng(case["seed"])
    args = ent.make(rg)
    ene = 2.0**int(round(case["e"]*ent.energy))
    amp = 2.0**int(round(case["b"]*ent.amp))
    if ene == amp == 1:
        return False
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        ref = results(ent.call(**args))
        other = results(ent.call(**{k: v*factor(ent.dims[k], ene, amp) if k in ent.dims else v for k, v in args.items()}))
    outs = ent.out if isinstance(ent.out, list) else [ent.out]
    ensure(len(ref) == len(other) == len(outs), lambda: f"{ent.name}: number of results depends on the units")
    for i, (one, two, dim) in enumerate(zip(ref, other, outs)):
        ensure(one.shape == two.shape, lambda: f"{ent.name}: shape {two.shape} in other units instead of {one.shape}")
        fac = factor(dim, ene, amp)
        size = np.max(abs(one[np.isfinite(one)]), initial=0.)
        close(two/fac, one, rtol=0, atol=ent.tol*size, what=f"{ent.name} result {i} in units 2**{np.log2(ene):.0f}, amplitudes 2**{np.log2(amp):.0f}")
    return case["name"]


def rc(rg, *shape):
    return rg.normal(size=shape) + 1j*rg.normal(size=shape)


def zc(rg, n=4):
    return rg.normal(size=n) + 1j*rg.choice([1, -1], size=n)*np.exp(rg.uniform(-2, 1, size=n))


def zret(rg, n=4):
    return rg.normal(size=n) + 1j*np.exp(rg.uniform(-2, 1, size=n))


LATS = {"bethe": {}, "bethez": {"coordination": 5}, "box": {}, "onedim": {}, "square": {}, "rectangular": {"scale": 1.6},
        "triangular": {}, "honeycomb": {}, "kagome": {}, "lieb": {}, "sc": {}, "bcc": {}, "fcc": {}}


def band(rg):
    return {"z": zc(rg), "half_bandwidth": rg.uniform(0.5, 2)}


def mp_call(fct, eps, half_bandwidth):
    return np.array([float(fct(mpmath.mpf(float(x)), half_bandwidth=mpmath.mpf(half_bandwidth))) for x in eps])


for name_, kw_ in LATS.items():
    mod_ = getattr(lattice, name_)
    unit("C01", f"{name_}.gf_z", partial(mod_.gf_z, **kw_), band, {"z": (1, 0), "half_bandwidth": (1, 0)}, (-1, 0), tol=1e-9)
    if hasattr(mod_, "hilbert_transform"):
        unit("C01", f"{name_}.hilbert_transform", lambda z, half_bandwidth, mod_=mod_, kw_=kw_: mod_.hilbert_transform(z, half_bandwidth, **kw_),
             band, {"z": (1, 0), "half_bandwidth": (1, 0)}, (-1, 0), tol=1e-9)
    unit("C02", f"{name_}.gf_z scalar", lambda z, half_bandwidth, mod_=mod_, kw_=kw_: mod_.gf_z(z[0], half_bandwidth, **kw_),
         band, {"z": (1, 0), "half_bandwidth": (1, 0)}, (-1, 0), tol=1e-9)
    unit("C03", f"{name_}.dos", partial(mod_.dos, **kw_), lambda rg: {"eps": rg.uniform(-1.6, 1.6, size=5), "half_bandwidth": rg.uniform(0.8, 1.5)},
         {"eps": (1, 0), "half_bandwidth": (1, 0)}, (-1, 0), tol=1e-8)
    if hasattr(mod_, "dos_mp"):
        unit("C03", f"{name_}.dos_mp", partial(mp_call, mod_.dos_mp, **kw_),
             lambda rg: {"eps": rg.uniform(-1.6, 1.6, size=1), "half_bandwidth": rg.uniform(0.8, 1.5)},
             {"eps": (1, 0), "half_bandwidth": (1, 0)}, (-1, 0), tol=1e-11)
    if hasattr(mod_, "dos_moment"):
        unit("C04", f"{name_}.dos_moment", lambda half_bandwidth, mod_=mod_: np.array([mod_.dos_moment(m, half_bandwidth) for m in range(1, 21)]),
             lambda rg: {"half_bandwidth": rg.uniform(0.5, 2)}, {"half_bandwidth": (1, 0)}, lambda e, b: e**np.arange(1., 21.), tol=1e-12, energy=40)
bethe_ = lattice.bethe
unit("C05", "bethe.gf_d1_z", bethe_.gf_d1_z, band, {"z": (1, 0), "half_bandwidth": (1, 0)}, (-2, 0), tol=1e-10)
unit("C05", "bethe.gf_d2_z", bethe_.gf_d2_z, band, {"z": (1, 0), "half_bandwidth": (1, 0)}, (-3, 0), tol=1e-10)
unit("C05", "bethe.gf_z_inv", bethe_.gf_z_inv, lambda rg: {"gf": zc(rg)*0.9, "half_bandwidth": rg.uniform(0.5, 2)},
     {"gf": (-1, 0), "half_bandwidth": (1, 0)}, (1, 0))
for mod_ in (lattice.bethe, lattice.box):
    unit("C05", f"{mod_.__name__}.gf_ret_t", mod_.gf_ret_t,
         lambda rg: {"tt": np.r_[0., rg.uniform(-1, 30, size=5), 1e-5, 1e-3], "half_bandwidth": rg.uniform(0.5, 2), "center": rg.choice([0., 0.7, -1.3])},
         {"tt": (-1, 0), "half_bandwidth": (1, 0)}, (0, 0))
unit("C05", "surface_gf_zeps", gt.surface_gf_zeps if hasattr(gt, "surface_gf_zeps") else gt.surface_gf_z if hasattr(gt, "surface_gf_z") else None,
     lambda rg: {"z": zc(rg), "eps": rg.normal(size=4), "hopping_nn": rg.uniform(0.3, 2)},
     {"z": (1, 0), "eps": (1, 0), "hopping_nn": (1, 0)}, (-1, 0))
unit("C05", "square.stress_trafo", lattice.square.stress_trafo, lambda rg: {"xi": zc(rg), "half_bandwidth": rg.uniform(0.5, 2)},
     {"xi": (1, 0), "half_bandwidth": (1, 0)}, (0, 0), tol=1e-9)

# statistics
EB_ = {"eps": (1, 0), "beta": (-1, 0)}


def eps_beta(rg):
    return {"eps": rg.normal(size=5)*rg.choice([1., 30.]), "beta": np.exp(rg.uniform(-2, 2))}


unit("C06", "fermi_fct", statistics.fermi_fct, eps_beta, EB_, (0, 0), energy=200)
unit("C06", "bose_fct", statistics.bose_fct, eps_beta, EB_, (0, 0), energy=200)
unit("C06", "fermi_fct complex", lambda eps, beta: statistics.fermi_fct(eps*(1 + 0.3j), beta), eps_beta, EB_, (0, 0), energy=200)
unit("C06", "fermi_fct_d1", statistics.fermi_fct_d1, eps_beta, EB_, (-1, 0), energy=200)
unit("C06", "fermi_fct_inv", statistics.fermi_fct_inv, lambda rg: {"fermi": rg.uniform(size=5), "beta": rg.uniform(0.3, 5)}, {"beta": (-1, 0)}, (1, 0),
     energy=200)
unit("C06", "matsubara_frequencies", lambda beta: [statistics.matsubara_frequencies(np.arange(-3, 9), beta), statistics.matsubara_frequencies_b(np.arange(-3, 9), beta)],
     lambda rg: {"beta": rg.uniform(0.3, 5)}, {"beta": (-1, 0)}, [(1, 0), (1, 0)], energy=200)
unit("C07", "pade_frequencies", lambda beta, num: gt.pade_frequencies(num, beta), lambda rg: {"beta": rg.uniform(0.3, 5), "num": int(rg.integers(1, 30))},
     {"beta": (-1, 0)}, [(1, 0), (0, 0)], energy=200)

# pole functions
PW_ = {"poles": (1, 0), "weights": (0, 1)}


def pole_args(rg, **kwds):
    n = int(rg.integers(1, 6))
    return {"poles": rg.normal(size=n), "weights": rc(rg, n), **kwds}


unit("C08", "gf_z", gt.pole_gf_z, lambda rg: pole_args(rg, z=zc(rg)), {**PW_, "z": (1, 0)}, (-1, 1))
unit("C08", "gf_d1_z", gt.pole_gf_d1_z if hasattr(gt, "pole_gf_d1_z") else basis.pole.gf_d1_z, lambda rg: pole_args(rg, z=zc(rg)), {**PW_, "z": (1, 0)}, (-2, 1))
unit("C08", "gf_tau", lambda x, beta, poles, weights: gt.pole_gf_tau(x*beta, poles, weights, beta),
     lambda rg: pole_args(rg, x=np.r_[0, rg.uniform(size=4), 1], beta=rg.uniform(0.3, 9)), {**PW_, "beta": (-1, 0)}, (0, 1))
unit("C08", "gf_tau_b", lambda x, beta, poles, weights: gt.pole_gf_tau_b(x*beta, poles, weights, beta),
     lambda rg: {"poles": rg.uniform(0.1, 2, size=3), "weights": rc(rg, 3), "x": np.r_[0, rg.uniform(size=4), 1], "beta": rg.uniform(0.3, 9)},
     {**PW_, "beta": (-1, 0)}, (0, 1))
unit("C08", "gf_ret_t", gt.pole_gf_ret_t, lambda rg: pole_args(rg, tt=np.r_[0, rg.uniform(-2, 9, size=5)]), {**PW_, "tt": (-1, 0)}, (0, 1))
unit("C08", "moments", lambda poles, weights: gt.pole_gf_moments(poles, weights, np.arange(1, 8)), pole_args, PW_,
     lambda e, b: b*e**np.arange(7.), energy=40)
unit("C09", "from_moments", lambda moments, width: basis.PoleFct.from_moments(moments, width=width),
     lambda rg: {"moments": rg.normal(size=4), "width": rg.uniform(0.5, 2)},
     {"moments": lambda e, b: b*e**np.arange(4.), "width": (1, 0)}, [(1, 0), (0, 1)], tol=1e-9, energy=20)
for mom_ in (0, 2):
    unit("C09", f"from_z {mom_} moments",
         lambda z, gf_z, width, moments, weight, mom_=mom_: basis.PoleFct.from_z(z, gf_z, n_pole=3, moments=moments[:mom_], width=width, weight=weight),
         lambda rg: {"z": 1j*np.arange(1., 9.), "gf_z": rc(rg, 8), "width": rg.uniform(0.5, 2), "moments": rg.normal(size=2),
                     "weight": [None, rg.uniform(0.1, 1, size=8)][rg.integers(2)]},
         {"z": (1, 0), "gf_z": (-1, 1), "width": (1, 0), "moments": lambda e, b: b*e**np.arange(2.)}, [(1, 0), (0, 1)], tol=1e-8, energy=12)
    unit("C09", f"from_tau {mom_} moments",
         lambda gf_tau, beta, width, moments, mom_=mom_: basis.PoleGf.from_tau(gf_tau, n_pole=3, beta=beta, moments=moments[:mom_], width=width),
         lambda rg: {"gf_tau": rg.normal(size=9), "beta": rg.uniform(2, 9), "width": rg.uniform(0.5, 2), "moments": rg.normal(size=2)},
         {"gf_tau": (0, 1), "beta": (-1, 0), "width": (1, 0), "moments": lambda e, b: b*e**np.arange(2.)}, [(1, 0), (0, 1)], tol=1e-8, energy=12)
unit("C10", "density_iw", lambda iws, gf_iw, beta, moments, weights: gt.density_iw(iws, gf_iw, beta=beta, weights=weights, moments=moments),
     lambda rg: (lambda beta: {"iws": gt.matsubara_frequencies(np.arange(9), beta), "gf_iw": rc(rg, 9), "beta": beta, "moments": rg.normal(size=1),
                               "weights": rg.uniform(0.5, 2, size=9)})(rg.uniform(0.5, 9)),
     {"iws": (1, 0), "gf_iw": (-1, 1), "beta": (-1, 0), "moments": (0, 1)}, (0, 1), tol=1e-10)


def mu_call(poles, beta, occ, mu0, step0):
    def root(mu):
        return float(np.mean(gt.fermi_fct(poles - mu, beta)) - occ)
    mu = gt.chemical_potential(root, mu0=mu0, step0=step0)
    return [np.array(mu), np.array(root(mu) + occ)]


unit("C10", "chemical_potential", mu_call,
     lambda rg: {"poles": rg.normal(size=3), "beta": rg.uniform(1, 5), "occ": rg.uniform(0.1, 0.9), "mu0": rg.normal() + 3, "step0": rg.uniform(0.5, 3)},
     {"poles": (1, 0), "beta": (-1, 0), "mu0": (1, 0), "step0": (1, 0)}, [lambda e, b: e, (0, 0)], tol=1e-5, energy=12)

# Fourier transforms
for name_ in ("tau2iw_dft", "tau2iw_ft_lin", "tau2iv_dft", "tau2iv_ft_lin", "tau2iv"):
    unit("C11", name_, getattr(fourier, name_), lambda rg: {"gf_tau": rg.normal(size=int(rg.integers(4, 30))), "beta": rg.uniform(0.5, 9)},
         {"gf_tau": (0, 1), "beta": (-1, 0)}, (-1, 1))
unit("C11", "tau2iv[dft]", partial(fourier.tau2iv, fourier=fourier.tau2iv_dft), lambda rg: {"gf_tau": rg.normal(size=int(rg.integers(4, 30))), "beta": rg.uniform(0.5, 9)},
     {"gf_tau": (0, 1), "beta": (-1, 0)}, (-1, 1))
unit("C11", "tau2iw", lambda gf_tau, beta: fourier.tau2iw(gf_tau, beta), lambda rg: {"gf_tau": rg.normal(size=int(rg.integers(4, 30))), "beta": rg.uniform(0.5, 9)},
     {"gf_tau": (0, 1)}, (0, 1), tol=1e-9)
unit("C11", "tau2iw moments", lambda gf_tau, beta, moments: fourier.tau2iw(gf_tau, beta, n_pole=3, moments=moments),
     lambda rg: {"gf_tau": rg.normal(size=int(rg.integers(4, 30))), "beta": rg.uniform(0.5, 9), "moments": rg.normal(size=2)},
     {"gf_tau": (0, 1), "moments": (0, 1)}, (0, 1), tol=1e-8)
for name_ in ("iw2tau_dft", "iw2tau_dft_soft"):
    unit("C12", name_, getattr(fourier, name_), lambda rg: {"gf_iw": rc(rg, int(rg.integers(1, 30))), "beta": rg.uniform(0.5, 9)},
         {"gf_iw": (-1, 1), "beta": (-1, 0)}, (0, 1))
unit("C12", "iw2tau", lambda gf_iw, beta, moments: fourier.iw2tau(gf_iw, beta, moments=moments),
     lambda rg: {"gf_iw": rc(rg, int(rg.integers(1, 30))), "beta": rg.uniform(0.5, 9), "moments": rg.normal(size=1)},
     {"gf_iw": (-1, 1), "beta": (-1, 0), "moments": (0, 1)}, (0, 1), tol=1e-10)
for n_ in (0, 2):
    unit("C12", f"iw2tau moments n_fit={n_}", lambda gf_iw, beta, moments, n_=n_: fourier.iw2tau(gf_iw, beta, moments=moments, n_fit=n_),
         lambda rg: {"gf_iw": rc(rg, int(rg.integers(6, 30))), "beta": rg.uniform(0.5, 9), "moments": rg.normal(size=2)},
         {"gf_iw": (0, 1), "moments": (0, 1)}, (0, 1), tol=1e-8)


def times(rg, lo=5, hi=30):
    n = int(rg.integers(lo, hi))
    return {"tt": np.arange(n)*rg.uniform(0.05, 0.3), "gf_t": rc(rg, n), "z": zret(rg)}


def decay(rg):
    tt = np.arange(26)*rg.uniform(0.2, 0.4)
    pole = rg.uniform(-2, 2, size=2) - 1j*rg.uniform(0.1, 0.5, size=2)
    return {"tt": tt, "gf_t": np.exp(-1j*np.multiply.outer(tt, pole)) @ rc(rg, 2), "z": zret(rg)}


TT_ = {"tt": (-1, 0), "gf_t": (0, 1), "z": (1, 0)}
for name_ in ("tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z"):
    unit("C13", name_, getattr(fourier, name_), times, TT_, (-1, 1), tol=1e-10)
    unit("C13", f"{name_} advanced", lambda tt, gf_t, z, name_=name_: getattr(fourier, name_)(-tt, gf_t, z.conj()), times, TT_, (-1, 1), tol=1e-10)
for quad_ in ("trapz", "simps"):
    unit("C13", f"tt2z_lpz {quad_}", partial(fourier.tt2z_lpz, quad=quad_, order=6), decay, TT_, (-1, 1), tol=1e-5)
    unit("C13", f"tt2z_pade {quad_}", partial(fourier.tt2z_pade, quad=quad_, pade=hermpade.pader), decay, TT_, (-1, 1), tol=1e-5)

# matrices
def mat_of(rg, kind, n=None):
    n = int(rg.integers(2, 6)) if n is None else n
    mat = rc(rg, n, n) if kind in ("cmat", "her", "csym") else rg.normal(size=(n, n))
    return mat + mat.T if "sym" in kind else mat + mat.conj().T if kind == "her" else mat


def stack_of(rg, kind):
    n = int(rg.integers(1, 6))
    return np.stack([mat_of(rg, kind, n) for _ in range(int(rg.integers(1, 4)))])


def dec_call(mat, z, kind):
    dec = {"her": matrix.decompose_her, "sym": matrix.decompose_sym, "csym": matrix.decompose_sym}.get(kind, matrix.decompose_mat)(mat)
    return [np.sort_complex(np.asarray(dec.eig, dtype=complex))*(kind in ("her", "sym")), dec.reconstruct(), dec.reconstruct(kind="diag"),
            dec.reconstruct(1/(z - dec.eig))]


for kind_ in ("mat", "cmat", "sym", "csym", "her"):
    unit("C14", f"decompose {kind_}", partial(dec_call, kind=kind_), lambda rg, kind_=kind_: {"mat": mat_of(rg, kind_), "z": complex(zc(rg, 1)[0])},
         {"mat": (1, 0), "z": (1, 0)}, [(1, 0), (1, 0), (1, 0), (-1, 0)], tol=1e-9)
    unit("C14", f"decompose stacked {kind_}", partial(dec_call, kind=kind_),
         lambda rg, kind_=kind_: {"mat": stack_of(rg, kind_), "z": complex(zc(rg, 1)[0])},
         {"mat": (1, 0), "z": (1, 0)}, [(1, 0), (1, 0), (1, 0), (-1, 0)], tol=1e-9)
unit("C14", "gf_2x2_z", matrix.gf_2x2_z, lambda rg: {"z": zc(rg), "eps0": rg.normal(), "eps1": rg.normal(), "hopping": rg.normal()},
     {"z": (1, 0), "eps0": (1, 0), "eps1": (1, 0), "hopping": (1, 0)}, (-1, 0))


def ls_make(rg, cplx):
    gen = partial(rc, rg) if cplx else lambda *s: rg.normal(size=s)
    n = int(rg.integers(2, 6))
    return {"a": gen(n + 4, n), "b": gen(n + 4), "c": gen(1, n), "d": gen(1)}


for cplx_ in (False, True):
    # `energy` scales the rows of the least-squares problem, `amp` the solution
    unit("C15", f"lstsq_ec data complex={cplx_}", linalg.lstsq_ec, partial(ls_make, cplx=cplx_), {"a": (1, 0), "b": (1, 1), "d": (0, 1)}, (0, 1), tol=1e-9)
    unit("C15", f"lstsq_ec constraints complex={cplx_}", linalg.lstsq_ec, partial(ls_make, cplx=cplx_), {"c": (1, 0), "b": (0, 1), "d": (1, 1)}, (0, 1), tol=1e-9)
    unit("C15", f"orth_compl complex={cplx_}", lambda a: (lambda q: q.conj().T @ q)(linalg.orth_compl(a)),
         lambda rg, cplx_=cplx_: {"a": ls_make(rg, cplx_)["a"]}, {"a": (1, 1)}, (0, 0), tol=1e-9)

# impurity model, few-site models


def siam_make(rg, n_bath=None, **kwds):
    n = int(rg.integers(1, 5))
    return {"e_onsite": np.array(rg.normal()), "e_bath": rg.normal(size=n), "hopping": rg.normal(size=n), **kwds}


S_ = {"e_onsite": (1, 0), "e_bath": (1, 0), "hopping": (1, 0)}
unit("C16", "gf0_loc_z", lambda z, e_onsite, e_bath, hopping: siam.gf0_loc_z(z, e_onsite, e_bath, hopping**2), lambda rg: siam_make(rg, z=zc(rg)),
     {**S_, "z": (1, 0)}, (-1, 0), tol=1e-9)
unit("C16", "hybrid_z", lambda z, e_bath, hopping, e_onsite: siam.hybrid_z(z, e_bath, hopping**2), lambda rg: siam_make(rg, z=zc(rg)),
     {**S_, "z": (1, 0)}, (1, 0), tol=1e-10)
unit("C16", "gf0_loc_ret_t", siam.gf0_loc_ret_t, lambda rg: siam_make(rg, tt=np.r_[0, rg.uniform(-1, 9, size=4)]), {**S_, "tt": (-1, 0)}, (0, 0), tol=1e-9)
for name_ in ("gf0_loc_gr_t", "gf0_loc_le_t"):
    unit("C16", name_, getattr(siam, name_), lambda rg: siam_make(rg, tt=np.r_[0, rg.uniform(-1, 9, size=4)], beta=rg.uniform(0.5, 9)),
         {**S_, "tt": (-1, 0), "beta": (-1, 0)}, (0, 0), tol=1e-9)
for kind_ in ("+", "-"):
    unit("C17", f"gf_dimer {kind_}", lambda z, hopping, interaction, kind_=kind_: gt.hubbard_dimer_gf_z(z, hopping, interaction, kind=kind_),
         lambda rg: {"z": zc(rg), "hopping": rg.uniform(0.3, 2), "interaction": rg.normal()*3},
         {"z": (1, 0), "hopping": (1, 0), "interaction": (1, 0)}, (-1, 0), tol=1e-9)
unit("C17", "hubbard_I_self_z", gt.hubbard_I_self_z, lambda rg: {"z": zc(rg), "U": rg.normal()*3, "occ": rg.uniform(0, 1)},
     {"z": (1, 0), "U": (1, 0)}, (1, 0), tol=1e-10)

# disorder


def alloy(rg, n=3):
    conc = rg.uniform(0.2, 1, size=n)
    return {"z": zret(rg), "e_onsite": rg.normal(size=n), "concentration": conc/conc.sum(), "half_bandwidth": rg.uniform(0.5, 2)}


def hilbert(half_bandwidth):
    return partial(lattice.bethe.hilbert_transform, half_bandwidth=half_bandwidth)


A_ = {"z": (1, 0), "e_onsite": (1, 0), "half_bandwidth": (1, 0), "self_z": (1, 0)}
unit("C18", "gf_cmpt_z", lambda z, self_z, e_onsite, concentration, half_bandwidth: cpa.gf_cmpt_z(z, self_z, e_onsite, hilbert(half_bandwidth)),
     lambda rg: {**alloy(rg), "self_z": zret(rg).conj()}, A_, (-1, 0), tol=1e-9)
for name_ in ("self_root_eq", "self_fxdpnt_eq"):
    unit("C18", name_, lambda z, self_z, e_onsite, concentration, half_bandwidth, name_=name_:
         getattr(cpa, name_)(self_z, z, e_onsite=e_onsite, concentration=concentration, hilbert_trafo=hilbert(half_bandwidth)),
         lambda rg: {**alloy(rg), "self_z": zret(rg).conj()}, A_, (1, 0), tol=1e-9)


def cpa_solve(z, e_onsite, concentration, half_bandwidth, tol):
    return cpa.solve_root(z, e_onsite, concentration, hilbert_trafo=hilbert(half_bandwidth), options={"fatol": float(tol)})


def quiet(call):
    """Solutions that cannot be found are replaced by NaN."""
    def wrapped(**kwds):
        try:
            return call(**kwds)
        except RuntimeError:
            return np.full(4, np.nan + 0j)
    return wrapped


def beb_make(rg, rank=None):
    args = alloy(rg)
    mat = rc(rg, 3, rank) if rank else rc(rg, 3, 3)
    args["hopping"] = mat @ mat.conj().T if rank else mat + mat.conj().T
    args["self_z"] = 0.3*rc(rg, 4, 3, 3) - 0.5j*np.eye(3)
    return args


def beb_root(z, self_z, e_onsite, concentration, hopping, half_bandwidth):
    dec = beb.SpecDec(*matrix.decompose_her(hopping)).truncate()
    return beb.self_root_eq(self_z, z, e_onsite=e_onsite, concentration=concentration, hopping_dec=dec, hilbert_trafo=hilbert(half_bandwidth))


for rank_ in (None, 1, 2):
    for diag_ in (True, False):
        unit("C19", f"gf_loc_z rank={rank_} diag={diag_}", lambda z, self_z, e_onsite, concentration, hopping, half_bandwidth, diag_=diag_:
             beb.gf_loc_z(z, self_z, hopping, hilbert_trafo=hilbert(half_bandwidth), diag=diag_), partial(beb_make, rank=rank_), A_, (-1, 0), tol=1e-8)
        # the dimension may be that of the hopping matrix instead of the Hilbert transform
        unit("C19", f"gf_loc_z hopping rank={rank_} diag={diag_}", lambda z, self_z, e_onsite, concentration, hopping, half_bandwidth, diag_=diag_:
             beb.gf_loc_z(z, self_z, hopping, hilbert_trafo=hilbert(half_bandwidth), diag=diag_), partial(beb_make, rank=rank_),
             {"z": (1, 0), "self_z": (1, 0), "hopping": (1, 0)}, (-1, 0), tol=1e-8)
    unit("C19", f"self_root_eq rank={rank_}", beb_root, partial(beb_make, rank=rank_), A_, (1, 0), tol=1e-7)
    unit("C19", f"self_root_eq hopping rank={rank_}", beb_root, partial(beb_make, rank=rank_),
         {"z": (1, 0), "self_z": (1, 0), "hopping": (1, 0), "e_onsite": (1, 0)}, (1, 0), tol=1e-7)

# Pade


def matsu(rg, n):
    z_in = 1j*np.arange(1., 2*n, 2)
    poles, weights = rg.normal(size=3), rg.uniform(0.2, 1, size=3)
    return {"z_in": z_in, "fct_z": np.sum(weights/(z_in[:, None] - poles), axis=-1) + 1e-2*rc(rg, n), "z": zret(rg)}


unit("C20", "iterator", lambda z, z_in, fct_z: np.array(list(pade.calc_iterator(z, z_in, coeff=pade.coefficients(z_in, fct_z)))),
     lambda rg: matsu(rg, 6), {"z": (1, 0), "z_in": (1, 0), "fct_z": (0, 1)}, (0, 1), tol=1e-7)
unit("C20", "coefficients", lambda z_in, fct_z, z: pade.coefficients(z_in, fct_z), lambda rg: matsu(rg, 6),
     {"z_in": (1, 0), "fct_z": (0, 1)}, lambda e, b: np.r_[b, np.full(5, 1/e)], tol=1e-7)


def averaged(z, z_in, fct_z, threshold, which, kind):
    filt = {"none": None, "neg": pade.FilterNegImag(threshold), "num": pade.FilterNegImagNum(abs_num=2), "var": pade.FilterHighVariance(rel_num=0.6)}[which]
    try:
        return pade.averaged(z, z_in, valid_z=z, fct_z=fct_z, filter_valid=filt, kind=kind(2, 12))
    except RuntimeError:  # no approximant is accepted
        return [np.full(z.shape, np.nan), np.full(z.shape, np.nan)]


for which_ in ("none", "neg", "num", "var"):
    for kind_ in (pade.KindGf, pade.KindSelf):
        unit("C21", f"averaged {which_} {kind_.__name__}", partial(averaged, which=which_, kind=kind_), lambda rg: {**matsu(rg, 12), "threshold": 1e-3},
             {"z": (1, 0), "z_in": (1, 0), "fct_z": (0, 1), "threshold": (0, 1)}, [(0, 1), (0, 1)], tol=1e-5)


def rat_make(rg):
    pol = rg.uniform(-2, 2, size=3) - 1j*rg.uniform(0.2, 1, size=3)
    pol = pol + np.arange(3)*2
    res = rc(rg, 3)
    z = rg.uniform(-3, 7, size=24) + 1j*rg.uniform(0.5, 2, size=24)
    return {"z": z, "fct_z": np.sum(res/(z[:, None] - pol), axis=-1), "x": zret(rg)}


def cont(z, fct_z, x):
    app = polepade.continuation(z, fct_z, degree=-1, real_asymp=False)
    return [app.eval_polefct(x), app.eval_zeropole(x), app.moments([1, 2])]


unit("C22", "continuation", cont, rat_make, {"fct_z": (0, 1)}, [(0, 1), (0, 1), (0, 1)], tol=1e-5)
unit("C22", "residues_ols", lambda z, fct_z, poles: polepade.residues_ols(z, fct_z, poles)[0],
     lambda rg: {"z": 1j*np.arange(1., 12.), "fct_z": rc(rg, 11), "poles": np.array([-1., 0.2, 1.3])}, {"z": (1, 0), "fct_z": (-1, 1), "poles": (1, 0)}, (0, 1), tol=1e-9)
unit("C22", "residues_ols moments", lambda z, fct_z, poles, moments: polepade.residues_ols(z, fct_z, poles, moments=moments)[0],
     lambda rg: {"z": 1j*np.arange(1., 12.), "fct_z": rc(rg, 11), "poles": np.array([-1., 0.2, 1.3]), "moments": rg.normal(size=2)},
     {"z": (1, 0), "fct_z": (-1, 1), "poles": (1, 0), "moments": lambda e, b: b*e**np.arange(2.)}, (0, 1), tol=1e-8, energy=12)


def series(rg):
    return {"an": rc(rg, 9)}


X_ = np.array([0.1, -0.2j, 0.15 + 0.1j])
for name_, fct_ in {"pade": hermpade.pade, "pade fast": partial(hermpade.pade, fast=True), "pader": hermpade.pader, "pade_lstsq": hermpade.pade_lstsq}.items():
    unit("C23", name_, lambda an, fct_=fct_: [fct_(an[:7], 3, 3).eval(X_), fct_(an[:6], 1, 4).eval(X_)], series, {"an": (0, 1)}, [(0, 1), (0, 1)], tol=1e-5, amp=100)


def herm_call(an, cls, lstsq):
    """Selected branch, sum and product of the branches."""
    herm = getattr(cls, "from_taylor_lstsq" if lstsq else "from_taylor")(an[:8], deg_p=2, deg_q=2, deg_r=2)  # no least-squares freedom
    plus, minus = herm.eval_branches(X_)
    return [herm.eval(X_) if cls is hermpade.Hermite2 else 0*X_, plus + minus, plus*minus]


for lstsq_ in (False, True):
    unit("C23", f"Hermite2 lstsq={lstsq_}", partial(herm_call, cls=hermpade.Hermite2, lstsq=lstsq_), series, {"an": (0, 1)}, [(0, 1), (0, 1), (0, 2)], tol=1e-4, amp=10)


# linear prediction, rational functions
for name_, dim_ in (("pcoeff_covar", (0, 1)), ("pcoeff_burg", (0, 2))):
    unit("C24", name_, partial(getattr(lp, name_), order=3), lambda rg: {"x": rc(rg, 14)}, {"x": (0, 1)}, [(0, 0), dim_], tol=1e-9, amp=100)
    unit("C24", name_ + " real", partial(getattr(lp, name_), order=3), lambda rg: {"x": rg.normal(size=14)}, {"x": (0, 1)}, [(0, 0), dim_], tol=1e-9, amp=100)
for stb_ in (False, True):
    unit("C24", f"predict stable={stb_}", lambda x, pcoeff, stb_=stb_: lp.predict(x, pcoeff, num=9, stable=stb_)[8:], lambda rg: {"x": rc(rg, 8), "pcoeff": 0.4*rc(rg, 3)},
         {"x": (0, 1)}, (0, 1), tol=1e-9, amp=100)
unit("C24", "companion", lambda a: lp.companion(a), lambda rg: {"a": rc(rg, 4) + 0.1}, {"a": (0, 1)}, (0, 0), amp=100)


def zp_make(rg):
    return {"zeros": rc(rg, 2), "poles": rc(rg, 3), "amplitude": rc(rg, 1)[0], "z": zret(rg)*3}


def zp_call(zeros, poles, amplitude, z):
    fct = basis.ZeroPole(zeros, poles, amplitude)
    return [fct.eval(z), fct.reciprocal(z), fct.to_ratpol().eval(z)]


unit("C25", "ZeroPole", zp_call, zp_make, {"zeros": (1, 0), "poles": (1, 0), "z": (1, 0), "amplitude": (0, 1)}, [(-1, 1), (1, -1), (-1, 1)], tol=1e-9, energy=60)

for pid_, table_ in TABLE.items():
    facet(pid_, "units", st.fixed_dictionaries({
        "pid": st.just(pid_), "name": st.sampled_from(sorted(table_)), "seed": seeds(),
        "e": st.integers(-12, 12).map(lambda i: i/12), "b": st.integers(-12, 12).map(lambda i: i/12)}),
        quick=40*min(len(table_), 10), thorough=400*min(len(table_), 10),
        rule="results are the same numbers in other units of energy and with data of other magnitude")(check_units)
