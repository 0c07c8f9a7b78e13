"""C06 - C10: statistics, Pade frequencies, pole Green's functions and fits, densities."""
import mpmath as mp
import warnings

import numpy as np
from hypothesis import strategies as st

import gftool as gt
from gftool import statistics as gs
from gftool.basis import pole as gp
from vlib.core import close, ensure, facet, finite, has_shape, pristine, raises
from vlib.gen import cplx, fl, logfl, logint, rng, seeds, sign, toc

BETA = st.one_of(logfl(1e-2, 1e3), st.sampled_from([1, 2, 10, 50]))


def mpc(x):
    return mp.mpc(complex(x)) if isinstance(x, (complex, np.complexfloating)) else mp.mpf(float(x))


# ---------------------------------------------------------------------------
# C06
# ---------------------------------------------------------------------------
#: beta*energy
def betaeps():
    return st.one_of(fl(-50, 50), st.tuples(logfl(1e-12, 1e5), sign()).map(lambda t: t[0]*t[1]),
                     st.sampled_from([0.0, 700.0, 699.9, 700.1, 703.0, 707.0, -700.0, 709.5, 710.5, -745.0, 745.0, 1e8, -1e8]))


@st.composite
def stat_case(draw, zero=True):
    beta = draw(BETA)
    if draw(st.booleans()):
        eps = draw(st.lists(betaeps().map(lambda x: x/beta), min_size=1, max_size=5))
    else:
        eps = draw(st.lists(st.integers(-40, 40), min_size=1, max_size=5))
    if not zero:
        eps = [e if e != 0 else 1 for e in eps]
    return {"eps": eps, "beta": beta, "form": draw(st.sampled_from(["array", "scalar", "2d", "npscalar", "array_beta"]))}


def call_stat(fct, case):
    """Evaluate `fct(eps, beta)` in the requested form, return array."""
    eps, beta, form = case["eps"], case["beta"], case["form"]
    if form == "scalar":
        return np.array([fct(e, beta) for e in eps])
    arr = np.array(eps)
    if form == "npscalar":
        return np.array([fct(e, beta) for e in arr])
    if form == "2d":
        res = pristine(fct, arr[:, np.newaxis], beta)
        has_shape(res, (arr.size, 1), "2d input")
        return res[:, 0]
    if form == "array_beta":
        res = fct(arr, np.full(arr.shape, beta))
        return res
    res = pristine(fct, arr, beta)
    return res


@facet("C06", "fermi", stat_case(), quick=700, rule="fermi_fct of real energies against 40-digit arithmetic")
def check_fermi(case):
    res = call_stat(gs.fermi_fct, case)
    has_shape(res, (len(case["eps"]),), "fermi_fct")
    with mp.workdps(40):
        for e, r in zip(case["eps"], res):
            x = mp.mpf(case["beta"])*mp.mpf(e)
            ref = 1/(mp.exp(x) + 1)
            err = abs(mp.mpf(float(r)) - ref)
            ensure(err <= ref*(1e-13 + 5e-16*abs(x)) + mp.mpf("2.3e-308"),
                   lambda: f"fermi_fct({e}, {case['beta']}) = {r}, expected {mp.nstr(ref, 17)}")
    comp = gs.fermi_fct(-np.array(case["eps"]), case["beta"])
    close(res + comp, np.ones(res.shape), rtol=1e-14, what="f(e) + f(-e)")


@st.composite
def cstat_case(draw):
    beta = draw(BETA)
    n = draw(st.integers(1, 4))
    re = st.one_of(fl(-30, 30), st.sampled_from([0.0, 800.0, -800.0, 1e4]), logfl(1e-3, 1e3))
    eps = draw(st.lists(cplx(re, fl(-20, 20)), min_size=n, max_size=n))
    return {"eps": [[a/beta, b/beta] for a, b in eps], "beta": beta, "scalar": draw(st.booleans())}


def _complex_stat(case, fct, ref_fct, what, period):
    eps, beta = toc(case["eps"]), case["beta"]
    if case["scalar"]:
        res = np.array([complex(fct(complex(e), beta)) for e in eps])
    else:
        res = pristine(fct, eps, beta)
    has_shape(res, eps.shape, what)
    decided = False
    with mp.workdps(40):
        for e, r in zip(eps, res):
            x = mp.mpc(complex(e))*mp.mpf(beta)
            if abs(mp.exp(-abs(x.real) + 1j*x.imag) - period) < 1e-2 and abs(x.real) < 1:
                continue
            decided = True
            ref = ref_fct(x)
            err = abs(mp.mpc(complex(r)) - ref)
            ensure(err <= abs(ref)*(1e-12 + 1e-14*abs(x)) + mp.mpf("2.3e-308"),
                   lambda: f"{what}({e}, {beta}) = {r}, expected {mp.nstr(ref, 17)}")
    return decided


@facet("C06", "fermi_complex", cstat_case(), quick=400, rule="fermi_fct of complex energies away from its poles")
def check_fermi_c(case):
    return _complex_stat(case, gs.fermi_fct, lambda x: 1/(mp.exp(x) + 1), "fermi_fct", -1)


@facet("C06", "bose_complex", cstat_case(), quick=400, rule="bose_fct of complex energies away from its poles")
def check_bose_c(case):
    return _complex_stat(case, gs.bose_fct, lambda x: 1/mp.expm1(x), "bose_fct", 1)


@facet("C06", "bose", stat_case(zero=False), quick=600, rule="bose_fct of real energies against 40-digit arithmetic")
def check_bose(case):
    if case["form"] == "array_beta":
        case = {**case, "form": "array"}
    res = call_stat(gs.bose_fct, case)
    has_shape(res, (len(case["eps"]),), "bose_fct")
    with mp.workdps(40):
        for e, r in zip(case["eps"], res):
            x = mp.mpf(case["beta"])*mp.mpf(e)
            if abs(x) < mp.mpf("2.3e-308"):
                continue
            ref = 1/mp.expm1(x)
            err = abs(mp.mpf(float(r)) - ref)
            ensure(err <= abs(ref)*(1e-13 + 5e-16*abs(x)) + mp.mpf("2.3e-308"),
                   lambda: f"bose_fct({e}, {case['beta']}) = {r}, expected {mp.nstr(ref, 17)}")
    lists = gs.bose_fct(list(case["eps"]), case["beta"])
    close(lists, res, rtol=1e-14, atol=0, what="bose_fct(list)")
    other = gs.bose_fct(-np.array(case["eps"]), case["beta"])
    x = abs(np.array(case["eps"])*case["beta"])
    close(res + other, -np.ones(res.shape), rtol=1e-14, atol=1e-14*(1 + 4/np.maximum(x, 1e-300)), what="b(e) + b(-e)")


@facet("C06", "fermi_d1", stat_case(), quick=400, rule="fermi_fct_d1 against 40-digit derivative")
def check_d1(case):
    res = call_stat(gs.fermi_fct_d1, case)
    with mp.workdps(40):
        for e, r in zip(case["eps"], res):
            x = mp.mpf(case["beta"])*mp.mpf(e)
            ref = -mp.mpf(case["beta"])*mp.exp(-abs(x))/(1 + mp.exp(-abs(x)))**2
            err = abs(mp.mpf(float(r)) - ref)
            ensure(err <= abs(ref)*(1e-12 + 1e-15*abs(x)) + case["beta"]*mp.mpf("1e-307"),
                   lambda: f"fermi_fct_d1({e}, {case['beta']}) = {r}, expected {mp.nstr(ref, 17)}")


@facet("C06", "fermi_inv", st.fixed_dictionaries({
    "f": st.lists(st.one_of(fl(1e-9, 1 - 1e-9), logfl(1e-200, 0.5), logfl(1e-10, 0.5).map(lambda x: 1 - x)),
                  min_size=1, max_size=5), "beta": BETA, "scalar": st.booleans()}), quick=400,
    rule="fermi_fct(fermi_fct_inv(f)) = f and explicit logarithm")
def check_inv(case):
    f, beta = np.array(case["f"]), case["beta"]
    if case["scalar"]:
        res = np.array([gs.fermi_fct_inv(x, beta) for x in case["f"]])
    else:
        res = pristine(gs.fermi_fct_inv, f, beta)
    close(gs.fermi_fct(res, beta), f, rtol=1e-12, atol=0, what="fermi_fct(fermi_fct_inv)")
    close(res*beta, np.log1p(-f) - np.log(f), rtol=1e-9, atol=1e-9, what="fermi_fct_inv")


@facet("C06", "limits", st.fixed_dictionaries({"eps": st.lists(fl(-1e3, 1e3), min_size=1, max_size=4)}), quick=100,
       rule="infinite temperature gives 1/2, zero temperature the step function")
def check_limits(case):
    eps = np.array(case["eps"])
    close(gs.fermi_fct(eps, 0), np.full(eps.shape, 0.5), rtol=1e-15, what="beta=0")
    eps = eps[abs(eps) > 1e-6]
    close(gs.fermi_fct(eps, np.inf), (eps < 0).astype(float), rtol=0, atol=0, what="beta=inf")
    close(gs.fermi_fct(eps, 1e10), (eps < 0).astype(float), rtol=0, atol=1e-300, what="beta=1e10")


@facet("C06", "matsubara", st.fixed_dictionaries({
    "n": st.lists(st.one_of(st.integers(-2000, 2000), st.integers(-2**31, 2**31 - 1), st.integers(-2**60, 2**60), st.sampled_from([0, -1, 1])),
                  min_size=1, max_size=6), "beta": BETA, "form": st.sampled_from(["list", "array", "scalar", "int32", "2d"])}),
    quick=300, rule="i(2n+1)pi/beta and i2n pi/beta for generated integers")
def check_matsubara(case):
    n, beta = case["n"], case["beta"]
    if case["form"] == "int32":
        n = [k if -2**31 <= k < 2**31 else k % 2**31 for k in n]
    arr = {"list": n, "array": np.array(n), "int32": np.array(n, dtype=np.int32 if case["form"] == "int32" else int),
           "2d": np.array(n)[:, None]}.get(case["form"])
    with mp.workdps(40):
        ref_f = np.array([float((2*k + 1)*mp.pi/mp.mpf(beta)) for k in n])
        ref_b = np.array([float(2*k*mp.pi/mp.mpf(beta)) for k in n])
    for fct, ref in ((gs.matsubara_frequencies, ref_f), (gs.matsubara_frequencies_b, ref_b)):
        if case["form"] == "scalar":
            res = np.array([complex(fct(k, beta)) for k in n])
        else:
            res = fct(arr, beta)
            has_shape(res, np.shape(arr), fct.__name__)
            res = np.reshape(res, -1)
        close(res.imag, ref, rtol=1e-14, atol=0, what=fct.__name__)
        ensure(np.all(res.real == 0), f"{fct.__name__}: real part not zero")
    frac = np.array(n) % 10**6 + 0.5
    raises(TypeError, lambda: gs.matsubara_frequencies(frac, beta), "fractional Matsubara index")
    raises(TypeError, lambda: gs.matsubara_frequencies_b(frac, beta), "fractional Matsubara index")
    close(gt.matsubara_frequencies(range(5), beta).imag*beta/np.pi, np.arange(1., 10, 2), rtol=1e-14, what="range input")


# ---------------------------------------------------------------------------
# C07
# ---------------------------------------------------------------------------
def fermi_cf(x, levels):
    """Continued fraction of the Fermi function truncated after `levels` levels."""
    y = (x/2)**2
    den = mp.mpf(2*levels - 1)
    for k in range(levels - 1, 0, -1):
        den = (2*k - 1) + y/den
    return mp.mpf(1)/2 - (x/4)/den


@st.composite
def pf_case(draw):
    num = draw(st.one_of(st.integers(1, 12), st.integers(1, 40), st.integers(30, 90)))
    return {"num": num, "beta": draw(BETA),
            "x": draw(st.lists(cplx(st.one_of(fl(-60, 60), fl(-3*num, 3*num), logfl(1e-3, 1e3)), fl(-3, 3)),
                               min_size=1, max_size=6))}


@facet("C07", "continued_fraction", pf_case(), quick=260, thorough=3000,
       rule="pole sum equals the truncated continued fraction of the Fermi function at arbitrary complex energies")
def check_pf(case):
    num, beta = case["num"], case["beta"]
    izp, resids = gs.pade_frequencies(num, beta)
    has_shape(izp, (num,), "izp")
    has_shape(resids, (num,), "resids")
    zp = np.asarray(izp)
    ensure(np.all(abs(zp.real) <= 1e-9*abs(zp.imag)), lambda: f"Pade frequencies off the imaginary axis: {zp}")
    ensure(np.all(zp.imag > 0) and np.all(np.diff(zp.imag) > 0), lambda: f"frequencies not positive and sorted: {zp}")
    ensure(np.all(np.isreal(resids)) and np.all(resids.real > 0), "residues not positive")
    close(zp[0].imag*beta, np.pi, rtol=0.11 if num == 1 else 1e-3, what="first Pade frequency")
    with mp.workdps(30):
        for a, b in case["x"]:
            x = mp.mpc(a, b)
            w = complex(x)
            if np.min(abs(w**2 + (zp.imag*beta)**2)) < 0.05*abs(w**2 + np.pi**2):
                continue  # too close to one of the poles
            ref = complex(fermi_cf(x, 2*num))
            eps = w/beta
            val = 0.5 - np.sum(resids/beta*(1/(eps - zp) + 1/(eps + zp)))
            close(val, ref, rtol=1e-8, atol=1e-9*(1 + abs(w)/4), what=f"Pade Fermi function num={num}, x={w}")


@facet("C07", "exact_fermi", st.fixed_dictionaries({"num": st.integers(4, 80), "beta": BETA,
                                                    "x": st.lists(fl(-1, 1), min_size=1, max_size=6)}), quick=150,
       rule="inside the convergence radius the pole sum equals the Fermi function")
def check_pf_exact(case):
    num, beta = case["num"], case["beta"]
    izp, resids = gt.pade_frequencies(num, beta)
    eps = np.array(case["x"])*num*1.2/beta
    val = 0.5 - np.sum(resids/beta*2*eps[:, None]/(eps[:, None]**2 + izp.imag**2), axis=-1)
    close(val, 1/(np.exp(eps*beta) + 1), rtol=0, atol=3e-7, what=f"Pade Fermi function (num={num})")


@facet("C07", "scaling", st.fixed_dictionaries({"num": st.integers(1, 60), "b1": BETA, "b2": BETA}), quick=120,
       rule="poles scale with temperature, residues do not")
def check_pf_scale(case):
    z1, r1 = gs.pade_frequencies(case["num"], case["b1"])
    z2, r2 = gs.pade_frequencies(case["num"], beta=case["b2"])
    close(z1*case["b1"], z2*case["b2"], rtol=1e-12, atol=0, what="izp*beta")
    close(r1, r2, rtol=1e-12, atol=0, what="residues")
    keep_z, keep_r = z1.copy(), r1.copy()
    z2[...], r2[...] = 17, 17  # the results belong to the caller
    z3, r3 = gs.pade_frequencies(case["num"], case["b1"])
    close(z3, keep_z, rtol=1e-12, atol=0, what="izp after overwriting an earlier result")
    close(r3, keep_r, rtol=1e-12, atol=0, what="residues after overwriting an earlier result")
    close(z1, keep_z, rtol=0, atol=0, what="earlier result")
    close(r1, keep_r, rtol=0, atol=0, what="earlier result")
    # the bulk of the poles are Matsubara frequencies
    bulk = case["num"]//2
    iw = gs.matsubara_frequencies(np.arange(bulk), case["b1"])
    close(z1[:bulk].imag, iw.imag, rtol=2e-2, atol=0, what="low Pade frequencies vs Matsubara frequencies")


# ---------------------------------------------------------------------------
# C08
# ---------------------------------------------------------------------------
LEAD = st.sampled_from([[], [], [1], [2], [3], [2, 2], [2, 1]])


@st.composite
def pole_data(draw, n_max=6, real_w=None, pos=False, scale=1.):
    """Poles, weights with leading dimensions."""
    lead = draw(LEAD)
    n = draw(st.integers(1, n_max))
    size = int(np.prod(lead))*n if lead else n
    p = st.one_of(fl(-3, 3), st.sampled_from([0.0, 1.0, -1.0]), st.tuples(logfl(1e-6, 50.), sign()).map(lambda t: t[0]*t[1]))
    if pos:
        p = st.one_of(fl(0.01, 3), logfl(1e-3, 50.), st.sampled_from([1.0, 0.5]))
    poles = draw(st.lists(p.map(lambda x: x*scale), min_size=size, max_size=size))
    cw = draw(st.booleans()) if real_w is None else not real_w
    w = draw(st.lists(cplx(fl(-2, 2), fl(-2, 2) if cw else st.just(0.0)), min_size=size, max_size=size))
    return {"lead": lead, "n": n, "poles": poles, "weights": w, "cw": cw,
            "wlead": draw(st.booleans()), "plead": draw(st.booleans())}


def get_poles(d):
    shape = (*d["lead"], d["n"])
    poles = np.array(d["poles"]).reshape(shape)
    weights = toc(d["weights"]).reshape(shape)
    if not d["cw"]:
        weights = weights.real
    if not d["plead"] and d["wlead"]:  # only weights have leading axes
        poles = poles.reshape(-1, d["n"])[0]
    elif d["plead"] and not d["wlead"]:
        weights = weights.reshape(-1, d["n"])[0]
    return poles, weights


def loop(fct, lead, poles, weights, *arrs):
    """Evaluate scalar function element by element over broadcast leading axes."""
    shape = np.broadcast_shapes(poles.shape[:-1], weights.shape[:-1], *[np.shape(a) for a in arrs])
    n = max(poles.shape[-1], weights.shape[-1])
    poles = np.broadcast_to(poles, (*shape, n))
    weights = np.broadcast_to(weights, (*shape, n))
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.zeros(shape, dtype=complex)
    for i in np.ndindex(shape):
        out[i] = complex(fct(poles[i], weights[i], *[a[i] for a in arrs]))
    return out


#: imaginary parts of the poles (in units of the distance to the axis)
DAMP = st.one_of(st.just(0.0), fl(0.01, 1.0))


def damped(poles, damp, factor):
    """Complex poles with different imaginary part, none if `damp` is 0."""
    if not damp:
        return poles
    return poles + factor*damp*np.cos(np.arange(poles.size)).reshape(poles.shape)**2


def axis_shape(poles, weights, m):
    """Shape (m, 1, ..., 1) broadcasting against leading axes."""
    return (m, *([1]*max(poles.ndim - 1, weights.ndim - 1)))


@st.composite
def polez_case(draw):
    return {"d": draw(pole_data()), "damp": draw(DAMP), "z": draw(st.lists(cplx(fl(-5, 5), st.tuples(logfl(1e-3, 20.), sign())
                                                            .map(lambda t: t[0]*t[1])), min_size=1, max_size=3)),
            "api": draw(st.sampled_from(["fct", "class"])), "scalar": draw(st.booleans())}


@facet("C08", "gf_z", polez_case(), quick=500, rule="gf_z and gf_d1_z against explicit sums, element by element")
def check_polez(case):
    poles, weights = get_poles(case["d"])
    z = toc(case["z"])
    # complex poles never coincide with z: their imaginary part has smaller modulus
    poles = damped(poles, case["damp"], 0.5j*np.min(abs(z.imag)))
    z = z[0] if case["scalar"] else z.reshape(axis_shape(poles, weights, z.size))
    if case["api"] == "fct":
        gf = pristine(gt.pole_gf_z, z, poles, weights)
    else:
        gf = gt.basis.PoleFct(poles=poles, residues=weights).eval_z(z)
    ref = loop(lambda p, w, zz: np.sum(w/(zz - p)), None, poles, weights, z)
    mag = loop(lambda p, w, zz: np.sum(abs(w/(zz - p))), None, poles, weights, z).real
    close(gf, ref, rtol=1e-12, atol=1e-300, scale=mag, what="pole gf_z")
    d1 = pristine(gt.pole_gf_d1_z, z, poles, weights)
    ref = loop(lambda p, w, zz: -np.sum(w/(zz - p)**2), None, poles, weights, z)
    mag = loop(lambda p, w, zz: np.sum(abs(w/(zz - p)**2)), None, poles, weights, z).real
    close(d1, ref, rtol=1e-12, atol=1e-300, scale=mag, what="pole gf_d1_z")


@st.composite
def poletau_case(draw, pos=False):
    beta = draw(BETA)
    frac = st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0, 0.5]), logfl(1e-9, 1.).map(lambda x: min(x, 1.0)))
    return {"d": draw(pole_data(pos=pos, scale=draw(st.sampled_from([1., 1., 10./beta])))), "beta": beta,
            "x": draw(st.lists(frac, min_size=1, max_size=4)), "api": draw(st.sampled_from(["fct", "class"])),
            "scalar": draw(st.booleans())}


def _tau_ref(poles, weights, tau, beta, bose=False):
    def one(p, w, t):
        res = mp.mpc(0)
        mag = mp.mpf(0)
        for pp, ww in zip(p, w):
            pp = mp.mpf(float(pp))
            if bose:
                g = -mp.exp(-pp*t)/(1 - mp.exp(-pp*beta))
            elif pp > 0:
                g = -mp.exp(-pp*t)/(1 + mp.exp(-pp*beta))
            else:
                g = -mp.exp(pp*(beta - t))/(1 + mp.exp(pp*beta))
            res += mp.mpc(complex(ww))*g
            mag += abs(complex(ww))*abs(g)*(1 + abs(pp)*beta)
        one.mag = float(mag)
        return complex(res)
    with mp.workdps(30):
        ref = loop(lambda p, w, t: one(p, w, mp.mpf(float(t))), None, poles, weights, tau)
        mag = loop(lambda p, w, t: (one(p, w, mp.mpf(float(t))), one.mag)[1], None, poles, weights, tau).real
    return ref, mag


@facet("C08", "gf_tau", poletau_case(), quick=350, rule="fermionic gf_tau against 30-digit sums; jump at the boundary")
def check_poletau(case):
    poles, weights = get_poles(case["d"])
    beta = case["beta"]
    tau = np.minimum(np.array(case["x"])*beta, beta)
    tau = tau[0] if case["scalar"] else tau.reshape(axis_shape(poles, weights, tau.size))
    if case["api"] == "fct":
        gf = pristine(gt.pole_gf_tau, tau, poles, weights, beta)
    else:
        gf = gt.basis.PoleGf(poles=poles, residues=weights).eval_tau(tau, beta)
    ref, mag = _tau_ref(poles, weights, tau, beta)
    close(gf, ref, rtol=1e-13, atol=1e-290, scale=mag, what=f"gf_tau beta={beta}")
    if not case["d"]["cw"]:
        ensure(not np.iscomplexobj(gf), "gf_tau of real data is complex")
    both = gt.pole_gf_tau(0., poles, weights, beta) + gt.pole_gf_tau(float(beta), poles, weights, beta)
    ref = loop(lambda p, w: -np.sum(w), None, poles, weights)
    close(both, ref, rtol=1e-12, atol=1e-12, what="G(0) + G(beta) = -sum(weights)")
    occ = gt.basis.PoleGf(poles=poles, residues=weights).occ(beta)
    ref, mag = _tau_ref(poles, weights, np.asarray(float(beta)), beta)
    close(occ, -ref, rtol=1e-13, atol=1e-290, scale=mag, what="occ = -G(beta)")
    # several temperatures at once
    fac = np.array([1., 2.5, 0.4]).reshape((3,) + (1,)*np.ndim(gf))
    several = gt.pole_gf_tau(fac*tau, poles, weights, beta*fac)
    alone = np.stack([gt.pole_gf_tau(f*tau, poles, weights, beta*f) for f in fac.reshape(-1)])
    close(several, alone, rtol=1e-13, atol=1e-290, what="array of inverse temperatures")
    fac = fac.reshape((3,) + (1,)*(np.ndim(occ) + 1))
    several = gt.basis.PoleGf(poles=poles, residues=weights).occ(beta*fac)
    alone = np.stack([gt.basis.PoleGf(poles=poles, residues=weights).occ(beta*f) for f in fac.reshape(-1)])
    close(several, alone, rtol=1e-13, atol=1e-290, what="occupation for an array of inverse temperatures")


@facet("C08", "gf_tau_b", poletau_case(pos=True), quick=350, rule="bosonic pole_gf_tau_b against 30-digit sums")
def check_poletau_b(case):
    poles, weights = get_poles(case["d"])
    beta = case["beta"]
    tau = np.minimum(np.array(case["x"])*beta, beta)
    tau = tau[0] if case["scalar"] else tau.reshape(axis_shape(poles, weights, tau.size))
    gf = pristine(gt.pole_gf_tau_b, tau, poles, weights, beta)
    ref, mag = _tau_ref(poles, weights, tau, beta, bose=True)
    close(gf, ref, rtol=1e-13, atol=1e-290, scale=mag, what=f"pole_gf_tau_b beta={beta}")


@st.composite
def polet_case(draw):
    t = st.one_of(fl(-3, 30), st.sampled_from([0.0, -1.0, 1.0]))
    return {"d": draw(pole_data()), "t": draw(st.lists(t, min_size=1, max_size=4)), "scalar": draw(st.booleans()),
            "damp": draw(DAMP), "side": draw(st.sampled_from([-1, -1, 1])),
            "order": draw(st.lists(st.one_of(st.integers(1, 8), st.integers(9, 40)), min_size=1, max_size=5)), "api": draw(st.sampled_from(["fct", "class"]))}


@facet("C08", "ret_t_moments", polet_case(), quick=400, rule="retarded-time functions and moments against explicit sums")
def check_polet(case):
    poles, weights = get_poles(case["d"])
    poles = damped(poles, case["damp"], case["side"]*1j)  # other half-plane: growing functions
    t = np.array(case["t"])
    t = t[0] if case["scalar"] else t.reshape(axis_shape(poles, weights, t.size))
    inst = gt.basis.PoleGf(poles=poles, residues=weights)
    gf = pristine(gt.pole_gf_ret_t, t, poles, weights) if case["api"] == "fct" else inst.eval_ret_t(t)
    ref = loop(lambda p, w, tt: -1j*np.sum(w*np.exp(-1j*p*tt)) if tt >= 0 else 0, None, poles, weights, t)
    mag = loop(lambda p, w, tt: np.sum(abs(w*np.exp(-1j*p*tt))) if tt >= 0 else 0, None, poles, weights, t).real
    close(gf, ref, rtol=0, atol=1e-11*(1 + np.max(mag)) if case["side"] < 0 else 1e-11*(1 + mag), what="pole gf_ret_t")
    order = np.array(case["order"])
    mom = pristine(gt.pole_gf_moments, poles, weights, order) if case["api"] == "fct" else inst.moments(case["order"])
    shape = np.broadcast_shapes(poles.shape, weights.shape)[:-1]
    has_shape(mom, (*shape, order.size), "moments")
    for j, m in enumerate(order):
        ref = loop(lambda p, w: np.sum(w*p**(int(m) - 1)), None, poles, weights)
        mag = loop(lambda p, w: np.sum(abs(w*p**(int(m) - 1))), None, poles, weights).real
        close(mom[..., j], ref, rtol=1e-12, atol=1e-300, scale=mag, what=f"moment of order {m}")


@st.composite
def four_case(draw):
    beta = draw(logfl(0.1, 30.))
    n = draw(st.integers(1, 4))
    return {"beta": beta, "poles": draw(st.lists(fl(-25, 25).map(lambda x: x/beta), min_size=n, max_size=n)),
            "weights": draw(st.lists(fl(-2, 2), min_size=n, max_size=n)), "n": draw(st.integers(-12, 12))}


_GL = np.polynomial.legendre.leggauss(120)


@facet("C08", "fourier_consistency", four_case(), quick=300,
       rule="integral of G(tau) exp(iw tau) equals gf_z(iw) at (bosonic) Matsubara frequencies")
def check_four(case):
    beta, poles, weights = case["beta"], np.array(case["poles"]), np.array(case["weights"])
    x, w = _GL
    tau, w = 0.5*beta*(x + 1), 0.5*beta*w
    iw = complex(gt.matsubara_frequencies(case["n"], beta))
    gf = gt.pole_gf_tau(tau, poles, weights, beta)
    close(np.sum(w*gf*np.exp(iw*tau)), complex(gt.pole_gf_z(iw, poles, weights)), rtol=1e-9, atol=1e-10*beta,
          what="Fourier integral of gf_tau")
    poles = abs(poles) + 0.1/beta
    iv = complex(gt.matsubara_frequencies_b(case["n"], beta))
    gf = gt.pole_gf_tau_b(tau, poles, weights, beta)
    close(np.sum(w*gf*np.exp(iv*tau)), complex(gt.pole_gf_z(iv, poles, weights)), rtol=1e-9, atol=1e-9*beta,
          what="Fourier integral of gf_tau_b")


# ---------------------------------------------------------------------------
# C09
# ---------------------------------------------------------------------------
def cheb(n):
    return np.cos(np.pi*(2*np.arange(n, 0, -1) - 1)/(2*n))


@st.composite
def mom_case(draw):
    lead = draw(LEAD)
    n = draw(st.integers(1, 7))
    return {"lead": lead, "n": n, "seed": draw(seeds()), "width": draw(st.one_of(st.none(), logfl(0.2, 5.))),
            "kind": draw(st.sampled_from(["random", "physical", "small", "int"])), "cls": draw(st.booleans()),
            "scale": draw(logfl(0.2, 5.))}


def make_moments(case):
    r = rng(case["seed"])
    shape = (*case["lead"], case["n"])
    s = case["scale"]**np.arange(case["n"])
    if case["kind"] == "physical":
        p = r.uniform(-1, 1, (*case["lead"], 1, 6))*case["scale"]
        w = r.uniform(0, 1, (*case["lead"], 1, 6))
        w /= w.sum(-1, keepdims=True)
        return np.sum(w*p**np.arange(case["n"])[:, None], axis=-1)
    if case["kind"] == "int":
        return r.integers(-3, 4, shape)
    mom = r.normal(size=shape)*s
    if case["kind"] == "small" and case["n"] > 1:
        mom[..., 1] = r.uniform(-0.15, 0.15, case["lead"] or None)
    return mom


@facet("C09", "from_moments", mom_case(), quick=500, rule="pole function built from moments has these moments and documented poles")
def check_from_moments(case):
    mom = make_moments(case)
    width = case["width"]
    fct = gt.basis.PoleGf.from_moments if case["cls"] else gp.gf_from_moments
    copy = mom.copy()
    gf = fct(mom, width=width)
    ensure(np.array_equal(mom, copy), "moments modified")
    poles, resid = np.broadcast_arrays(gf.poles, gf.residues)
    has_shape(gf.residues, mom.shape, "residues")
    if width is None:
        if case["n"] == 1:
            wid = np.ones((*case["lead"], 1))
        else:
            second = abs(mom[..., 1:2])
            wid = np.where(second >= 0.1, second/cheb(case["n"])[-1], 1.)
            if np.any(abs(second - 0.1) < 1e-9):
                return False
    else:
        wid = width
    close(poles, np.broadcast_to(wid*cheb(case["n"]), mom.shape), rtol=1e-12, atol=1e-13*np.max(wid), what="position of poles")
    for k in range(case["n"]):
        mag = np.sum(abs(resid)*np.abs(poles)**k, axis=-1) + np.max(wid)**k*np.sum(abs(resid), axis=-1)
        close(np.sum(resid*poles**k, axis=-1), mom[..., k], rtol=1e-9, atol=1e-11, scale=mag, what=f"moment {k+1}")
    close(gf.moments(np.arange(1, case["n"] + 1)), np.sum(resid[..., None, :]*poles[..., None, :]**np.arange(case["n"])[:, None], axis=-1),
          rtol=1e-9, atol=1e-9*np.max(abs(mom)) + 1e-12, what="PoleFct.moments")


@st.composite
def fit_case(draw, tau=False):
    n_pole = draw(st.integers(1, 6))
    return {"lead": draw(LEAD), "n_pole": n_pole, "n_mom": draw(st.integers(0, n_pole)), "seed": draw(seeds()),
            "beta": draw(logfl(0.5, 20.)), "width": draw(logfl(0.3, 3.)), "weight": draw(st.sampled_from([None, "flat", "lead"])),
            "data": draw(st.sampled_from(["random", "physical"])), "npts": draw(st.integers(8, 30)), "cls": draw(st.booleans()),
            "occ": draw(st.sampled_from([None, "zero", "some", "one"])) if tau else None,
            "cplx": draw(st.booleans()), "wmode": draw(st.sampled_from(["given", "given", "auto", "default"]))}


def kkt(a, b, x, c, d, what, x_tol=1e-8):
    """`x` minimises |ax-b| under cx=d (all real)."""
    mag = 1 + np.max(abs(x))
    if c is not None and c.shape[0]:
        close(c@x, d, rtol=1e-8, atol=1e-9*mag*np.max(abs(c)), what=f"{what}: constraint")
        _, s, vh = np.linalg.svd(c)
        null = vh[np.count_nonzero(s > 1e-10*s[0]):].conj().T
    else:
        null = np.eye(x.size)
    if null.shape[1] == 0:
        return False
    an = a@null
    res = b - a@x
    grad = an.conj().T@res
    # optimal residual by an independent solution
    y = np.linalg.lstsq(an, res, rcond=1e-13)[0]
    best = np.linalg.norm(res - an@y)
    now = np.linalg.norm(res)
    scale = np.linalg.norm(b) + np.linalg.norm(a)*np.linalg.norm(x)
    ensure(now <= best*(1 + 1e-6) + x_tol*scale, lambda: f"{what}: residual {now} is not optimal, {best} is feasible")
    return np.linalg.norm(grad)


@facet("C09", "from_z", fit_case(), quick=350, rule="moments honoured, residual optimal (independent projection), batch = separate fits")
def check_from_z(case):
    r = rng(case["seed"])
    lead, n_pole = tuple(case["lead"]), case["n_pole"]
    z = gt.matsubara_frequencies(np.arange(case["npts"]), case["beta"])
    if case["cplx"]:
        z = z + r.uniform(-2, 2, z.shape)
    p = r.uniform(-1.5, 1.5, (*lead, 4))*case["width"]
    w = r.uniform(0.1, 1, (*lead, 4))
    gf = np.sum(w[..., None, :]/(z[:, None] - p[..., None, :]), axis=-1)
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(case["n_mom"])[:, None], axis=-1)
    if case["data"] == "random":
        gf = r.normal(size=gf.shape) + 1j*r.normal(size=gf.shape)
        mom = r.normal(size=mom.shape)
    weight = None
    if case["weight"]:
        weight = r.uniform(0.2, 3, (*(lead if case["weight"] == "lead" else ()), z.size))
    fct = gt.basis.PoleFct.from_z if case["cls"] else gp.gf_from_z
    kw = dict(n_pole=n_pole, moments=mom, weight=weight)
    wid = 1.
    if case["wmode"] != "default":
        kw["width"] = wid = case["width"] if case["wmode"] == "given" else None
    if wid is None:
        wid = np.ones((*lead, 1))
        if mom.shape[-1] > 1:
            second = abs(mom[..., 1:2])
            if np.any(abs(second - 0.1) < 1e-9):
                return False
            wid = np.where(second >= 0.1, second/(cheb(n_pole)[-1]), 1.)
    res = pristine(fct, z, gf, **kw)
    poles = np.broadcast_to(res.poles, (*lead, n_pole))
    has_shape(res.residues, (*lead, n_pole), "residues")
    close(poles, np.broadcast_to(wid*cheb(n_pole), poles.shape), rtol=1e-12, atol=1e-13*np.max(wid), what="pole positions")
    for i in np.ndindex(lead):
        wi = np.ones(z.size) if weight is None else np.broadcast_to(weight, (*lead, z.size))[i]
        mat = wi[:, None]/(z[:, None] - poles[i])
        a, b = np.concatenate([mat.real, mat.imag]), np.concatenate([(wi*gf[i]).real, (wi*gf[i]).imag])
        c = np.vander(poles[i], case["n_mom"], increasing=True).T if case["n_mom"] else None
        kkt(a, b, res.residues[i], c, mom[i], "from_z")
        one = fct(z, gf[i], **{**kw, "moments": mom[i], "weight": None if weight is None else wi})
        close(mat@res.residues[i], mat@one.residues, rtol=1e-8, atol=1e-8, what="batch vs separate fit")
    return case["data"]


@facet("C09", "from_tau", fit_case(tau=True), quick=350,
       rule="moments and occupation honoured, residual optimal, batch = separate fits")
def check_from_tau(case):
    r = rng(case["seed"])
    lead, n_pole, beta = tuple(case["lead"]), case["n_pole"], case["beta"]
    tau = np.linspace(0, beta, num=2*case["npts"] + 1)
    p = r.uniform(-1.5, 1.5, (*lead, 4))*case["width"]
    w = r.uniform(0.1, 1, (*lead, 4))
    n_mom = case["n_mom"]
    gf = -np.sum(w[..., None, :]*np.exp(-p[..., None, :]*tau[:, None])/(1 + np.exp(-beta*p[..., None, :])), axis=-1)
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(n_mom)[:, None], axis=-1)
    if case["data"] == "random":
        gf = r.normal(size=gf.shape)
        mom = r.normal(size=mom.shape)
    occ = {None: False, "zero": 0.0, "some": 0.37, "one": 1.0}[case["occ"]]
    fixed = case["occ"] is not None
    weight = None
    if case["weight"]:
        weight = r.uniform(0.2, 3, (*(lead if case["weight"] == "lead" else ()), tau.size))
    fct = gt.basis.PoleGf.from_tau if case["cls"] else gp.gf_from_tau
    kw = dict(n_pole=n_pole, beta=beta, moments=mom, occ=occ, weight=weight)
    if case["wmode"] == "given":
        kw["width"] = case["width"]
    if n_mom + fixed > n_pole:
        raises(ValueError, lambda: fct(gf, **kw), "over-constrained gf_from_tau")
        return "over-constrained"
    if fixed and n_mom:  # constraints can be dependent (odd number of poles: f - 1/2 is odd); then nothing is promised
        grid = kw.get("width", 1.)*cheb(n_pole)
        rows = np.concatenate([np.vander(grid, n_mom, increasing=True).T, 1/(np.exp(beta*grid) + 1)[None, :]])
        if np.linalg.cond(rows/np.linalg.norm(rows, axis=-1, keepdims=True)) > 1e6:
            return False
    res = pristine(fct, gf, **kw)
    poles = np.broadcast_to(res.poles, (*lead, n_pole))
    has_shape(res.residues, (*lead, n_pole), "residues")
    close(poles, np.broadcast_to(kw.get("width", 1.)*cheb(n_pole), poles.shape), rtol=1e-12, atol=1e-13, what="pole positions")
    for i in np.ndindex(lead):
        wi = np.ones(tau.size) if weight is None else np.broadcast_to(weight, (*lead, tau.size))[i]
        mat = -wi[:, None]*np.exp(-poles[i]*tau[:, None])/(1 + np.exp(-beta*poles[i]))
        rows = [np.vander(poles[i], n_mom, increasing=True).T] if n_mom else []
        d = list(mom[i])
        if fixed:
            rows.append(1/(np.exp(beta*poles[i]) + 1)[None, :])
            d.append(occ)
        c = np.concatenate(rows) if rows else None
        if c is not None and np.linalg.cond(c) > 1e6:
            continue
        kkt(mat, wi*gf[i], res.residues[i], c, np.array(d), "from_tau")
        one = fct(gf[i], **{**kw, "moments": mom[i], "weight": None if weight is None else wi})
        close(mat@res.residues[i], mat@one.residues, rtol=1e-7, atol=1e-7, what="batch vs separate fit")
        if fixed:
            close(np.broadcast_to(res.occ(beta), lead)[i], occ, rtol=1e-8, atol=1e-8*(1 + np.max(abs(res.residues[i]))), what="occupation")
    return case["data"]


@facet("C09", "recovery", fit_case(tau=True), quick=250, rule="data of a function with poles on the grid is reproduced everywhere")
def check_recovery(case):
    r = rng(case["seed"])
    n_pole, beta = min(case["n_pole"], 4), case["beta"]
    width = case["width"]*4/beta  # beta*width ~ 1..12: poles can be resolved
    poles = width*cheb(n_pole)
    resid = r.uniform(-1, 1, n_pole)
    z = gt.matsubara_frequencies(np.arange(case["npts"]), beta)
    gf = np.sum(resid/(z[:, None] - poles), axis=-1)
    n_mom = min(case["n_mom"], n_pole - 1)
    mom = np.sum(resid*poles**np.arange(n_mom)[:, None], axis=-1)
    fit = gp.gf_from_z(z, gf, n_pole, moments=mom, width=width)
    far = np.array([1 + 1j, -0.3 + 0.5j, 3j])*width
    ref = np.sum(resid/(far[:, None] - poles), axis=-1)
    mag = np.sum(abs(resid))/width
    close(fit.eval_z(far), ref, rtol=1e-6, atol=1e-6*mag, what="from_z recovery")
    tau = np.linspace(0, beta, 2*case["npts"] + 1)
    gf_tau = -np.sum(resid*np.exp(-poles*tau[:, None])/(1 + np.exp(-beta*poles)), axis=-1)
    fit = gp.gf_from_tau(gf_tau, n_pole, beta, moments=mom, width=width)
    close(fit.eval_z(far), ref, rtol=1e-5, atol=1e-5*mag, what="from_tau recovery")


@facet("C09", "complex_moments", fit_case(), quick=150,
       rule="complex moments are honoured exactly by fits and by the construction from moments, real and imaginary part separately")
def check_complex_moments(case):
    """The fits are linear in data and moments, thus the complex problem is the combination of two real ones."""
    r = rng(case["seed"])
    lead, n_pole, n_mom, width = tuple(case["lead"]), case["n_pole"], max(case["n_mom"], 1), case["width"]
    mom = r.normal(size=(*lead, n_mom)) + 1j*r.normal(size=(*lead, n_mom))
    z = gt.matsubara_frequencies(np.arange(case["npts"]), case["beta"])
    gf = r.normal(size=(*lead, z.size)) + 1j*r.normal(size=(*lead, z.size))
    res = gp.gf_from_z(z, gf, n_pole=n_pole, moments=mom, width=width)
    has_shape(res.residues, (*lead, n_pole), "residues")
    power = (width*cheb(n_pole))**np.arange(n_mom)[:, None]
    mag = 1 + np.max(abs(res.residues))
    close(np.sum(res.residues[..., None, :]*power, axis=-1), mom, rtol=1e-8, atol=1e-9*mag*np.max(power), what="moments of the fit in z")
    resr = gp.gf_from_z(z, gf, n_pole=n_pole, moments=mom.real, width=width)
    resi = gp.gf_from_z(z, 0*gf, n_pole=n_pole, moments=mom.imag, width=width)
    mat = 1/(z[:, None] - width*cheb(n_pole))
    fit = np.sum(mat*(resr.residues + 1j*resi.residues)[..., None, :], axis=-1)
    if np.linalg.cond(mat) < 1e7:  # otherwise small singular values may or may not be dropped
        close(np.sum(mat*res.residues[..., None, :], axis=-1), fit, rtol=1e-7, atol=1e-7*(np.max(abs(fit)) + mag),
              what="fit with complex moments vs real and imaginary part")
    made = gp.gf_from_moments(mom, width=width)
    poles, resid = np.broadcast_arrays(made.poles, made.residues)
    back = np.sum(resid[..., None, :]*poles[..., None, :]**np.arange(n_mom)[:, None], axis=-1)
    close(back, mom, rtol=1e-8, atol=1e-9*(1 + np.max(abs(resid)))*max(1, width)**n_mom, what="moments of the construction")
    return f"{n_mom} moments"


@facet("C09", "over_constrained", fit_case(), quick=120, rule="more moments than poles raise ValueError, as many are accepted")
def check_over(case):
    r = rng(case["seed"])
    n_pole = case["n_pole"]
    z = gt.matsubara_frequencies(np.arange(case["npts"]), case["beta"])
    gf = 1/(z - 0.1)
    tau_gf = -np.ones(2*case["npts"] + 1)*0.5
    mom = r.normal(size=n_pole + 1 + case["n_mom"])
    raises(ValueError, lambda: gp.gf_from_z(z, gf, n_pole, moments=mom), "gf_from_z")
    raises(ValueError, lambda: gp.gf_from_tau(tau_gf, n_pole, case["beta"], moments=mom), "gf_from_tau")
    finite(gp.gf_from_z(z, gf, n_pole, moments=mom[:n_pole]).residues, "gf_from_z")
    finite(gp.gf_from_tau(tau_gf, n_pole, case["beta"], moments=mom[:n_pole]).residues, "gf_from_tau")


# ---------------------------------------------------------------------------
# C10
# ---------------------------------------------------------------------------
@st.composite
def dens_case(draw):
    beta = draw(logfl(0.5, 60.))
    n = draw(st.integers(1, 6))
    return {"beta": beta, "lead": draw(LEAD), "n": n, "seed": draw(seeds()), "width": draw(logfl(0.2, 4.)),
            "num": draw(st.integers(20, 400)), "n_mom": draw(st.integers(1, 4)), "n_fit": draw(st.integers(0, 3)),
            "shift": draw(fl(-2, 2))}


def _spectrum(case):
    r = rng(case["seed"])
    p = r.uniform(-1, 1, (*case["lead"], case["n"]))*case["width"] + case["shift"]
    w = r.uniform(0.05, 1, (*case["lead"], case["n"]))
    w /= w.sum(axis=-1, keepdims=True)
    return p, w


def occ_exact(p, w, beta):
    with np.errstate(over="ignore"):
        return np.sum(w/(np.exp(beta*p) + 1), axis=-1)


@facet("C10", "matsubara", dens_case(), quick=400,
       rule="density_iw on Matsubara frequencies within the bound of the neglected tail; exact when the moments determine G")
def check_dens(case):
    p, w = _spectrum(case)
    beta = case["beta"]
    iw = gt.matsubara_frequencies(np.arange(case["num"]), beta)
    gf = np.sum(w[..., None, :]/(iw[:, None] - p[..., None, :]), axis=-1)
    n_mom = case["n_mom"]
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(n_mom)[:, None], axis=-1)
    ref = occ_exact(p, w, beta)
    res = pristine(gt.density_iw, iw, gf, beta=beta, moments=mom)
    has_shape(res, tuple(case["lead"]), "density_iw")
    # tail: real part decays with the first even power not fixed by the moments
    order = 2*((n_mom + 2)//2)
    W = 2*(np.max(abs(p)) + 1)
    wN = abs(iw[-1])
    if wN > 3*W:
        bound = 8*n_mom**2*W*(W/wN)**(order - 1)
        close(res, ref, rtol=0, atol=bound + 1e-9, what=f"density_iw n_mom={n_mom}")
        if case["n_fit"]:
            res = gt.density_iw(iw, gf, beta=beta, moments=mom, n_fit=case["n_fit"])
            close(res, ref, rtol=0, atol=bound + 1e-9, what=f"density_iw n_mom={n_mom} n_fit={case['n_fit']}")
    # moments of a single level determine everything, even for few frequencies
    e = float(np.reshape(p, -1)[0])
    if abs(e) >= 0.11:
        few = iw[:1 + case["num"] % 5]
        val = gt.density_iw(few, 1/(few - e), beta=beta, moments=[1., e])
        close(float(val), float(occ_exact(np.array([e]), np.ones(1), beta)), rtol=1e-9, atol=1e-12, what="single level")


@facet("C10", "linear", dens_case(), quick=250, rule="response of density_iw to arbitrary changes of the data is the plain frequency sum")
def check_dens_lin(case):
    p, w = _spectrum(case)
    beta, r = case["beta"], rng(case["seed"] + 1)
    iw = gt.matsubara_frequencies(np.arange(case["num"]), beta)
    gf = np.sum(w[..., None, :]/(iw[:, None] - p[..., None, :]), axis=-1)
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(case["n_mom"])[:, None], axis=-1)
    delta = r.normal(size=gf.shape) + 1j*r.normal(size=gf.shape)
    weights = r.uniform(0.5, 2, iw.size)
    for wt in (1., weights):
        base = gt.density_iw(iw, gf, beta=beta, moments=mom, weights=wt)
        res = gt.density_iw(iw, gf + delta, beta=beta, moments=mom, weights=wt)
        close(res - base, 2/beta*np.sum(delta.real*wt, axis=-1), rtol=1e-8, atol=1e-9*case["num"]/beta, what="linear response")


@facet("C10", "pade", dens_case(), quick=250, rule="density_iw with Pade frequencies equals the exact thermal occupation")
def check_dens_pade(case):
    p, w = _spectrum(case)
    num = min(10 + case["num"]//5, 70)
    beta = min(case["beta"], 0.8*num/np.max(abs(p)))
    izp, rp = gt.pade_frequencies(num, beta)
    gf = np.sum(w[..., None, :]/(izp[:, None] - p[..., None, :]), axis=-1)
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(case["n_mom"])[:, None], axis=-1)
    if np.max(abs(mom))*beta > 0.8*num:
        mom = mom[..., :1]
    res = gt.density_iw(izp, gf, beta=beta, weights=rp, moments=mom)
    close(res, occ_exact(p, w, beta), rtol=0, atol=1e-7, what=f"density_iw Pade num={num} beta={beta}")
    n_fit = 1 + case["n_fit"] % 3
    res = gt.density_iw(izp, gf, beta=beta, weights=rp, moments=mom, n_fit=n_fit)
    close(res, occ_exact(p, w, beta), rtol=0, atol=1e-7, what=f"density_iw Pade num={num} beta={beta}, n_fit={n_fit}")
    if np.max(abs(np.sum(w*p, axis=-1)))*beta < 0.8*num:
        res = gt.density_iw(izp, gf, beta=beta, weights=rp, moments=[1], n_fit=n_fit)
        close(res, occ_exact(p, w, beta), rtol=0, atol=1e-7, what="density_iw Pade, integer moments")


@st.composite
def mu_case(draw):
    n = draw(st.integers(1, 6))
    return {"beta": draw(logfl(0.2, 100.)), "eps": draw(st.lists(fl(-4, 4), min_size=n, max_size=n)),
            "x": draw(st.one_of(fl(0.02, 0.98), logfl(1e-3, 0.5))), "mu0": draw(st.one_of(st.just(0.0), fl(-10, 10))),
            "step0": draw(logfl(0.05, 20.)), "given": draw(st.booleans()),
            "off": draw(st.tuples(logfl(1e-9, 0.1), sign()).map(lambda t: t[0]*t[1]))}


@facet("C10", "chemical_potential", mu_case(), quick=400, rule="returned mu reproduces the occupation; impossible occupations raise")
def check_mu(case):
    eps, beta = np.array(case["eps"]), case["beta"]
    occ = case["x"]*eps.size

    def occ_fct(mu):
        return np.sum(gt.fermi_fct(eps - mu, beta=beta))
    kw = {"mu0": case["mu0"], "step0": case["step0"]} if case["given"] else {}
    mu = gt.chemical_potential(lambda m: occ_fct(m) - occ, **kw)
    close(occ_fct(mu), occ, rtol=0, atol=1e-9*(1 + abs(mu))*beta*eps.size, what="occupation at mu")
    # guess close to the solution
    again = gt.chemical_potential(lambda m: occ_fct(m) - occ, mu0=mu + case["off"], step0=case["step0"])
    close(occ_fct(again), occ, rtol=0, atol=1e-9*(1 + abs(mu))*beta*eps.size, what="occupation for a close guess")
    # tolerances are passed to the root search
    again = gt.chemical_potential(lambda m: occ_fct(m) - occ, mu0=mu + case["off"], xtol=1e-13, rtol=1e-14)
    close(occ_fct(again), occ, rtol=0, atol=2e-12*(1 + abs(mu))*max(beta, 1)*eps.size, what="occupation for tight tolerance")
    # guess already correct
    exact = 0.3*beta**0
    target = occ_fct(exact)
    close(gt.chemical_potential(lambda m: occ_fct(m) - target, mu0=exact), exact, rtol=1e-9, atol=1e-9/beta*0 + 1e-9,
          what="exact guess") if 1e-3 < target/eps.size < 1 - 1e-3 and beta < 20 else None
    raises(RuntimeError, lambda: gt.chemical_potential(lambda m: occ_fct(m) - (eps.size + 0.1 + case["x"]), **kw),
           "occupation larger than number of levels")
    raises(RuntimeError, lambda: gt.chemical_potential(lambda m: occ_fct(m) + 0.1 + case["x"], **kw), "negative occupation")


@st.composite
def old_case(draw):
    return {"beta": draw(logfl(0.5, 40.)), "seed": draw(seeds()), "num": draw(st.integers(1, 200)),
            "kind": draw(st.sampled_from(["scalar", "vector", "grid", "matrix", "cmatrix"])), "n": draw(st.integers(1, 4)),
            "total": draw(st.booleans()), "order": draw(st.sampled_from([1, 2, 3]))}


@facet("C10", "deprecated_density", old_case(), quick=400,
       rule="density is exact for static potentials, linear in the data; error estimate and convergence data as documented")
def check_old(case):
    r, beta, n, num = rng(case["seed"]), case["beta"], case["n"], case["num"]
    iw = gt.matsubara_frequencies(np.arange(num), beta)
    matrix = case["kind"] in ("matrix", "cmatrix")
    if matrix:
        pot = r.normal(size=(n, n)) + (1j*r.normal(size=(n, n)) if case["kind"] == "cmatrix" else 0)
        pot = pot + pot.conj().T
        eig, vec = np.linalg.eigh(-pot)
        tail = np.moveaxis(np.linalg.inv(iw[:, None, None]*np.eye(n) + pot), 0, -1)
        tail = np.einsum("iiw->iw", tail)
        ref = np.einsum("ij,j,ij->i", vec, 1/(np.exp(beta*eig) + 1), vec.conj()).real
    else:
        shape = {"scalar": (), "vector": (n,), "grid": (2, n)}[case["kind"]]
        pot = r.normal(size=shape) if shape else float(r.normal())
        tail = 1/(np.asarray(pot)[..., None] + iw)
        ref = 1/(np.exp(-beta*np.asarray(pot)) + 1)
    total = case["total"]
    gf = tail.sum(axis=tuple(range(tail.ndim - 1))) if total else tail
    if total:
        ref = np.sum(ref)
    kw = dict(matrix=matrix, total=total)
    res = gt.density(gf, potential=pot, beta=beta, **kw)
    scale = 1e-9*num
    close(res.x, ref, rtol=1e-9, atol=scale, what="density of static potential")
    close(res.err, np.zeros(np.shape(ref)), atol=1e-6*num, what="error estimate")
    delta = r.normal(size=gf.shape)
    val = gt.density(gf + delta, potential=pot, beta=beta, return_err=False, **kw)
    close(val - ref, 2/beta*delta.sum(axis=-1), rtol=1e-8, atol=scale, what="linear response")
    # a number for `return_err` is the threshold of a warning
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        err = gt.density(gf + delta, potential=pot, beta=beta, **kw).err
        largest = float(np.max(err))
        for thr in (0.999*largest, 1.001*largest):
            if largest <= 1e-12:
                continue
            del caught[:]
            again = gt.density(gf + delta, potential=pot, beta=beta, return_err=thr, **kw)
            warned = any(not issubclass(w.category, DeprecationWarning) for w in caught)
            ensure(warned == (thr < largest), f"return_err={thr}: error {largest}, warned: {warned}")
            close(again, val, rtol=1e-12, atol=1e-13, what="density with return_err as number")
    conv = gt.check_convergence(gf + delta, potential=pot, beta=beta, order=case["order"], **kw)
    close(conv, iw.imag**case["order"]*delta, rtol=1e-7, atol=1e-8*np.max(iw.imag)**case["order"], what="check_convergence")


@facet("C10", "error_estimate", st.fixed_dictionaries({"beta": logfl(0.5, 40.), "c": fl(0.1, 5), "num": st.integers(60, 400),
                                                       "noisy": st.booleans()}), quick=150,
       rule="density_error bounds the truncated tail of c/w^2 (density_error2: c/w^3)")
def check_err(case):
    beta, c, num = case["beta"], case["c"], case["num"]
    iw = gt.matsubara_frequencies(np.arange(num), beta)
    wn = gt.matsubara_frequencies(np.arange(num, 40*num), beta).imag
    err = gt.density_error(c/iw.imag**2, iw, noisy=case["noisy"])
    true = 2/beta*np.sum(c/wn**2) + c/np.pi/(wn[-1] + np.pi/beta)
    ensure(true*(1 - 1e-9) <= err <= true*(1 + 3/num), lambda: f"density_error {err} for tail {true}")
    err2 = gt.density_error2(c/iw.imag**3, iw)
    true2 = 2/beta*np.sum(c/wn**3)
    ensure(true2*(1 - 1e-9) <= err2, lambda: f"density_error2 {err2} for tail {true2}")


# ---------------------------------------------------------------------------
# large problems
# ---------------------------------------------------------------------------
@facet("C06", "large", st.fixed_dictionaries({"n": logint(50, 30000), "seed": seeds(), "beta": BETA, "spread": logfl(0.1, 900.)}), quick=100,
       rule="arrays of up to 30000 energies or indices against closed forms")
def check_large_stat(case):
    rg, beta, n = rng(case["seed"]), case["beta"], case["n"]
    x = rg.uniform(-1, 1, size=n)*case["spread"]
    eps = x/beta
    x = eps*beta
    ex = np.exp(-abs(x))
    rtol = 1e-12 + 2e-15*case["spread"]
    close(pristine(gs.fermi_fct, eps, beta), np.where(x > 0, ex, 1)/(1 + ex), rtol=rtol, atol=1e-306, what="fermi_fct")
    close(pristine(gs.fermi_fct, eps + 0.3j/beta, beta), np.where(x > 0, np.exp(-(abs(x) + 0.3j)), 1)/(1 + np.exp(-np.sign(x)*(x + 0.3j))),
          rtol=10*rtol, atol=1e-306, what="fermi_fct of complex energies")
    close(pristine(gs.fermi_fct_d1, eps, beta), -beta*ex/(1 + ex)**2, rtol=10*rtol, atol=1e-306*beta, what="fermi_fct_d1")
    close(pristine(gs.bose_fct, eps, beta), np.where(x > 0, ex, -1)/(-np.expm1(-abs(x))), rtol=10*rtol, atol=1e-306, what="bose_fct")
    occ = rg.uniform(1e-6, 1 - 1e-6, size=n)
    close(pristine(gs.fermi_fct_inv, occ, beta), np.log((1 - occ)/occ)/beta, rtol=1e-9, atol=1e-9/beta, what="fermi_fct_inv")
    idx = np.arange(n) if case["seed"] % 2 else rg.integers(-n, n, size=n)
    close(gs.matsubara_frequencies(idx, beta).imag, (2*idx + 1)*np.pi/beta, rtol=1e-13, atol=0, what="matsubara_frequencies")
    close(gs.matsubara_frequencies_b(idx, beta).imag, 2*idx*np.pi/beta, rtol=1e-13, atol=0, what="matsubara_frequencies_b")
    return f"1e{int(np.log10(n))}"


@st.composite
def pf_large(draw):
    num = draw(logint(90, 260))
    return {"num": num, "beta": draw(BETA), "x": draw(st.lists(cplx(fl(-3*num, 3*num), fl(-3, 3)), min_size=1, max_size=4))}


facet("C07", "large", pf_large(), quick=10, rule="continued fraction for up to 260 poles")(check_pf)
facet("C07", "large_exact", st.fixed_dictionaries({"num": logint(80, 260), "beta": BETA, "x": st.lists(fl(-1, 1), min_size=1, max_size=6)}),
      quick=10, rule="inside the convergence radius the pole sum of up to 260 poles equals the Fermi function")(check_pf_exact)
facet("C07", "large_scaling", st.fixed_dictionaries({"num": logint(60, 200), "b1": BETA, "b2": BETA}), quick=8,
      rule="scaling of up to 200 poles")(check_pf_scale)


@facet("C08", "large", st.fixed_dictionaries({"n": logint(7, 400), "m": logint(5, 300), "lead": LEAD, "seed": seeds(), "beta": logfl(0.1, 60.),
                                              "cw": st.booleans()}), quick=120, rule="many poles at many points against explicit sums")
def check_large_poles(case):
    rg, beta = rng(case["seed"]), case["beta"]
    shape = (*case["lead"], case["n"])
    poles = rg.normal(size=shape)
    weights = rg.normal(size=shape) + (1j*rg.normal(size=shape) if case["cw"] else 0)
    lead = (1,)*len(case["lead"])

    def total(fct, arg):
        return np.sum(weights*fct(arg[..., None]), axis=-1)
    z = (rg.normal(size=case["m"]) + 1j*rg.choice([1, -1], size=case["m"])*np.exp(rg.uniform(-4, 1, size=case["m"]))).reshape(-1, *lead)
    mag = np.sum(abs(weights), axis=-1)
    close(gt.pole_gf_z(z, poles, weights), total(lambda x: 1/(x - poles), z), rtol=1e-11, atol=1e-11*np.max(mag)/np.min(abs(z.imag)), what="pole_gf_z")
    tau = (beta*np.r_[0, rg.uniform(size=case["m"]), 1]).reshape(-1, *lead)
    ex = np.exp(-beta*abs(poles))
    ref = total(lambda t: -np.exp(np.where(poles > 0, -t*poles, (beta - t)*poles))/(1 + ex), tau)
    close(gt.pole_gf_tau(tau, poles, weights, beta), ref, rtol=1e-10, atol=1e-12*np.max(mag), what="pole_gf_tau")
    pos = abs(poles) + 0.05/beta
    ref = total(lambda t: -np.exp(-t*pos)/(-np.expm1(-beta*pos)), tau)
    size = np.max(np.sum(abs(weights)/(-np.expm1(-beta*pos)), axis=-1))
    close(gt.pole_gf_tau_b(tau, pos, weights, beta), ref, rtol=1e-10, atol=1e-12*size, what="pole_gf_tau_b")
    tt = rg.uniform(-1, 20, size=case["m"]).reshape(-1, *lead)
    ref = total(lambda t: -1j*np.exp(-1j*t*poles), tt)*(tt >= 0)
    close(gt.pole_gf_ret_t(tt, poles, weights), ref, rtol=1e-10, atol=1e-11*np.max(mag), what="pole_gf_ret_t")
    order = np.arange(1, 12)
    ref = np.stack([np.sum(weights*poles**k, axis=-1) for k in range(11)], axis=-1)
    size = np.stack([np.sum(abs(weights*poles**k), axis=-1) for k in range(11)], axis=-1)
    close(gt.pole_gf_moments(poles, weights, order), ref, rtol=0, atol=1e-12*size, what="pole_gf_moments")
    return f"1e{int(np.log10(case['n']))}"


@st.composite
def dens_large(draw):
    return {**draw(dens_case()), "n": draw(logint(6, 60)), "num": draw(logint(400, 5000)), "lead": draw(st.sampled_from([[], [2]]))}


facet("C10", "large", dens_large(), quick=50, rule="density_iw with up to 5000 frequencies and 60 levels")(check_dens)
