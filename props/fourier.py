"""C11 - C13: Fourier and Laplace transforms."""
import importlib.util
import sys

import numpy as np
from hypothesis import strategies as st

import gftool as gt
from gftool import fourier as gf
from gftool import hermpade
from vlib.core import Inconclusive, close, ensure, facet, finite, has_shape, pristine, raises
from vlib.gen import cplx, fl, logfl, logint, rng, seeds, sign, toc



def without_numexpr():
    """The module as a user gets it who did not install the optional dependency."""
    missing = object()
    old = sys.modules.get("numexpr", missing)
    sys.modules["numexpr"] = None
    try:
        spec = importlib.util.spec_from_file_location("gftool._fourier_without_numexpr", gf.__file__)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    except ImportError:
        return gf
    finally:
        if old is missing:
            del sys.modules["numexpr"]
        else:
            sys.modules["numexpr"] = old
    return mod


plain = gf if hasattr(gf, "__path__") else without_numexpr()
BETA = st.one_of(logfl(0.1, 200.), st.sampled_from([1.0, 10.0, 50.0, 7]))
LEAD = st.sampled_from([[], [], [2], [1], [3], [2, 2], [2, 1]])


# ---------------------------------------------------------------------------
# independent references
# ---------------------------------------------------------------------------
def phi12(x):
    """``int_0^1 exp(x s) ds`` and ``int_0^1 s exp(x s) ds``."""
    x = np.asarray(x, dtype=complex)
    small = abs(x) < 0.7
    xs = np.where(small, x, 0)
    p1, p2, term = np.zeros_like(x), np.zeros_like(x), np.ones_like(x)
    for k in range(26):
        p1 += term/(k + 1)
        p2 += term/(k + 2)
        term = term*xs/(k + 1)
    xl = np.where(small, 1, x)
    e1 = (np.exp(xl) - 1)/xl
    e2 = (np.exp(xl) - e1)/xl
    return np.where(small, p1, e1), np.where(small, p2, e2)


def lin_integral(tt, val, s):
    """``int dt val(t) exp(s t)`` for the linear interpolant of `val`; (..., Nt), (Ns) -> (..., Ns)."""
    tt = np.asarray(tt, dtype=float)
    h = np.diff(tt)
    s = np.asarray(s, dtype=complex)
    p1, p2 = phi12(s[:, None]*h)
    left, diff = val[..., None, :-1], np.diff(val, axis=-1)[..., None, :]
    return np.sum(h*np.exp(s[:, None]*tt[:-1])*(left*p1 + diff*p2), axis=-1)


def fgrid(n, beta):
    return np.pi/beta*(2*np.arange(n) + 1)


def bgrid(n, beta):
    return 2*np.pi/beta*np.arange(n)


def cheb(n):
    """Chebyshev nodes in ascending order."""
    return np.sort(np.cos(np.pi*(2*np.arange(n) + 1)/(2*n)))


def fermi_tau(tau, pole, beta):
    """Imaginary-time Green's function of unit-weight `pole`: ``-exp(-tau p)/(1 + exp(-beta p))``."""
    tau, pole = np.broadcast_arrays(tau, pole)
    pos = pole > 0
    with np.errstate(all="ignore"):
        a = -np.exp(-tau*np.where(pos, pole, 0))/(1 + np.exp(-beta*np.where(pos, pole, 0)))
        b = -np.exp((beta - tau)*np.where(pos, 0, pole))/(1 + np.exp(beta*np.where(pos, 0, pole)))
    return np.where(pos, a, b)


def pole_tau(tau, poles, weights, beta):
    """(Nt), (N), (..., N) -> (..., Nt)."""
    return np.sum(weights[..., None, :]*fermi_tau(tau[:, None], poles, beta), axis=-1)


def pole_z(z, poles, weights):
    return np.sum(weights[..., None, :]/(z[:, None] - poles), axis=-1)


def vander_residues(moments):
    """Residues at the Chebyshev nodes giving `moments`."""
    nodes = cheb(moments.shape[-1])
    mat = nodes[None, :]**np.arange(moments.shape[-1])[:, None]
    return nodes, np.linalg.solve(mat, moments[..., None])[..., 0]


def random_data(case, n):
    rg = rng(case["seed"])
    data = rg.normal(size=(*case["lead"], n))
    if case.get("smooth"):
        data = np.cumsum(data, axis=-1)
    return data


# ---------------------------------------------------------------------------
# C11
# ---------------------------------------------------------------------------
@st.composite
def tau_case(draw, nmin=3, nmax=42):
    return {"n": draw(st.integers(nmin, nmax)), "beta": draw(BETA), "lead": draw(LEAD), "seed": draw(seeds()),
            "smooth": draw(st.booleans())}


@facet("C11", "tau2iw_dft", tau_case(), quick=300, rule="fermionic Riemann sum for arbitrary real data, any grid size")
def check_tau2iw_dft(case):
    g, beta, n = random_data(case, case["n"]), case["beta"], case["n"]
    res = pristine(gf.tau2iw_dft, g, beta)
    has_shape(res, (*case["lead"], n//2), "tau2iw_dft")
    tau = np.linspace(0, beta, n)
    ws = fgrid(n//2, beta)
    ref = beta/(n - 1)*np.sum(g[..., None, :-1]*np.exp(1j*ws[:, None]*tau[:-1]), axis=-1)
    close(res, ref, rtol=0, atol=1e-11*beta*np.max(abs(g)), what="tau2iw_dft")
    return f"n%2={n % 2}"


@facet("C11", "tau2iw_lin", tau_case(), quick=300,
       rule="fermionic integral of the linear interpolant of the antiperiodically extended data")
def check_tau2iw_lin(case):
    g, beta, n = random_data(case, case["n"]), case["beta"], case["n"]
    if case["seed"] % 2:
        g[..., -1] = -g[..., 0]
    res = pristine(gf.tau2iw_ft_lin, g, beta)
    has_shape(res, (*case["lead"], n//2), "tau2iw_ft_lin")
    tau = np.linspace(0, beta, n)
    s = 1j*fgrid(n//2, beta)
    # data on [-beta, 0) ends at the value G(0)
    other = g.copy()
    other[..., -1] = -g[..., 0]
    ref = 0.5*(lin_integral(tau, g, s) + lin_integral(tau, other, s))
    close(res, ref, rtol=0, atol=2e-11*beta*np.max(abs(g)), what="tau2iw_ft_lin")
    return "continuous" if case["seed"] % 2 else "jump"


@facet("C11", "tau2iv", tau_case(), quick=450, rule="bosonic Riemann sum, linear-interpolant integral and wrapper")
def check_tau2iv(case):
    g, beta, n = random_data(case, case["n"]), case["beta"], case["n"]
    tau = np.linspace(0, beta, n)
    num = (n - 1)//2 + 1
    s = 1j*bgrid(num, beta)
    atol = 2e-11*beta*np.max(abs(g))
    lin = lin_integral(tau, g, s)
    res = pristine(gf.tau2iv_ft_lin, g, beta)
    close(res, lin, rtol=0, atol=atol, what="tau2iv_ft_lin")
    # removing the jump by a linear function does not change the linear interpolant's integral
    close(pristine(gf.tau2iv, g, beta), lin, rtol=0, atol=atol, what="tau2iv (default)")
    close(gf.tau2iv(g, beta, fourier=gf.tau2iv_ft_lin), lin, rtol=0, atol=atol, what="tau2iv (ft_lin)")

    def dft(val):
        out = beta/(n - 1)*np.sum(val[..., None, :-1]*np.exp(s[:, None]*tau[:-1]), axis=-1)
        out[..., 0] = beta/(n - 1)*(np.sum(val, axis=-1) - 0.5*(val[..., 0] + val[..., -1]))
        return out

    close(pristine(gf.tau2iv_dft, g, beta), dft(g), rtol=0, atol=atol, what="tau2iv_dft")
    jump = g[..., -1:] - g[..., :1]
    ref = dft(g - jump*tau/beta)
    ref[..., 1:] += jump/s[1:]
    ref[..., 0] += 0.5*beta*jump[..., 0]
    close(gf.tau2iv(g, beta, fourier=gf.tau2iv_dft), ref, rtol=0, atol=atol, what="tau2iv (dft)")
    return f"n%2={n % 2}"


@st.composite
def poles_case(draw, nmin=16, nmax=120, max_mom=4, maxp=2.5):
    k = draw(st.integers(1, 5))
    return {"n": draw(st.integers(nmin, nmax)), "beta": draw(BETA), "lead": draw(LEAD), "seed": draw(seeds()),
            "poles": draw(st.lists(fl(-maxp, maxp), min_size=k, max_size=k)), "n_mom": draw(st.integers(1, max_mom)),
            "given": draw(st.booleans()), "back": draw(st.sampled_from(["lin", "dft", "default"])),
            "norm": draw(st.booleans())}


def pole_data(case):
    rg = rng(case["seed"])
    poles = np.array(case["poles"], dtype=float)
    w = rg.uniform(-1, 1, size=(*case["lead"], poles.size))
    if case["norm"]:
        w = abs(w) + 0.05
        w /= w.sum(axis=-1, keepdims=True)
    return poles, w


def moments_of(poles, w, n):
    return np.sum(w[..., None, :]*poles**np.arange(n)[:, None], axis=-1)


@facet("C11", "tau2iw_moments", poles_case(), quick=350,
       rule="tau2iw with given or inferred moments: equals transform of the remainder plus the exact pole part, and is "
            "the exact Green's function within the interpolation error")
def check_tau2iw_moments(case):
    beta, n = case["beta"], case["n"]
    poles, w = pole_data(case)
    tau = np.linspace(0, beta, n)
    g = pole_tau(tau, poles, w, beta)
    n_mom = case["n_mom"] if case["given"] else 1
    mom = moments_of(poles, w, n_mom)
    nodes, res = vander_residues(mom)
    kwds = {"lin": {"fourier": gf.tau2iw_ft_lin}, "dft": {"fourier": gf.tau2iw_dft}, "default": {}}[case["back"]]
    if case["given"]:
        kwds["moments"] = mom
    out = pristine(gf.tau2iw, g, beta, **kwds)
    has_shape(out, (*case["lead"], n//2), "tau2iw")
    ws = 1j*fgrid(n//2, beta)
    rem = g - pole_tau(tau, nodes, res, beta)
    if case["back"] == "dft":
        part = beta/(n - 1)*np.sum(rem[..., None, :-1]*np.exp(ws[:, None]*tau[:-1]), axis=-1)
    else:
        part = lin_integral(tau, rem, ws)
    scale = (np.sum(abs(w), axis=-1) + np.sum(abs(res), axis=-1))[..., None]
    close(out, part + pole_z(ws, nodes, res), rtol=0, atol=1e-10*(1 + beta)*np.max(scale), what="tau2iw vs. model")
    if case["back"] == "dft":
        return "dft"
    h = beta/(n - 1)
    bound = beta*h**2/8*(np.sum(abs(w)*poles**2, axis=-1) + np.sum(abs(res)*nodes**2, axis=-1))[..., None]
    exact = pole_z(ws, poles, w)
    ensure(np.all(abs(out - exact) <= bound + 1e-9*(1 + beta)*scale),
           lambda: f"tau2iw: deviation {np.max(abs(out - exact))} from the exact function exceeds the interpolation "
                   f"error bound {np.max(bound)}")
    return f"mom={n_mom if case['given'] else 'jump'}"


@facet("C11", "tau2iw_model", st.fixed_dictionaries({
    "n": st.integers(3, 42), "beta": BETA, "lead": LEAD, "seed": seeds(), "smooth": st.booleans(),
    "n_mom": st.integers(1, 4), "share": st.booleans(), "back": st.sampled_from(["dft", "lin", "default"])}), quick=300,
    rule="tau2iw for arbitrary data and given moments, consistent with the data or not: transform of the remainder plus "
         "the exact pole part, the moments are honoured as given")
def check_tau2iw_model(case):
    g, beta, n = random_data(case, case["n"]), case["beta"], case["n"]
    mom = rng(case["seed"] + 5).normal(size=(*([] if case["share"] else case["lead"]), case["n_mom"]))
    nodes, res = vander_residues(mom)
    tau = np.linspace(0, beta, n)
    ws = 1j*fgrid(n//2, beta)
    rem = g - pole_tau(tau, nodes, res, beta)
    if case["back"] == "dft":
        ref = beta/(n - 1)*np.sum(rem[..., None, :-1]*np.exp(ws[:, None]*tau[:-1]), axis=-1)
    else:
        other = rem.copy()
        other[..., -1] = -rem[..., 0]
        ref = 0.5*(lin_integral(tau, rem, ws) + lin_integral(tau, other, ws))
    ref = ref + pole_z(ws, nodes, res)
    kwds = {"lin": {"fourier": gf.tau2iw_ft_lin}, "dft": {"fourier": gf.tau2iw_dft}, "default": {}}[case["back"]]
    out = pristine(gf.tau2iw, g, beta, moments=mom, **kwds)
    close(out, ref, rtol=0, atol=1e-10*(1 + beta)*(1 + np.max(abs(g)))*(1 + np.max(abs(res))), what="tau2iw vs. model")
    return case["back"]


@st.composite
def span_case(draw):
    n_pole = draw(st.integers(2, 7))
    return {"n": draw(st.integers(2*n_pole + 4, 90)), "beta": draw(logfl(1., 60.)), "lead": draw(LEAD), "seed": draw(seeds()),
            "n_pole": n_pole, "n_mom": draw(st.integers(0, n_pole))}


@facet("C11", "tau2iw_fit", span_case(), quick=200,
       rule="tau2iw with n_pole fitted poles: exact for Green's functions representable by the fit, on any grid")
def check_tau2iw_fit(case):
    beta, n = case["beta"], case["n"]
    nodes = cheb(case["n_pole"])
    w = rng(case["seed"]).normal(size=(*case["lead"], nodes.size))
    tau = np.linspace(0, beta, n)
    g = pole_tau(tau, nodes, w, beta)
    ws = 1j*fgrid(n//2, beta)
    kwds = {} if case["n_mom"] == 0 else {"moments": moments_of(nodes, w, case["n_mom"])}
    out = pristine(gf.tau2iw, g, beta, n_pole=case["n_pole"], **kwds)
    close(out, pole_z(ws, nodes, w), rtol=0, atol=1e-7*(1 + beta)*np.max(abs(w)), what="tau2iw with fitted poles")
    # other data: linear in the data, large-frequency behaviour given by moments
    rg = rng(case["seed"] + 1)
    a, b = rg.normal(size=(2, *g.shape))
    out_a, out_b = (gf.tau2iw(x, beta, n_pole=case["n_pole"]) for x in (a, b))
    out_ab = gf.tau2iw(2*a - 0.5*b, beta, n_pole=case["n_pole"])
    close(out_ab, 2*out_a - 0.5*out_b, rtol=0, atol=1e-6*(1 + beta)*max(np.max(abs(out_a)), np.max(abs(out_b))),
          what="linearity of tau2iw")
    if case["lead"]:
        flat, ref = a.reshape(-1, n), out_a.reshape(-1, n//2)
        for i in range(flat.shape[0]):
            close(gf.tau2iw(flat[i], beta, n_pole=case["n_pole"]), ref[i], rtol=0,
                  atol=1e-7*(1 + beta)*np.max(abs(ref)), what=f"tau2iw for leading index {i}")
    return f"mom={min(case['n_mom'], 2)}"


@facet("C11", "tau2iv_poles", poles_case(maxp=3.), quick=200,
       rule="bosonic pole Green's functions: Matsubara values within the interpolation error")
def check_tau2iv_poles(case):
    beta, n = case["beta"], case["n"]
    poles, w = pole_data(case)
    poles = abs(poles) + 0.05
    tau = np.linspace(0, beta, n)
    kern = -np.exp(-tau[:, None]*poles)/(-np.expm1(-beta*poles))
    g = np.sum(w[..., None, :]*kern, axis=-1)
    ivs = 1j*bgrid((n - 1)//2 + 1, beta)
    exact = pole_z(ivs, poles, w)
    h = beta/(n - 1)
    norm = abs(w)/(-np.expm1(-beta*poles))
    bound = np.sum(norm*poles**2*np.minimum(beta, 1/poles + h), axis=-1)[..., None]*h**2/8
    out = gf.tau2iv(g, beta)
    ensure(np.all(abs(out - exact) <= 1.0001*bound + 1e-9*(1 + beta)*np.sum(norm, axis=-1)[..., None]),
           lambda: f"tau2iv: deviation {np.max(abs(out - exact))} exceeds interpolation error bound {np.max(bound)}")


@st.composite
def izp_case(draw):
    k = draw(st.integers(1, 5))
    return {"n": draw(st.integers(60, 200)), "beta": draw(logfl(1., 12.)), "seed": draw(seeds()), "lead": [],
            "poles": draw(st.lists(fl(-1, 1), min_size=k, max_size=k)), "n_izp": draw(st.integers(10, 16)),
            "n_mom": draw(st.integers(0, 3)), "norm": draw(st.booleans()), "scale": draw(logfl(0.2, 5.)),
            "occ": draw(st.booleans())}


@facet("C11", "tau2izp", izp_case(), quick=120,
       rule="tau2izp: reproduces pole Green's functions at Pade frequencies, honours moments")
def check_tau2izp(case):
    beta, n = case["beta"], case["n"]
    poles, w = pole_data(case)
    tau = np.linspace(0, beta, n)
    g = pole_tau(tau, poles, w, beta)
    izp = gt.pade_frequencies(case["n_izp"], beta=beta)[0]
    exact = pole_z(izp, poles, w)
    kwds = {}
    if case["n_mom"]:
        kwds["moments"] = moments_of(poles, w, case["n_mom"])
    if case["occ"]:
        kwds["occ"] = float(np.sum(-w*fermi_tau(beta, poles, beta)))
    tol = 1e-6 if beta < 6 else 3e-4
    out = pristine(gf.tau2izp, g, beta, izp, **kwds)
    has_shape(out, izp.shape, "tau2izp")
    close(out, exact, rtol=0, atol=tol*np.sum(abs(w))*max(1, beta/np.pi), what="tau2izp")
    # large frequencies show the moments exactly
    far = np.concatenate([izp[:-2], [1e5j, 1e5j + 2e4]])
    out = gf.tau2izp(g, beta, far, **kwds)
    close((out*far)[-2:], np.full(2, w.sum()), rtol=0, atol=1e-3*np.sum(abs(w)), what="1/z moment of tau2izp")
    close(gf.tau2izp(g, beta, izp, weight=np.full(n, 1.7), **kwds), exact, rtol=0,
          atol=tol*np.sum(abs(w))*max(1, beta/np.pi), what="tau2izp with constant weight")
    return f"mom={case['n_mom']},occ={case['occ']}"


# ---------------------------------------------------------------------------
# C12
# ---------------------------------------------------------------------------
@st.composite
def iw_case(draw, nmin=1, nmax=30):
    return {"n": draw(st.integers(nmin, nmax)), "beta": draw(BETA), "lead": draw(LEAD), "seed": draw(seeds()),
            "decay": draw(st.sampled_from([0, 1, 2]))}


def iw_data(case):
    rg = rng(case["seed"])
    g = rg.normal(size=(*case["lead"], case["n"], 2)) @ [1, 1j]
    return g/(1 + np.arange(case["n"]))**case["decay"]


def freq_sum(g, beta, tau):
    ws = fgrid(g.shape[-1], beta)
    return 2/beta*np.sum((g[..., None, :]*np.exp(-1j*ws*tau[:, None])).real, axis=-1)


@facet("C12", "iw2tau_dft", iw_case(), quick=300, rule="plain and softened frequency sums for arbitrary data; exact round trip")
def check_iw2tau_dft(case):
    g, beta, n = iw_data(case), case["beta"], case["n"]
    tau = np.linspace(0, beta, 2*n + 1)
    res = pristine(gf.iw2tau_dft, g, beta)
    atol = 1e-11*n*np.max(abs(g))/beta
    close(res, freq_sum(g, beta, tau), rtol=0, atol=atol, what="iw2tau_dft")
    close(gf.tau2iw_dft(res, beta), g, rtol=0, atol=1e-11*n*np.max(abs(g)), what="tau2iw_dft(iw2tau_dft)")
    close(res[..., -1], -res[..., 0], rtol=0, atol=atol, what="antiperiodicity of the frequency sum")
    soft = pristine(gf.iw2tau_dft_soft, g, beta)
    tail = 0.5*(1 + np.cos(np.pi*np.arange(1, n + 1)/n))
    ext = np.concatenate([g, g[..., -1:]*tail], axis=-1)
    close(soft, freq_sum(ext, beta, tau), rtol=0, atol=2*atol, what="iw2tau_dft_soft")
    return f"decay={case['decay']}"


@facet("C12", "iw2tau_model", st.fixed_dictionaries({
    "n": st.integers(1, 30), "beta": BETA, "lead": LEAD, "seed": seeds(), "decay": st.sampled_from([0, 1, 2]),
    "n_mom": st.integers(1, 4), "share": st.booleans(), "back": st.sampled_from(["dft", "soft", "default"])}), quick=300,
    rule="iw2tau for arbitrary data and moments: sum of remainder plus exact pole part, jump fixed by the moment")
def check_iw2tau_model(case):
    g, beta, n = iw_data(case), case["beta"], case["n"]
    mom = rng(case["seed"] + 5).normal(size=(*([] if case["share"] else case["lead"]), case["n_mom"]))
    nodes, res = vander_residues(mom)
    tau = np.linspace(0, beta, 2*n + 1)
    ws = 1j*fgrid(n, beta)
    rem = g - pole_z(ws, nodes, res)
    kwds = {"dft": {"fourier": gf.iw2tau_dft}, "soft": {"fourier": gf.iw2tau_dft_soft}, "default": {}}[case["back"]]
    if case["back"] == "soft":
        rem = np.concatenate([rem, rem[..., -1:]*0.5*(1 + np.cos(np.pi*np.arange(1, n + 1)/n))], axis=-1)
    ref = freq_sum(rem, beta, tau) + pole_tau(tau, nodes, res, beta)
    out = pristine(gf.iw2tau, g, beta, moments=mom, **kwds)
    atol = 1e-10*(1 + np.max(abs(res)))*(1 + n*(1 + np.max(abs(g)))/beta + 1)
    close(out, ref, rtol=0, atol=atol, what="iw2tau vs. model")
    close(out[..., 0] + out[..., -1], np.broadcast_to(-mom[..., 0], out.shape[:-1]), rtol=0, atol=atol,
          what="jump of iw2tau")
    return case["back"]


@facet("C12", "iw2tau_default", iw_case(), quick=80, rule="iw2tau with default moments (1/z with weight 1)")
def check_iw2tau_default(case):
    g, beta, n = iw_data(case), case["beta"], case["n"]
    tau = np.linspace(0, beta, 2*n + 1)
    ref = freq_sum(g - 1/(1j*fgrid(n, beta)), beta, tau) - 0.5
    close(gf.iw2tau(g, beta), ref, rtol=0, atol=1e-10*(1 + n*(1 + np.max(abs(g)))/beta), what="iw2tau(default)")


@facet("C12", "iw2tau_exact", poles_case(nmin=4, nmax=150), quick=350,
       rule="pole Green's functions: exact imaginary-time values within the rigorous bound of the truncated sum")
def check_iw2tau_exact(case):
    beta, n, k = case["beta"], case["n"], case["n_mom"]
    poles, w = pole_data(case)
    ws = fgrid(n, beta)
    g = pole_z(1j*ws, poles, w)
    mom = moments_of(poles, w, k)
    nodes, res = vander_residues(mom)
    tau = np.linspace(0, beta, 2*n + 1)
    exact = pole_tau(tau, poles, w, beta)
    out = gf.iw2tau(g, beta, moments=mom)
    wn = np.pi/beta*(2*n + 1)
    amp = np.sum(abs(w)*abs(poles)**k, axis=-1) + np.sum(abs(res)*abs(nodes)**k, axis=-1)
    bound = 2/beta*amp*(wn**-(k + 1) + beta/(2*np.pi)*wn**-k/k)
    scale = np.sum(abs(w), axis=-1) + np.sum(abs(res), axis=-1)
    ensure(np.all(abs(out - exact) <= (bound + 1e-10*scale*(1 + n/beta))[..., None]),
           lambda: f"iw2tau: deviation {np.max(abs(out - exact))} exceeds bound of neglected tail {np.max(bound)}")
    # and back
    back = gf.tau2iw(exact, beta, moments=mom)
    again = gf.tau2iw(out, beta, moments=mom)
    ensure(np.all(abs(back - again) <= (beta*bound + 1e-9*scale*(1 + n)*(1 + beta))[..., None]),
           lambda: "tau2iw(iw2tau(G)): round trip exceeds discretisation error: "
                   f"{np.max(abs(back - again))} > {np.max(beta*bound)}")
    return f"mom={k}"


@facet("C12", "iw2tau_fit", st.fixed_dictionaries({
    "n": st.integers(24, 90), "beta": logfl(1., 60.), "lead": LEAD, "seed": seeds(), "n_mom": st.integers(1, 3),
    "n_fit": st.integers(1, 4), "back": st.sampled_from(["dft", "soft"])}), quick=200,
    rule="iw2tau with n_fit poles: exact for functions representable by the fit; jump given by the moment")
def check_iw2tau_fit(case):
    beta, n = case["beta"], case["n"]
    nodes = cheb(case["n_mom"] + case["n_fit"])
    w = rng(case["seed"]).normal(size=(*case["lead"], nodes.size))
    ws = 1j*fgrid(n, beta)
    g = pole_z(ws, nodes, w)
    mom = moments_of(nodes, w, case["n_mom"])
    tau = np.linspace(0, beta, 2*n + 1)
    four = gf.iw2tau_dft if case["back"] == "dft" else gf.iw2tau_dft_soft
    out = pristine(gf.iw2tau, g, beta, moments=mom, n_fit=case["n_fit"], fourier=four)
    close(out, pole_tau(tau, nodes, w, beta), rtol=0, atol=1e-5*(1 + np.max(abs(w))), what="iw2tau with fitted poles")
    # arbitrary poles: jump is fixed by the moment, and leading axes are independent
    rg = rng(case["seed"] + 3)
    poles = rg.uniform(-1, 1, size=4)
    w = rg.uniform(0, 1, size=(*case["lead"], 4))
    g, mom = pole_z(ws, poles, w), moments_of(poles, w, case["n_mom"])
    out = gf.iw2tau(g, beta, moments=mom, n_fit=case["n_fit"], fourier=four)
    close(out[..., 0] + out[..., -1], -mom[..., 0], rtol=0, atol=1e-7*(1 + np.max(abs(mom))), what="jump of iw2tau with fit")
    if case["lead"]:
        fg, fm, fo = g.reshape(-1, n), mom.reshape(-1, case["n_mom"]), out.reshape(-1, 2*n + 1)
        for i in range(len(fg)):
            one = gf.iw2tau(fg[i], beta, moments=fm[i], n_fit=case["n_fit"], fourier=four)
            close(one, fo[i], rtol=0, atol=1e-7, what=f"iw2tau with fit for leading index {i}")


def constrained_fit(mat, rhs, cons, val):
    """``min |mat x - rhs|`` for ``cons x = val`` by elimination of the constraints; all real."""
    q, r = np.linalg.qr(cons.T, mode="complete")
    k = cons.shape[0]
    x0 = q[:, :k]@np.linalg.solve(r[:k].T, val)
    if q.shape[1] == k:
        return x0
    scale = np.linalg.norm(mat, axis=1, keepdims=True).max()
    return x0 + q[:, k:]@np.linalg.lstsq(mat@q[:, k:]/scale, (rhs - mat@x0)/scale, rcond=None)[0]


@facet("C12", "iw2tau_fit_model", st.fixed_dictionaries({
    "n": st.integers(8, 60), "beta": logfl(1., 60.), "lead": LEAD, "seed": seeds(), "n_mom": st.integers(1, 3),
    "n_fit": st.integers(1, 3), "back": st.sampled_from(["dft", "soft", "default"]), "noise": logfl(1e-4, 1.),
    "share": st.booleans()}), quick=250,
    rule="iw2tau with n_fit poles for arbitrary data and moments: sum of the remainder of an independent fit constrained "
         "to all given moments plus the pole part of that fit")
def check_iw2tau_fit_model(case):
    beta, n, n_mom = case["beta"], case["n"], case["n_mom"]
    rg = rng(case["seed"])
    nodes = cheb(n_mom + case["n_fit"])
    ws = fgrid(n, beta)
    poles, w = rg.uniform(-2, 2, size=4), rg.uniform(0.1, 1, size=(*case["lead"], 4))
    g = pole_z(1j*ws, poles, w) + case["noise"]*(rg.normal(size=(*case["lead"], n, 2))@[1, 1j])/(1 + np.arange(n))
    mom = moments_of(poles, w, n_mom)
    mom = (mom.reshape(-1, n_mom)[0] if case["share"] else mom) + case["noise"]*rg.normal(size=n_mom)
    lead = tuple(case["lead"])
    weight = ws**(n_mom + case["n_fit"])
    mat = weight[:, None]/(1j*ws[:, None] - nodes)
    cons = nodes**np.arange(n_mom)[:, None]
    res = np.empty((*lead, nodes.size))
    for i in np.ndindex(*lead):
        rhs = weight*g[i]
        res[i] = constrained_fit(np.concatenate([mat.real, mat.imag]), np.concatenate([rhs.real, rhs.imag]), cons,
                                 np.broadcast_to(mom, (*lead, n_mom))[i])
    tau = np.linspace(0, beta, 2*n + 1)
    rem = g - pole_z(1j*ws, nodes, res)
    if case["back"] == "soft":
        rem = np.concatenate([rem, rem[..., -1:]*0.5*(1 + np.cos(np.pi*np.arange(1, n + 1)/n))], axis=-1)
    ref = freq_sum(rem, beta, tau) + pole_tau(tau, nodes, res, beta)
    kwds = {"dft": {"fourier": gf.iw2tau_dft}, "soft": {"fourier": gf.iw2tau_dft_soft}, "default": {}}[case["back"]]
    out = pristine(gf.iw2tau, g, beta, moments=mom, n_fit=case["n_fit"], **kwds)
    close(out, ref, rtol=0, atol=1e-7*(1 + np.max(abs(res)))*(1 + n/beta), what="iw2tau with fitted poles vs. model")
    return case["back"]


@facet("C12", "izp2tau", izp_case(), quick=120, rule="izp2tau: pole Green's functions from Pade frequencies at arbitrary times")
def check_izp2tau(case):
    beta = case["beta"]
    poles, w = pole_data(case)
    izp = gt.pade_frequencies(case["n_izp"], beta=beta)[0]
    g = pole_z(izp, poles, w)
    tau = np.sort(rng(case["seed"] + 7).uniform(0, beta, size=11))
    tau[0], tau[-1] = 0, beta
    mom = moments_of(poles, w, max(case["n_mom"], 1))
    out = pristine(gf.izp2tau, izp, g, tau, beta, moments=mom)
    has_shape(out, tau.shape, "izp2tau")
    scale = np.sum(abs(w))
    close(out, pole_tau(tau, poles, w, beta), rtol=0, atol=3e-3*scale, what="izp2tau")
    close(out[0] + out[-1], -mom[0], rtol=0, atol=1e-6*scale, what="jump of izp2tau")
    if case["norm"]:
        close(gf.izp2tau(izp, g, tau, beta), pole_tau(tau, poles, w, beta), rtol=0, atol=3e-3, what="izp2tau(default)")
    return f"mom={case['n_mom']}"


# ---------------------------------------------------------------------------
# C13
# ---------------------------------------------------------------------------
@st.composite
def tt_case(draw, nmin=2, nmax=30):
    n = draw(st.integers(nmin, nmax))
    nz = draw(st.integers(1, 5))
    im = st.one_of(st.just(0.0), logfl(1e-3, 5.))
    re = st.one_of(fl(-8, 8), st.sampled_from([0.0, 0.0, 1e-17, -1e-13, 1e-9, 1e-6, 1e-4, 3e-3]))
    return {"n": n, "dt": draw(logfl(0.01, 1.)), "t0": draw(st.sampled_from([0.0, 0.0, 0.5, 2.0])),
            "z": draw(st.lists(cplx(re, im), min_size=nz, max_size=nz)), "lead": draw(LEAD), "zlead": draw(st.booleans()),
            "seed": draw(seeds()), "adv": draw(st.sampled_from(["no", "neg", "asc"])), "real": draw(st.booleans())}


def tt_data(case):
    rg = rng(case["seed"])
    tt = case["t0"] + case["dt"]*np.arange(case["n"])
    g = rg.normal(size=(*case["lead"], case["n"], 2)) @ [1, 0 if case["real"] else 1j]
    if case["real"]:
        g = g.real
    z = toc(case["z"])
    if "znum" in case:
        z = np.concatenate([z, rg.uniform(-8, 8, size=case["znum"]) + 1j*rg.uniform(0, 1, size=case["znum"])])
    if case["adv"] != "no":
        tt, z = -tt, z.conj()
        if case["adv"] == "asc":
            tt = tt[::-1].copy()
    if case["zlead"] and case["lead"]:
        z = z + 0*rg.normal(size=(*case["lead"], 1))
        z = z + np.arange(np.prod(case["lead"])).reshape(*case["lead"], 1)*0.25
    return tt, g, z


def each(case, fct, g, z):
    """Reference `fct(g1d, z1d)` for every leading index."""
    lead = tuple(case["lead"])
    zb = np.broadcast_to(z, (*lead, z.shape[-1]))
    out = np.empty(zb.shape, dtype=complex)
    for idx in np.ndindex(*lead):
        out[idx] = fct(g[idx], zb[idx])
    return out


@facet("C13", "trapz", tt_case(), quick=250, rule="trapezoidal Laplace sum on arbitrary (also non-equidistant) grids")
def check_trapz(case):
    tt, g, z = tt_data(case)
    if case["seed"] % 2 and case["n"] > 2:  # non-equidistant
        step = rng(case["seed"]).uniform(0.2, 1.8, size=tt.size - 1)*np.diff(tt)
        tt = (tt[0] + np.concatenate([[0], np.cumsum(step)])) if case["adv"] != "asc" else \
            tt[-1] - np.concatenate([np.cumsum(step[::-1])[::-1], [0]])
    ref = each(case, lambda gg, zz: np.array([np.trapezoid(np.exp(1j*x*tt)*gg, x=tt) for x in zz]), g, z)
    tol = 1e-11*np.max(abs(g))*max(np.sum(abs(np.diff(tt))), 1e-3)
    close(pristine(gf.tt2z_trapz, tt, g, z), ref, rtol=0, atol=tol, what="tt2z_trapz")
    close(plain.tt2z_trapz(tt, g, z), ref, rtol=0, atol=tol, what="tt2z_trapz without numexpr")
    close(gf.tt2z(tt, g, z, laplace=gf.tt2z_trapz), ref, rtol=0, atol=tol, what="tt2z(laplace=tt2z_trapz)")
    return case["adv"]


@facet("C13", "simps", tt_case(), quick=200, rule="Simpson sum (without end-point correction) on equidistant grids")
def check_simps(case):
    tt, g, z = tt_data(case)
    h = tt[1] - tt[0]
    wgt = np.where(np.arange(tt.size) % 2, 4., 2.)
    wgt[0] = 1
    ref = each(case, lambda gg, zz: np.array([h/3*np.sum(wgt*np.exp(1j*x*tt)*gg) for x in zz]), g, z)
    tol = 1e-11*np.max(abs(g))*abs(h)*tt.size
    close(pristine(gf.tt2z_simps, tt, g, z), ref, rtol=0, atol=tol, what="tt2z_simps")
    close(plain.tt2z_simps(tt, g, z), ref, rtol=0, atol=tol, what="tt2z_simps without numexpr")
    close(gf.tt2z(tt, g, z, laplace=gf.tt2z_simps), ref, rtol=0, atol=tol, what="tt2z(laplace=tt2z_simps)")
    return case["adv"]


@facet("C13", "lin", tt_case(), quick=450, rule="exact Laplace integral of the linear interpolant, incl. zero and tiny z")
def check_lin(case):
    tt, g, z = tt_data(case)
    ref = each(case, lambda gg, zz: lin_integral(tt, gg, 1j*zz), g, z)
    tol = 1e-10*np.max(abs(g))*abs(tt[1] - tt[0])*tt.size
    close(pristine(gf.tt2z_lin, tt, g, z), ref, rtol=0, atol=tol, what="tt2z_lin")
    close(plain.tt2z_lin(tt, g, z), ref, rtol=0, atol=tol, what="tt2z_lin without numexpr")
    close(gf.tt2z(tt, g, z), ref, rtol=0, atol=tol, what="tt2z (default)")
    return ("zero" if np.any(z == 0) else "tiny" if np.any(abs(z) < 1e-6) else "z") + "/" + case["adv"]


@st.composite
def expo_case(draw):
    k = draw(st.integers(1, 3))
    return {"k": k, "dt": draw(logfl(0.1, 0.6)), "re": draw(st.permutations([-2.0, -1.1, 0.1, 1.2, 2.2]))[:k],
            "jit": draw(st.lists(fl(-0.3, 0.3), min_size=k, max_size=k)),
            "gam": draw(st.lists(fl(0., 0.3), min_size=k, max_size=k)),
            "lead": draw(st.sampled_from([[], [], [2]])), "seed": draw(seeds()),
            "z": draw(st.lists(cplx(fl(-3, 3), logfl(0.2, 2.)), min_size=1, max_size=4)),
            "quad": draw(st.sampled_from(["trapz", "simps"])), "extra": draw(st.integers(0, 2))}


def expo_data(case, n):
    rg = rng(case["seed"])
    freq = np.array(case["re"]) + np.array(case["jit"]) - 1j*np.array(case["gam"])
    w = rg.uniform(0.3, 1, size=(*case["lead"], case["k"]))*np.exp(0.5j*rg.normal(size=(*case["lead"], case["k"])))
    tt = case["dt"]*np.arange(n)
    return tt, freq, w, np.sum(w[..., None, :]*np.exp(-1j*freq*tt[:, None]), axis=-1)


def expo_exact(case, freq, w, z, quad):
    """Infinite quadrature sum of the exponentials."""
    lam, y, h = np.exp(-1j*freq*case["dt"]), np.exp(1j*z*case["dt"])[:, None], case["dt"]
    if quad == "trapz":
        term = 1/(1 - lam*y) - 0.5
        return h*np.sum(w[..., None, :]*term, axis=-1)
    term = 3/(1 - lam*y) - 1/(1 + lam*y) - 1
    return h/3*np.sum(w[..., None, :]*term, axis=-1)


@facet("C13", "pade_exact", expo_case(), quick=200,
       rule="Fourier-Pade transform: infinite quadrature sum for signals with few exponentials, from a short time window")
def check_pade_exact(case):
    k = case["k"]*(2 if case["quad"] == "simps" else 1)
    z = toc(case["z"])
    tt, freq, w, g = expo_data(case, 2*k + 1)
    ref = expo_exact(case, freq, w, z, case["quad"])
    tol = 1e-6*np.max(abs(ref)) + 1e-7
    out = pristine(gf.tt2z_pade, tt, g, z, quad=case["quad"])
    close(out, ref, rtol=0, atol=tol, what="tt2z_pade")
    close(gf.tt2z(tt, g, z, laplace=gf.tt2z_pade, quad=case["quad"]), ref, rtol=0, atol=tol, what="tt2z(laplace=tt2z_pade)")
    if case["quad"] == "trapz":
        close(gf.tt2z_pade(tt, g, z), ref, rtol=0, atol=tol, what="tt2z_pade (default quad)")
    # larger degree of the numerator
    tt, freq, w, g = expo_data(case, 2*k + 2)
    close(gf.tt2z_pade(tt, g, z, degree=0, quad=case["quad"]), ref, rtol=0, atol=3*tol, what="tt2z_pade(degree=0)")
    # robust algorithm, more points than necessary
    tt, freq, w, g = expo_data(case, 2*k + 2 + 2*case["extra"])
    out = gf.tt2z_pade(tt, g, z, quad=case["quad"], pade=hermpade.pader, rcond=1e-9)
    close(out, ref, rtol=0, atol=1e-4*np.max(abs(ref)) + 1e-6, what="tt2z_pade(pade=pader)")
    return case["quad"]


@facet("C13", "lpz_exact", expo_case(), quick=150,
       rule="linear-prediction Z-transform: infinite quadrature sum for signals with few exponentials")
def check_lpz_exact(case):
    order = case["k"] + 1
    z = toc(case["z"])
    tt, freq, w, g = expo_data(case, 2*order + 1 + 3*case["extra"])
    ref = expo_exact(case, freq, w, z, "trapz")
    tol = 1e-6*np.max(abs(ref)) + 1e-7
    close(gf.tt2z_lpz(tt, g, z, order=order), ref, rtol=0, atol=tol, what="tt2z_lpz")
    close(plain.tt2z_lpz(tt, g, z, order=order), ref, rtol=0, atol=tol, what="tt2z_lpz without numexpr")
    start = 0.3*case["k"] + 0.1*case["extra"]
    phase = np.exp(1j*z*start)
    close(gf.tt2z_lpz(start + tt, g, z, order=order), ref*phase, rtol=0, atol=tol, what=f"tt2z_lpz for times starting from {start}")
    order = 2*case["k"] + 1
    tt, freq, w, g = expo_data(case, 2*order + 1 + 3*case["extra"])
    ref = expo_exact(case, freq, w, z, "simps")
    close(gf.tt2z_lpz(tt, g, z, order=order, quad="simps"), ref, rtol=0, atol=1e-5*np.max(abs(ref)) + 1e-6,
          what="tt2z_lpz(quad=simps)")


@st.composite
def degree_case(draw):
    den = draw(st.integers(2, 5))
    return {"den": den, "degree": draw(st.integers(max(-5, -1 - den), 1)), "dt": draw(logfl(0.1, 0.6)), "seed": draw(seeds()),
            "lead": draw(st.sampled_from([[], [], [2]])), "quad": draw(st.sampled_from(["trapz", "simps"])), "odd": draw(st.booleans()),
            "z": draw(st.lists(cplx(fl(-3, 3), logfl(0.2, 2.)), min_size=1, max_size=4))}


def unweight(coeff, dt, quad):
    """Green's function whose quadrature-weighted values are `coeff`."""
    wgt = np.ones(coeff.shape[-1]) if quad == "trapz" else np.where(np.arange(coeff.shape[-1]) % 2, 4., 2.)/3
    wgt[0] *= 0.5
    return coeff/(dt*wgt)


@facet("C13", "pade_degree", degree_case(), quick=200,
       rule="Fourier-Pade transform with given asymptotic degree: exact for generating functions of this degree, from as "
            "few points as determine them")
def check_pade_degree(case):
    rg = rng(case["seed"])
    den, degree, lead = case["den"], case["degree"], case["lead"]
    num = den + degree + 1
    n = num + den + 1
    lam = 0.8*np.exp(2j*np.pi*(np.arange(den) + rg.uniform(-0.15, 0.15, size=den))/den)*rg.uniform(0.6, 1.0, size=den)
    qq = np.poly(lam)  # prod (1 - lam y), ascending in y
    pp = rg.normal(size=(*lead, num + 1, 2))@[1, 1j]
    pp[..., -1] = np.where(abs(pp[..., -1]) < 0.3, 1., pp[..., -1])
    coeff = np.zeros((*lead, n + 1), dtype=complex)
    for i in range(n + 1):
        coeff[..., i] = (pp[..., i] if i <= num else 0) - sum(qq[k]*coeff[..., i - k] for k in range(1, min(i, den) + 1))
    coeff = coeff[..., :n + case["odd"]]  # a single further point does not determine more
    tt = case["dt"]*np.arange(coeff.shape[-1])
    z = toc(case["z"])
    y = np.exp(1j*z*case["dt"])
    ref = np.polynomial.polynomial.polyval(y, np.moveaxis(pp, -1, 0))/np.polynomial.polynomial.polyval(y, qq)
    # conditioning of the linear system for the denominator
    for idx in np.ndindex(*lead):
        mat = np.array([[coeff[idx][num + 1 + r - k] if num + 1 + r - k >= 0 else 0 for k in range(den + 1)] for r in range(den)])
        sv = np.linalg.svd(mat, compute_uv=False)
        if sv[-1] < 1e-5*sv[0]:
            raise Inconclusive
    out = pristine(gf.tt2z_pade, tt, unweight(coeff, case["dt"], case["quad"]), z, degree=degree, quad=case["quad"])
    close(out, ref, rtol=0, atol=1e-6*np.max(abs(pp)), what=f"tt2z_pade(degree={degree})")
    return f"degree={degree}"


@facet("C13", "lpz_model", st.fixed_dictionaries({
    "n": st.integers(4, 16), "order": st.integers(1, 15), "dt": logfl(0.05, 0.6), "lead": st.sampled_from([[], [], [2]]), "seed": seeds(),
    "quad": st.sampled_from(["trapz", "simps"]), "z": st.lists(cplx(fl(-3, 3), logfl(0.2, 2.)), min_size=1, max_size=4)}), quick=250,
    rule="linear-prediction transform of arbitrary data for every order: continuation by the least-squares coefficients "
         "(of minimal norm if there are more coefficients than equations)")
def check_lpz_model(case):
    n, lead = case["n"], case["lead"]
    order = 1 + (case["order"] - 1) % (n - 1)
    rg = rng(case["seed"])
    g = rg.normal(size=(*lead, n, 2))@[1, 1j]
    tt = case["dt"]*np.arange(n)
    z = toc(case["z"])
    coeff = g/unweight(np.ones(n), case["dt"], case["quad"])
    out = pristine(gf.tt2z_lpz, tt, g, z, order=order, quad=case["quad"])
    has_shape(out, (*lead, z.size), "tt2z_lpz")
    auto = gf.tt2z_lpz(tt, g, z, quad=case["quad"]) if order == n//2 else out
    late = gf.tt2z_lpz(tt + 0.7, g, z, order=order, quad=case["quad"])*np.exp(-0.7j*z)
    for idx in np.ndindex(*lead):
        x = coeff[idx]
        mat = np.array([x[m - order:m][::-1] for m in range(order, n)])
        sv = np.linalg.svd(mat, compute_uv=False)
        if sv[-1] < 1e-4*sv[0]:
            continue
        aa = np.concatenate([[1], -np.linalg.pinv(mat)@x[order:]])
        y = np.exp(1j*z*case["dt"])
        conv = np.convolve(aa, x)[:order]
        den = np.polynomial.polynomial.polyval(y, aa)
        ref = np.polynomial.polynomial.polyval(y, conv)
        mag = np.sum(abs(conv)) + abs(ref/den)*np.sum(abs(aa))
        for res in (out[idx], auto[idx], late[idx]):
            close(res*den, ref, rtol=0, atol=1e-9*mag, what=f"tt2z_lpz(order={order}) times denominator")
    return "under" if order > n - order else "over"


@facet("C13", "converge", st.fixed_dictionaries({
    "re": fl(-2, 2), "eta": logfl(0.3, 1.0), "d": logfl(0.5, 2.), "n": st.integers(40, 90), "quad": st.sampled_from(["trapz", "simps"])}),
    quick=120, rule="Bethe lattice: all back-ends approach the exact Green's function")
def check_converge(case):
    d, n = case["d"], case["n"]
    z = np.array([case["re"]*d + 1j*case["eta"]*d, 0.3*d + 1j*case["eta"]*d])
    exact = gt.bethe_gf_z(z, half_bandwidth=d)
    tmax = 20/(case["eta"]*d)
    dt = 0.05/d
    tt = np.arange(0, tmax, dt)
    g = gt.lattice.bethe.gf_ret_t(tt, half_bandwidth=d)
    for name, fct, tol in (("tt2z_trapz", gf.tt2z_trapz, 3e-3), ("tt2z_lin", gf.tt2z_lin, 3e-3), ("tt2z_simps", gf.tt2z_simps, 1e-4)):
        close(gf.tt2z(tt, g, z, laplace=fct)*d, exact*d, rtol=0, atol=tol, what=name)
    # short time window
    tt = 0.15/d*np.arange(n)
    g = gt.lattice.bethe.gf_ret_t(tt, half_bandwidth=d)
    tol = 1e-2 if case["quad"] == "trapz" else 5e-3
    close(gf.tt2z(tt, g, z, laplace=gf.tt2z_pade, quad=case["quad"])*d, exact*d, rtol=0, atol=tol, what="tt2z_pade")
    close(gf.tt2z(tt, g, z, laplace=gf.tt2z_herm2, quad=case["quad"])*d, exact*d, rtol=0, atol=tol, what="tt2z_herm2")
    close(gf.tt2z(tt, g, z, laplace=gf.tt2z_lpz, quad=case["quad"])*d, exact*d, rtol=0, atol=tol, what="tt2z_lpz")


BACKENDS = {"simps": gf.tt2z_simps, "lin": gf.tt2z_lin, "pade": gf.tt2z_pade, "herm2": gf.tt2z_herm2, "lpz": gf.tt2z_lpz}


@facet("C13", "rejects", st.fixed_dictionaries({
    "n": st.integers(4, 20), "dt": logfl(0.05, 1.), "seed": seeds(), "back": st.sampled_from(sorted(BACKENDS) + ["trapz"]),
    "kind": st.sampled_from(["grid", "half", "halfadv", "quad", "mixed"]), "pos": st.integers(0, 100),
    "amount": logfl(0.05, 3.)}),
    quick=250, rule="non-equidistant grids, wrong half-plane, mixed-sign times, unknown quadrature raise")
def check_tt_rejects(case):
    rg = rng(case["seed"])
    n, kind = case["n"], case["kind"]
    tt = case["dt"]*np.arange(n)
    g = rg.normal(size=(n, 2)) @ [1, 1j]
    z = rg.normal(size=3) + 0.5j
    back = BACKENDS.get(case["back"], gf.tt2z_trapz)
    if kind == "grid":
        if case["back"] == "trapz":
            return False
        bad = tt.copy()
        bad[1 + case["pos"] % (n - 1):] += case["amount"]*case["dt"]
        raises(ValueError, lambda: gf.tt2z(bad, g, z, laplace=back), "non-equidistant tt")
        raises(ValueError, lambda: back(bad, g, z), "non-equidistant tt")
        return kind
    if kind == "quad":
        if case["back"] in ("lin", "trapz", "simps"):
            return False
        raises(ValueError, lambda: back(tt, g, z, quad=["gauss", "trapezoid", "Simps", "", "simpson"][case["pos"] % 5]),
               "unknown quadrature")
        return kind
    zz = z.copy()
    if kind == "mixed":
        bad = tt - (0.5 + case["pos"] % (n - 1))*case["dt"]
        raises(ValueError, lambda: gf.tt2z(bad, g, z, laplace=back), "times of both signs")
        raises(ValueError, lambda: gf.tt2z(bad, g, z.conj(), laplace=back), "times of both signs")
        return kind
    zz[case["pos"] % 3] = zz[case["pos"] % 3].real - 1j*10.**-(case["pos"] % 7)
    if kind == "halfadv":
        tt, zz = -tt, zz.conj()
    raises(ValueError, lambda: gf.tt2z(tt, g, zz, laplace=back), "frequency in the wrong half-plane")
    return kind


@facet("C13", "empty", st.fixed_dictionaries({"n": st.integers(2, 9), "lead": LEAD, "which": st.sampled_from(["z", "lead0"])}),
       quick=40, rule="empty frequency arrays give empty results of matching shape")
def check_empty(case):
    tt = np.linspace(0, 1, case["n"])
    if case["which"] == "z":
        out = gf.tt2z(tt, np.ones((*case["lead"], case["n"]), dtype=complex), np.empty(0, dtype=complex))
        has_shape(out, (*case["lead"], 0), "tt2z without frequencies")
    else:
        out = gf.tt2z(tt, np.ones((0, case["n"]), dtype=complex), np.array([1j, 2j]))
        has_shape(out, (0, 2), "tt2z with empty leading axis")


# ---------------------------------------------------------------------------
# large grids
# ---------------------------------------------------------------------------
def enlarged(strategy, size, **more):
    """Cases of `strategy` with other grid size."""
    return st.tuples(strategy, st.fixed_dictionaries({"n": size, "lead": st.sampled_from([[], [], [2]]), **more})).map(lambda t: {**t[0], **t[1]})


BIG = logint(40, 1200)
facet("C11", "large_dft", enlarged(tau_case(), BIG), quick=24, rule="tau2iw_dft for up to 1200 points")(check_tau2iw_dft)
facet("C11", "large_lin", enlarged(tau_case(), BIG), quick=24, rule="tau2iw_ft_lin for up to 1200 points")(check_tau2iw_lin)
facet("C11", "large_tau2iv", enlarged(tau_case(), BIG), quick=24, rule="bosonic transforms for up to 1200 points")(check_tau2iv)
facet("C11", "large_moments", enlarged(poles_case(), BIG), quick=24, rule="tau2iw for up to 1200 points")(check_tau2iw_moments)
facet("C12", "large_dft", enlarged(iw_case(), logint(30, 700)), quick=24, rule="iw2tau_dft for up to 700 frequencies")(check_iw2tau_dft)
facet("C12", "large_exact", enlarged(poles_case(nmin=4), logint(100, 1500)), quick=40, rule="iw2tau for up to 1500 frequencies")(check_iw2tau_exact)
facet("C13", "large_trapz", enlarged(tt_case(), BIG, znum=logint(2, 400)), quick=24, rule="up to 1200 times and 400 frequencies")(check_trapz)
facet("C13", "large_simps", enlarged(tt_case(), BIG, znum=logint(2, 400)), quick=24, rule="up to 1200 times and 400 frequencies")(check_simps)
facet("C13", "large_lin", enlarged(tt_case(), BIG, znum=logint(2, 400)), quick=24, rule="up to 1200 times and 400 frequencies")(check_lin)
