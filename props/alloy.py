"""C18 - C19: coherent potential approximation and Blackman-Esterling-Berk."""
from functools import partial

import numpy as np
from hypothesis import strategies as st

import gftool as gt
from gftool import beb, cpa
from gftool.matrix import decompose_her
from vlib.core import Inconclusive, close, ensure, facet, has_shape, pristine
from vlib.gen import fl, logfl, logint, rng, seeds

LATS = ["discrete", "bethe", "square", "box", "onedim", "sc"]


def hilbert(case):
    """Hilbert transform of the case's lattice; `discrete` is an explicit finite density of states."""
    D = case["D"]
    lat = case["lat"]
    if lat == "discrete":
        rg = rng(case["seed"] + 7)
        eps = rg.uniform(-1, 1, size=5)*D
        wgt = rg.dirichlet(np.ones(5))

        def fct(z):
            z = np.asarray(z)
            return np.sum(wgt/(z[..., None] - eps), axis=-1)
        fct.eps, fct.wgt = eps, wgt
        return fct
    mod = {"bethe": gt.bethe_gf_z, "square": gt.square_gf_z, "box": gt.lattice.box.gf_z, "onedim": gt.onedim_gf_z,
           "sc": gt.sc_gf_z}[lat]
    return partial(mod, half_bandwidth=D)


def cpa_reference(z, e, c, hil, n=4000):
    """Causality-preserving CPA iteration, starting from the virtual crystal."""
    z, e, c = np.asarray(z), np.asarray(e), np.asarray(c)
    shape = np.broadcast_shapes(z.shape, e.shape[:-1], c.shape[:-1])
    slf = np.broadcast_to(np.sum(e*c, axis=-1) + 0j, shape)
    scale = np.max(abs(e)) + 1e-300
    for _ in range(n):
        loc = hil(z - slf)
        cavity = slf + 1/loc  # z - hybridisation
        avg = np.sum(c/(cavity[..., None] - e), axis=-1)
        new = cavity - 1/avg
        diff = np.max(abs(new - slf))
        slf = new
        if diff < 1e-14*scale:
            return slf
    if diff > 1e-11*scale:
        raise Inconclusive
    return slf


@st.composite
def cpa_case(draw, im=(0.4, 4.)):
    return {"lat": draw(st.sampled_from(LATS)), "D": draw(st.one_of(st.just(1.0), logfl(0.1, 10.))),
            "n": draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4])), "seed": draw(seeds()),
            "shape": draw(st.sampled_from([[], [1], [3], [5], [2, 3]])), "strength": draw(logfl(0.02, 1.5)),
            "im": [im[0], im[1]], "dyn": draw(st.sampled_from(["static", "static", "zdep", "stack", "outer"])),
            "conc": draw(st.sampled_from(["generic", "generic", "dilute", "zero", "equal", "stack"])),
            "im_sign": 1}


def make_cpa(case):
    """Frequencies, on-site energies and concentrations of the case."""
    rg = rng(case["seed"])
    D, n, shape = case["D"], case["n"], tuple(case["shape"])
    lo, hi = case["im"]
    z = D*(rg.uniform(-2, 2, size=shape) + 1j*np.exp(rg.uniform(np.log(lo), np.log(hi), size=shape)))
    z = np.asarray(z)
    e = rg.uniform(-1, 1, size=n)*D*case["strength"]
    if case["dyn"] == "zdep":  # local retarded self-energy of the components
        e = e + 0.3*D**2*case["strength"]/(z[..., None] - rg.uniform(-1, 1, size=n)*D)
    elif case["dyn"] == "stack" and shape:
        e = rg.uniform(-1, 1, size=(*shape, n))*D*case["strength"]
    elif case["dyn"] == "outer":  # several alloys at once
        e = rg.uniform(-1, 1, size=(2, *([1]*len(shape)), n))*D*case["strength"]
    c = rg.dirichlet(np.ones(n))
    if case["conc"] == "dilute" and n > 1:
        c = np.full(n, 1e-5)
        c[0] = 1 - 1e-5*(n - 1)
    elif case["conc"] == "zero" and n > 1:
        c[-1] = 0
        c = c/c.sum()
    elif case["conc"] == "equal":
        c = np.full(n, 1./n)
    elif case["conc"] == "stack" and shape:
        c = rg.dirichlet(np.ones(n), size=shape)
    return z, e, c


def no_solution(err):
    """Whether the error only tells that the root search did not converge."""
    if isinstance(err, (RuntimeError, OverflowError, ZeroDivisionError, np.linalg.LinAlgError)):
        return not isinstance(err, (NotImplementedError, RecursionError))
    return isinstance(err, ValueError) and ("infs or NaNs" in str(err) or "Jacobian inversion" in str(err))


def solve_cpa(case, z, e, c, hil, **kwds):
    """Tightly converged solution.  Not converging is documented, but happens rarely for tame problems."""
    tame = case["strength"] <= 0.6 and case["im"][0] >= 0.4
    attempts = [{"options": {"fatol": 1e-9*case["D"]}}, {"options": {"fatol": 1e-6*case["D"]}},
                {"options": {"fatol": 1e-6*case["D"]}, "method": "krylov"}, {"method": "df-sane"}]
    for attempt in attempts if tame else attempts[:1]:
        try:
            return cpa.solve_root(z, e, c, hil, **attempt, **kwds)
        except Exception as err:
            if not no_solution(err):
                raise
    ensure(not tame, "solve_root fails for a tame problem with all recommended methods")
    raise Inconclusive


@facet("C18", "solution", cpa_case(), quick=400,
       rule="CPA self-energy solves the CPA condition, is causal and equals an independent iteration")
def check_cpa(case):
    z, e, c = make_cpa(case)
    hil, D = hilbert(case), case["D"]
    slf = pristine(partial(solve_cpa, case), z, e, c, hil)
    slf = np.asarray(slf)
    shape = np.broadcast_shapes(z.shape, e.shape[:-1], c.shape[:-1])
    has_shape(slf, shape, "solve_root")
    ref = cpa_reference(z, e, c, hil)
    close(slf, ref, rtol=0, atol=2e-5*D, what="solve_root vs. independent CPA iteration")
    ensure(np.all(slf.imag <= 1e-5*D), "restricted CPA self-energy not causal")
    # starting self-energies of fewer dimensions
    # (imaginary parts > 0 are only punished with a factor 1e-3, hence the tolerance)
    z0 = [np.zeros(()), np.full(z.shape, 0.1*D - 0.1j*D)][case["seed"] % 2]
    again = solve_cpa(case, z, e, c, hil, self_cpa_z0=z0)
    has_shape(again, shape, "solve_root(self_cpa_z0)")
    close(again, ref, rtol=0, atol=2e-3*D, what="solve_root(self_cpa_z0) vs. independent CPA iteration")
    gcmpt = cpa.gf_cmpt_z(z, slf, e, hil)
    loc = hil(z - slf)
    close(np.sum(c*gcmpt, axis=-1), loc, rtol=1e-4, atol=1e-5/D, what="average of component Green's functions")
    ensure(np.all(gcmpt.imag < 0), "component Green's function not causal")
    if case["n"] == 1:
        close(slf, np.broadcast_to(e[..., 0], shape), rtol=0, atol=1e-6*D, what="one component: exact on-site energy")
    if case["lat"] == "bethe":  # known closed form of the hybridisation
        close(gcmpt, 1/(z[..., None] - 0.25*D**2*loc[..., None] - e), rtol=1e-4, what="Bethe: component Green's function")
    return case["lat"]


@facet("C18", "tight_tolerance", cpa_case(), quick=250,
       rule="requested tolerance reached: CPA self-energy accurate to 1e-7 of the bandwidth")
def check_cpa_tight(case):
    z, e, c = make_cpa(case)
    hil, D = hilbert(case), case["D"]
    for restricted in (True, False):
        try:
            slf = cpa.solve_root(z, e, c, hil, restricted=restricted, options={"fatol": 1e-10*D})
        except Exception as err:
            if not no_solution(err):
                raise
            continue
        res = cpa.self_root_eq(np.asarray(slf), z, e, c, hil)
        ensure(np.max(abs(res)) <= 2e-9*D, lambda: f"residual {np.max(abs(res))} of the solution (restricted={restricted})")
        ref = cpa_reference(z, e, c, hil)
        if np.all(slf.imag <= 1e-9*D):
            close(slf, ref, rtol=0, atol=2e-8*D, what=f"solve_root(restricted={restricted})")
        # exact restart
        again = cpa.solve_root(z, np.asarray(e), c, hil, self_cpa_z0=ref, restricted=restricted,
                               options={"fatol": 1e-10*D})
        close(again, ref, rtol=0, atol=2e-8*D, what="restart from the solution")
    # the exact solution of the lower half-plane is acausal: no solution of the restricted problem
    ref = np.asarray(cpa_reference(z, e, c, hil))
    dist = -ref.imag
    wrong = cpa.restrict_self_root_eq(np.array(ref.conj()), z.conj(), e, c, hil)
    ensure(np.all(abs(wrong)[dist > 1e-9*D] > 1e-5*dist[dist > 1e-9*D]), "acausal self-energy is a root of restrict_self_root_eq")
    return case["lat"]


@facet("C18", "half_planes", cpa_case(im=(0.3, 4.)), quick=60, thorough=1500,
       rule="frequencies from both half-planes in one unrestricted call: the solution at the conjugate frequency is the conjugate")
def check_cpa_planes(case):
    case = {**case, "dyn": "static" if case["dyn"] == "zdep" else case["dyn"], "lat": "discrete" if case["lat"] in ("sc", "onedim") else case["lat"]}
    z, e, c = make_cpa(case)
    hil, D = hilbert(case), case["D"]
    ref = cpa_reference(z, e, c, hil)
    both = np.stack([z, z.conj()]).reshape(2, *([1]*(max(np.ndim(e), np.ndim(c)) - 1 - z.ndim)), *z.shape)
    try:
        slf = cpa.solve_root(both, e, c, hil, restricted=False, options={"fatol": 1e-9*D})
    except Exception as err:
        if not no_solution(err):
            raise
        raise Inconclusive from None
    # without restriction unphysical roots are possible, but not at one of both frequencies
    if np.max(abs(slf[0] - ref)) > 1e-4*D:
        raise Inconclusive
    close(slf[1], ref.conj(), rtol=0, atol=1e-4*D, what="self-energy at the conjugate frequency")
    return case["lat"]


@st.composite
def eq_case(draw):
    case = draw(cpa_case(im=(0.05, 4.)))
    case["sign"] = draw(st.sampled_from([1, 1, -1]))
    return case


@facet("C18", "equations", eq_case(), quick=500,
       rule="component Green's functions, root and fixed-point equations at arbitrary media vs. impurity formulas")
def check_cpa_eq(case):
    z, e, c = make_cpa(case)
    hil, D = hilbert(case), case["D"]
    rg = rng(case["seed"] + 1)
    shape = np.broadcast_shapes(z.shape, e.shape[:-1], c.shape[:-1])
    slf = D*case["strength"]*(rg.normal(size=shape) - 1j*abs(rg.normal(size=shape)))
    if case["sign"] < 0:
        z, e, slf = z.conj(), e.conj(), slf.conj()
    loc = hil(z - slf)
    cavity = slf + 1/loc
    imp = 1/(cavity[..., None] - e)
    gcmpt = pristine(cpa.gf_cmpt_z, z, slf, e, hil)
    has_shape(gcmpt, (*shape, case["n"]), "gf_cmpt_z")
    close(gcmpt, imp, rtol=1e-8, atol=1e-10*np.max(abs(imp)), what="gf_cmpt_z: impurity in the medium")
    avg = np.sum(c*imp, axis=-1)
    scale = abs(cavity) + abs(slf) + abs(1/avg) + np.max(abs(e), axis=-1)
    new = cavity - 1/avg  # self-energy of the average Green's function
    res = pristine(cpa.self_root_eq, slf, z, e, c, hil)
    close(np.asarray(res)/scale, (new - slf)/scale, rtol=1e-7, atol=1e-9, what="self_root_eq")
    fxd = pristine(cpa.self_fxdpnt_eq, slf, z, e, c, hil)
    close(np.asarray(fxd)/scale, new/scale, rtol=1e-7, atol=1e-9, what="self_fxdpnt_eq")
    ensure(np.all(np.sign(gcmpt.imag) == -np.sign(z.imag)[..., None]), "causality of gf_cmpt_z in causal medium")
    if case["sign"] > 0:  # physical medium: the restriction has no effect
        close(cpa.restrict_self_root_eq(slf.copy(), z, e, c, hil), res, rtol=1e-12, atol=1e-14*D, what="restrict_self_root_eq")
        # no self-energy in the upper half-plane is a root, not even above the solution of the clean system
        above = np.atleast_1d(np.full(shape, 0.3*D) + 1j*D*10**rg.uniform(-4, 0, size=shape))
        dist = above.imag.copy()
        wrong = cpa.restrict_self_root_eq(above, z, np.full(e.shape, 0.3*D), c, hil)
        ensure(np.all(abs(wrong) > 1e-5*dist), "self-energy with positive imaginary part is a root of restrict_self_root_eq")
    perm = rg.permutation(case["n"])
    close(np.asarray(cpa.self_root_eq(slf, z, e[..., perm], c[..., perm], hil))/scale, np.asarray(res)/scale, rtol=1e-8, atol=1e-10,
          what="component order")
    return case["lat"]


@facet("C18", "invariances", cpa_case(), quick=200,
       rule="splitting, merging and permuting components, rigid shifts and scaling of energies")
def check_cpa_inv(case):
    if case["conc"] == "stack" or case["dyn"] in ("stack", "outer"):
        case = {**case, "conc": "generic", "dyn": "static"}
    z, e, c = make_cpa(case)
    hil, D = hilbert(case), case["D"]
    base = solve_cpa(case, z, e, c, hil)
    tol = {"rtol": 0, "atol": 4e-5*D}
    rg = rng(case["seed"] + 1)
    perm = rg.permutation(case["n"])
    close(solve_cpa(case, z, e[..., perm], c[perm], hil), base, **tol, what="component order")
    # splitting a component into two equal ones
    e2 = np.concatenate([e, e[..., :1]], axis=-1)
    c2 = np.concatenate([c, [0.4*c[0]]])
    c2[0] *= 0.6
    close(solve_cpa(case, z, e2, c2, hil), base, **tol, what="splitting a component")
    # rigid shift of the energies
    shift = 0.7*D
    close(solve_cpa(case, z + shift, e + shift, c, hil), base + shift, **tol, what="rigid shift")
    # list arguments
    if e.ndim == 1 and z.ndim:
        close(solve_cpa(case, z, e.tolist(), c.tolist(), hil), base, **tol, what="list arguments")
    return case["lat"]


@st.composite
def occ_case(draw):
    return {"lat": draw(st.sampled_from(["discrete", "bethe", "bethe", "box", "square"])), "D": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5])),
            "n": draw(st.sampled_from([1, 2, 2, 3])), "seed": draw(seeds()), "strength": draw(logfl(0.05, 1.)),
            "betaD": draw(logfl(1., 30.)), "occ": draw(fl(0.08, 0.92)), "pade": draw(st.booleans()), "mu0": draw(fl(-0.5, 0.5)),
            "guess": draw(st.booleans()), "stack": draw(st.sampled_from([False, False, True])),
            "restricted": draw(st.sampled_from([True, True, False])), "method": draw(st.sampled_from([None, "hybr", "lm"]))}


@facet("C18", "fixed_occupation", occ_case(), quick=32, thorough=900,
       rule="fixed-occupation solver: requested total occupation, CPA solution at the returned chemical potential")
def check_fxdocc(case):
    D, n = case["D"], case["n"]
    hil = hilbert(case)
    rg = rng(case["seed"])
    beta = case["betaD"]/D
    e = rg.uniform(-1, 1, size=n)*D*case["strength"]
    c = rg.dirichlet(np.ones(n)*2)
    num = 1
    if case["stack"]:  # two spin channels
        num = 2
        e = np.stack([e, e + 0.2*D*case["strength"]])[:, None, :]
    occ = case["occ"]*num
    if case["pade"]:
        iws, wgt = gt.pade_frequencies(30 + int(case["betaD"]), beta=beta)
    else:
        iws, wgt = gt.matsubara_frequencies(range(200), beta=beta), 1
    kwds = {"mu0": case["mu0"]*D}
    if case["guess"]:
        kwds["self_cpa_iw0"] = np.broadcast_to(np.sum(e*c, axis=-1) - kwds["mu0"], e.shape[:-2] + iws.shape) + 0j
    try:
        if case["method"] and case["pade"] and not case["stack"]:  # real root search: all methods of SciPy are possible
            kwds.update(method=case["method"], tol=1e-10)
        else:
            kwds.update(options={"fatol": 1e-7*D})
        root = pristine(cpa.solve_fxdocc_root, iws, e, c, hil, beta=beta, occ=occ, weights=wgt,
                        restricted=case["restricted"], **kwds)
    except Exception as err:
        if not no_solution(err):
            raise
        raise Inconclusive from None
    slf, mu = root
    ensure(root.self_cpa is slf and root.mu is mu, "RootFxdocc fields")
    has_shape(slf, e.shape[:-2] + iws.shape, "self_cpa")
    ref = cpa_reference(iws, e - mu, c, hil)
    close(slf, ref, rtol=0, atol=1e-4*D, what="self-energy at the returned chemical potential")
    ensure(np.all(slf.imag <= 1e-5*D), "self-energy not causal")
    # total occupation, with the exact first moments
    m1 = np.ones(slf.shape[:-1])
    m2 = np.sum((e - mu)*c, axis=-1) if not case["stack"] else np.sum((e - mu)*c, axis=-1)[..., 0]
    got = 0.
    for i in range(num):
        sl = slf[i] if case["stack"] else slf
        got = got + gt.density_iw(iws, hil(iws - sl), beta=beta, weights=wgt,
                                  moments=[1, float(m2[i] if case["stack"] else m2)])
    close(got, occ, rtol=0, atol=2e-4 if case["pade"] else 2e-3, what="total occupation")
    return ("pade" if case["pade"] else "matsubara") + ("-stack" if case["stack"] else "")


# ---------------------------------------------------------------------------
# C19
# ---------------------------------------------------------------------------
HOPS = ["generic", "generic", "hermitian", "rank1", "rank1", "ones", "diag", "reduced", "indefinite", "zero_row"]


@st.composite
def beb_case(draw, im=(0.3, 4.), hops=HOPS):
    return {"lat": draw(st.sampled_from(["discrete", "discrete", "bethe", "box", "square"])),
            "D": draw(st.one_of(st.just(1.0), logfl(0.2, 5.))), "n": draw(st.sampled_from([1, 2, 2, 3, 4])),
            "seed": draw(seeds()), "shape": draw(st.sampled_from([[1], [3], [2, 2], [5]])), "strength": draw(logfl(0.05, 1.2)),
            "im": [im[0], im[1]], "hop": draw(st.sampled_from(hops)), "stack": draw(st.sampled_from([False, False, True]))}


def make_hopping(case):
    rg = rng(case["seed"] + 3)
    n, kind = case["n"], case["hop"]
    a = rg.uniform(0.2, 1.2, size=(n, n))
    if kind == "ones":
        return np.ones((n, n))
    if kind == "diag":
        return np.diag(rg.uniform(0.3, 1.2, size=n))
    if kind == "rank1":
        v = rg.uniform(0.3, 1.2, size=n)
        return np.outer(v, v)
    if kind == "reduced":  # rank-deficient, not rank one
        v = rg.normal(size=(n, max(1, n - 1)))/np.sqrt(n)
        return v @ v.T
    if kind == "hermitian":
        b = a*np.exp(1j*rg.uniform(-np.pi, np.pi, size=(n, n)))
        return 0.5*(b + b.conj().T)
    if kind == "indefinite":
        b = rg.normal(size=(n, n))/np.sqrt(n)
        return 0.5*(b + b.T)
    if kind == "zero_row":
        b = 0.5*(a + a.T)
        b[-1, :] = 0
        b[:, -1] = 0
        if n == 1:
            b[:] = 0.6
        return b
    return 0.5*(a + a.T)


def beb_freq(case):
    rg = rng(case["seed"])
    D, n, shape = case["D"], case["n"], tuple(case["shape"])
    lo, hi = case["im"]
    z = D*(rg.uniform(-2, 2, size=shape) + 1j*np.exp(rg.uniform(np.log(lo), np.log(hi), size=shape)))
    e = rg.uniform(-1, 1, size=(*shape, n) if case["stack"] else n)*D*case["strength"]
    c = rg.dirichlet(np.ones(n)*2)
    c = (c + 0.02)/np.sum(c + 0.02)
    return z, e, c


def medium(z, slf, hop, hil, D):
    """Local Green's function of the extended space, for the explicit density of states."""
    if not hasattr(hil, "eps"):
        raise Inconclusive
    eye = np.eye(hop.shape[-1])
    return sum(w*np.linalg.inv(z[..., None, None]*eye - slf - eps*hop) for w, eps in zip(hil.wgt, hil.eps))


@facet("C19", "medium", beb_case(im=(0.1, 4.)), quick=500,
       rule="local Green's function and root equation at arbitrary self-energies vs. sum over explicit band energies")
def check_beb_medium(case):
    case = {**case, "lat": "discrete"}
    z, e, c = beb_freq(case)
    hil, D, n = hilbert(case), case["D"], case["n"]
    hop = make_hopping(case)
    rg = rng(case["seed"] + 1)
    a = rg.normal(size=(*z.shape, n, n)) + 1j*rg.normal(size=(*z.shape, n, n))
    if case["seed"] % 3:  # the self-energy of a model with symmetric hopping is symmetric, but need not be in general
        a = 0.5*(a + np.swapaxes(a, -1, -2))
    slf = D*case["strength"]*(0.8*a - 1j*np.eye(n)*rg.uniform(0.5, 2, size=(*z.shape, 1, n)))
    exact = medium(z, slf, hop, hil, D)
    cnd = np.max(np.linalg.cond(z[..., None, None]*np.eye(n) - slf))
    scale = np.max(abs(exact))
    full = pristine(beb.gf_loc_z, z, slf, hop.tolist() if case["stack"] else hop, hil, diag=False)
    has_shape(full, (*z.shape, n, n), "gf_loc_z(diag=False)")
    dec = gt.matrix.decompose_mat(np.linalg.inv(z[..., None, None]*np.eye(n) - slf) @ hop)
    if np.max(np.linalg.cond(dec.rv)) > 1e4 or cnd > 1e6:
        raise Inconclusive
    close(full, exact, rtol=0, atol=1e-6*scale, what=f"gf_loc_z(diag=False), hopping {case['hop']}")
    diag = pristine(beb.gf_loc_z, z, slf, hop, hil)
    close(diag, np.diagonal(full, axis1=-1, axis2=-2), rtol=0, atol=1e-8*scale, what="gf_loc_z(diag=True)")
    # root equation
    inv = np.linalg.inv(exact)
    if np.max(np.linalg.cond(exact)) > 1e6:
        raise Inconclusive
    dd = (np.diagonal(inv, axis1=-1, axis2=-2) + np.diagonal(slf, axis1=-1, axis2=-2) - e)/c
    want = inv - dd[..., None]*np.eye(n)
    hdec = beb.SpecDec(*decompose_her(hop)).truncate()
    close(hdec.rv @ (hdec.eig[:, None]*hdec.rv_inv), hop, rtol=0, atol=1e-12*np.max(abs(hop))*n, what="truncated hopping")
    rank = np.linalg.matrix_rank(hop)
    if case["hop"] != "reduced":
        ensure(hdec.eig.shape[-1] == rank, lambda: f"truncate kept {hdec.eig.shape[-1]} of rank {rank}")
    rcond = rg.uniform(0.01, 0.9)
    eig = np.linalg.eigvalsh(hop)
    keep = abs(eig) > rcond*np.max(abs(eig))
    tdec = beb.SpecDec(*decompose_her(hop)).truncate(rcond)
    if np.min(abs(abs(eig) - rcond*np.max(abs(eig)))) > 1e-8*np.max(abs(eig)):
        close(np.sort(tdec.eig), np.sort(eig[keep]), rtol=0, atol=1e-10*np.max(abs(eig)), what=f"truncate({rcond})")
        vec = np.linalg.eigh(hop)[1]
        thop = (vec*np.where(keep, eig, 0)) @ vec.conj().T
        tdec2 = gt.matrix.decompose_mat(np.linalg.inv(z[..., None, None]*np.eye(n) - slf) @ thop)
        if np.max(np.linalg.cond(tdec2.rv)) < 1e4:
            tex = medium(z, slf, thop, hil, D)
            close(beb.gf_loc_z(z, slf, hop, hil, diag=False, rcond=rcond), tex, rtol=0, atol=1e-6*np.max(abs(tex)),
                  what=f"gf_loc_z(rcond={rcond})")
            close(beb.gf_loc_z(z, slf, hop, hil, rcond=rcond), np.diagonal(tex, axis1=-1, axis2=-2), rtol=0,
                  atol=1e-6*np.max(abs(tex)), what=f"gf_loc_z(diag=True, rcond={rcond})")
    ensure(bool(hdec.is_trunacted) == (hdec.eig.shape[-1] < n), "is_trunacted")
    us, suh = hdec.partition()
    close(us @ suh, hop, rtol=0, atol=1e-12*np.max(abs(hop))*n, what="partition")
    res = pristine(beb.self_root_eq, slf, z, e.tolist() if case["stack"] else e, c.tolist() if case["stack"] else c, hdec, hil)
    close(res, want, rtol=0, atol=1e-6*np.max(abs(want)), what=f"self_root_eq, hopping {case['hop']}")
    phys = beb.restrict_self_root_eq(slf.copy(), z, e, c, hdec, hil)
    if np.all(np.diagonal(slf, axis1=-1, axis2=-2).imag <= 0):
        close(phys, res, rtol=1e-12, atol=1e-12*np.max(abs(want)), what="restrict_self_root_eq")
    if n == 1:  # clean system: the on-site energy is the self-energy, no point above it is a root
        above = e[..., None] + 1j*D*10**rg.uniform(-4, 0, size=(*z.shape, 1, 1))
        dist = above.imag.copy()
        wrong = beb.restrict_self_root_eq(above, z, e, np.ones(1), hdec, hil)
        ensure(np.all(abs(wrong) > 1e-5*dist), "self-energy with positive imaginary part is a root of restrict_self_root_eq")
    return case["hop"]


def solve_beb(case, z, e, c, hop, hil, tol=1e-9, **kwds):
    try:
        return beb.solve_root(z, e, c, hop, hil, options={"fatol": tol*case["D"]}, **kwds)
    except Exception as err:
        if not no_solution(err):
            raise
        raise Inconclusive from None


@facet("C19", "solution", beb_case(), quick=220, thorough=3000,
       rule="self-energy makes the local Green's function diagonal and equal to concentration times the component impurity")
def check_beb(case):
    z, e, c = beb_freq(case)
    hil, D, n = hilbert(case), case["D"], case["n"]
    hop = make_hopping(case)
    if case["hop"] == "zero_row" and n > 1:
        case = {**case, "hop": "generic"}
        hop = make_hopping(case)
    slf = pristine(partial(solve_beb, case), z, e, c, hop, hil)
    has_shape(slf, (*z.shape, n, n), "solve_root")
    full = beb.gf_loc_z(z, slf, hop, hil, diag=False)
    diag = beb.gf_loc_z(z, slf, hop, hil)
    scale = np.max(abs(full))
    close(np.diagonal(full, axis1=-1, axis2=-2), diag, rtol=0, atol=1e-7*scale, what="diag of gf_loc_z")
    off = full*(1 - np.eye(n))
    ensure(np.max(abs(off)) <= 1e-5*scale, lambda: f"local Green's function not diagonal: {np.max(abs(off))}")
    cavity = np.diagonal(slf, axis1=-1, axis2=-2) + 1/diag
    close(diag, c/(cavity - e), rtol=1e-5, atol=1e-6*scale, what="concentration times component impurity Green's function")
    if hasattr(hil, "eps"):
        close(medium(z, slf, hop, hil, D), full, rtol=0, atol=1e-6*scale, what="gf_loc_z at the solution")
    if np.all(np.diagonal(slf, axis1=-1, axis2=-2).imag <= 1e-6*D):
        ensure(np.all(diag.imag < 0), "component Green's functions not causal")
        # the average has the weight of one state
        close(np.sum(diag, axis=-1)*z, np.ones(z.shape), rtol=0,
              atol=3*(2*D*max(1, np.max(abs(hop))*n) + D*case["strength"])/np.min(abs(z)), what="norm")
    return case["hop"]


@facet("C19", "half_planes", beb_case(im=(0.05, 2.), hops=["generic", "hermitian", "rank1", "diag"]), quick=100, thorough=2000,
       rule="frequencies from both half-planes in one call: the solution at the conjugate frequency is the adjoint")
def check_beb_planes(case):
    z, e, c = beb_freq(case)
    hil = hilbert(case)
    hop = make_hopping(case)
    slf = solve_beb(case, z, e, c, hop, hil)
    if np.any(np.diagonal(slf, axis1=-1, axis2=-2).imag > 0):
        raise Inconclusive
    both = np.stack([z, z.conj()])
    res = solve_beb(case, both, e, c, hop, hil, restricted=False)
    # the adjoint solves the unrestricted equation at the conjugate frequency, but is acausal
    adj = np.swapaxes(slf, -1, -2).conj()
    hdec = beb.SpecDec(*decompose_her(hop)).truncate()
    dist = np.diagonal(adj, axis1=-1, axis2=-2).imag
    wrong = np.diagonal(beb.restrict_self_root_eq(adj.copy(), z.conj(), e, c, hdec, hil), axis1=-1, axis2=-2)
    ensure(np.all(abs(wrong)[dist > 1e-9*case["D"]] > 1e-5*dist[dist > 1e-9*case["D"]]), "acausal self-energy is a root of restrict_self_root_eq")
    # also if only part of the entries is acausal
    mixed = beb.restrict_self_root_eq(np.stack([slf, adj]), both, e, c, hdec, hil)
    wrong = np.diagonal(mixed[1], axis1=-1, axis2=-2)
    ensure(np.all(abs(wrong)[dist > 1e-9*case["D"]] > 1e-5*dist[dist > 1e-9*case["D"]]),
           "acausal entry among causal ones is a root of restrict_self_root_eq")
    causal = beb.restrict_self_root_eq(slf.copy(), z, e, c, hdec, hil)
    close(mixed[0], causal, rtol=1e-9, atol=1e-9*np.max(abs(slf)), what="causal entries among acausal ones")
    gloc = beb.gf_loc_z(z, slf, hop, hil)
    gboth = beb.gf_loc_z(both, res, hop, hil)
    scale = np.max(abs(gloc))
    # without restriction unphysical roots are possible, but not at one of both frequencies
    if np.max(abs(gboth[0] - gloc)) > 1e-4*scale:
        raise Inconclusive
    close(gboth[1], gloc.conj(), rtol=0, atol=1e-4*scale, what="component Green's functions at the conjugate frequency")
    return case["hop"]


@facet("C19", "acausal", beb_case(hops=["generic", "hermitian", "rank1", "diag", "indefinite"]), quick=150, thorough=2000,
       rule="real frequency outside the band, real solution: no entry with positive imaginary part is a root, also if others are causal")
def check_beb_acausal(case):
    case = {**case, "lat": "bethe" if case["lat"] == "discrete" else case["lat"]}
    rg = rng(case["seed"] + 11)
    _, e, c = beb_freq(case)
    shape = tuple(case["shape"])
    hil, D, n = hilbert(case), case["D"], case["n"]
    hop = make_hopping(case)
    edge = D*np.max(np.sum(abs(hop), axis=-1)) + np.max(abs(e))
    z = edge*rg.uniform(1.5, 6, size=shape)*rg.choice([-1, 1], size=shape) + 0j
    slf = solve_beb(case, z, e, c, hop, hil, restricted=False)
    hdec = beb.SpecDec(*decompose_her(hop)).truncate()
    idx = np.arange(n)
    slf[..., idx, idx] = slf[..., idx, idx].real
    res = abs(beb.self_root_eq(slf, z, e, c, hdec, hil))
    acausal = rg.random(size=(*shape, n)) < 0.5
    dist = edge*10**rg.uniform(-3, 0, size=(*shape, n))
    moved = slf.copy()
    moved[..., idx, idx] += 1j*np.where(acausal, dist, 0)
    if not np.any(acausal) or np.max(res) > 1e-7*np.min(dist):
        raise Inconclusive
    wrong = beb.restrict_self_root_eq(moved, z, e, c, hdec, hil)[..., idx, idx]
    ensure(np.all(abs(wrong)[acausal] > 1e-5*dist[acausal]), "entry with positive imaginary part is a root")
    return f"{case['hop']},{'all' if np.all(acausal) else 'some'}"


@facet("C19", "limits", beb_case(hops=["ones", "diag", "generic", "rank1"]), quick=220, thorough=3000,
       rule="equal hopping gives the CPA, diagonal hopping separate lattices, permuted components permuted solutions")
def check_beb_limits(case):
    z, e, c = beb_freq(case)
    hil, D, n = hilbert(case), case["D"], case["n"]
    hop = make_hopping(case)
    slf = solve_beb(case, z, e, c, hop, hil)
    gloc = beb.gf_loc_z(z, slf, hop, hil)
    if np.any(np.diagonal(slf, axis1=-1, axis2=-2).imag > 1e-6*D):
        raise Inconclusive
    scale = np.max(abs(gloc))
    if case["hop"] == "ones":
        ref = cpa_reference(z, e, c, hil)
        gc = 1/((ref + 1/hil(z - ref))[..., None] - e)
        close(gloc, c*gc, rtol=1e-4, atol=1e-5*scale, what="component-independent hopping: CPA")
    if case["hop"] == "diag":
        # component i: bare lattice with hopping t_i diluted by concentration c_i
        for i in range(n):
            one = solve_beb(case, z, np.stack([e[..., i], np.zeros_like(e[..., i])], axis=-1), np.array([c[i], 1 - c[i]]),
                            np.diag([hop[i, i], 0.7]), hil) if n > 1 else slf
            gi = beb.gf_loc_z(z, one, np.diag([hop[i, i], 0.7]) if n > 1 else hop, hil)
            close(gloc[..., i], gi[..., 0], rtol=1e-4, atol=1e-5*scale, what="decoupled components")
    perm = rng(case["seed"] + 9).permutation(n)
    pslf = solve_beb(case, z, e[..., perm], c[perm], hop[np.ix_(perm, perm)].tolist(), hil)
    close(beb.gf_loc_z(z, pslf, hop[np.ix_(perm, perm)], hil), gloc[..., perm], rtol=1e-4, atol=1e-5*scale, what="component order")
    # restart from the solution, unrestricted
    again = solve_beb(case, z, e, c, hop, hil, self_beb_z0=slf, restricted=False)
    close(beb.gf_loc_z(z, again, hop, hil), gloc, rtol=1e-5, atol=1e-6*scale, what="restart from solution")
    return case["hop"]


# ---------------------------------------------------------------------------
# large problems
# ---------------------------------------------------------------------------
def enlarged(strategy, **more):
    return st.tuples(strategy, st.fixed_dictionaries(more)).map(lambda t: {**t[0], **t[1]})


facet("C18", "large_equations", enlarged(eq_case(), shape=logint(20, 600).map(lambda n: [n])), quick=40,
      rule="CPA equations for up to 600 frequencies")(check_cpa_eq)
facet("C18", "large_solution", enlarged(cpa_case(), shape=logint(20, 300).map(lambda n: [n]), n=st.sampled_from([2, 3, 5, 7]), dyn=st.just("static"),
                                        lat=st.sampled_from(["bethe", "onedim", "box"])), quick=24,
      rule="CPA self-energy for up to 300 frequencies and 7 components")(check_cpa)
facet("C19", "large_medium", enlarged(beb_case(im=(0.1, 4.)), shape=logint(20, 200).map(lambda n: [n])), quick=24,
      rule="BEB equations for up to 200 frequencies")(check_beb_medium)
