"""C20 - C21: Thiele Pade approximants and averaged Pade continuation."""
from functools import partial

import mpmath
import numpy as np
from hypothesis import strategies as st

import gftool as gt
from gftool import pade
from vlib.core import Inconclusive, close, ensure, facet, has_shape, pristine, raises
from vlib.gen import fl, logfl, logint, rng, seeds

GRIDS = ["matsubara", "matsubara", "plane", "real", "circle"]


def make_points(case):
    """Well separated interpolation points."""
    rg = rng(case["seed"])
    n, s = case["n"], case["scale"]
    if case["grid"] == "matsubara":
        return s*1j*np.pi*(2*np.arange(n) + 1)
    if case["grid"] == "real":
        return s*rg.permutation(np.linspace(-2, 2, n) + rg.uniform(-0.3, 0.3, size=n)/max(n, 1)) + 0j
    if case["grid"] == "circle":
        return s*np.exp(2j*np.pi*(np.arange(n) + rg.uniform(-0.2, 0.2, size=n))/n)
    return s*(np.arange(n) - n/2 + rg.uniform(-0.3, 0.3, size=n) + 1j*rg.uniform(0.2, 2, size=n))


@st.composite
def thiele_case(draw, nmin=1, nmax=9):
    return {"n": draw(st.integers(nmin, nmax)), "grid": draw(st.sampled_from(GRIDS)), "scale": draw(logfl(0.1, 10)),
            "seed": draw(seeds()), "lead": draw(st.sampled_from([[], [], [2], [1], [2, 3]])),
            "kind": draw(st.sampled_from(["random", "random", "gf", "self", "real"])),
            "out": draw(st.sampled_from([[3], [1], [], [2, 2], [4]])), "dtype": draw(st.sampled_from(["c16", "c16", "c32", "f8", "c8"]))}


def make_values(case, z):
    rg = rng(case["seed"] + 1)
    shape = (*case["lead"], z.size)
    if case["kind"] == "random":
        val = rg.uniform(0.3, 2, size=shape)*np.exp(2j*np.pi*rg.uniform(size=shape))
    elif case["kind"] == "real":
        val = rg.uniform(0.3, 2, size=shape)*rg.choice([1, -1], size=shape)
    else:
        npole = z.size + 2
        pol = rg.uniform(-1, 1, size=(*case["lead"], 1, npole))*case["scale"] - 0.5j*case["scale"]*(case["grid"] != "matsubara")
        res = rg.uniform(0.1, 1, size=pol.shape)
        val = np.sum(res/(z[:, None] - pol), axis=-1)
        if case["kind"] == "self":
            val = val + 1.5/case["scale"]
    return val


def mp_thiele(z, f):
    """Coefficients of the continued fraction in 60 digits."""
    with mpmath.workdps(60):
        z = [mpmath.mpc(x) for x in z]
        g = [mpmath.mpc(complex(x)) if not isinstance(x, mpmath.mpc) else x for x in f]
        coeff = [g[0]]
        for i in range(len(z) - 1):
            g = [None]*(i + 1) + [(g[i]/g[j] - 1)/(z[j] - z[i]) for j in range(i + 1, len(z))]
            coeff.append(g[i + 1])
        return coeff


def mp_eval(x, z, coeff):
    """Continued fraction a0/(1 + a1 (x-z0)/(1 + ...)), evaluated bottom up."""
    with mpmath.workdps(60):
        x = mpmath.mpc(complex(x))
        res = mpmath.mpf(1)
        for a, zi in zip(coeff[:0:-1], [mpmath.mpc(complex(v)) for v in z[len(coeff) - 2::-1]]):
            res = 1 + a*(x - zi)/res
        return complex(coeff[0]/res)


def forward(x, z, coeff):
    """Vidberg-Serene recursion in double precision, to measure its rounding errors."""
    a0, a1, b0, b1 = 0j, coeff[0], 1 + 0j, 1 + 0j
    for zi, c in zip(z, coeff[1:]):
        m = (x - zi)*c
        a0, a1, b0, b1 = a1, a1 + m*a0, b1, b1 + m*b0
        a0, a1, b0, b1 = a0/b1, a1/b1, b0/b1, 1 + 0j
    return a1/b1


def amplification(x, z, ref):
    """Sensitivity of the continued fraction at `x` to the rounding of its coefficients."""
    vals = [mp_eval(x, z, ref)]
    pert = []
    with mpmath.workdps(60):
        for i in range(len(ref)):
            moved = list(ref)
            moved[i] = moved[i]*(1 + mpmath.mpf(10)**-25)
            pert.append(moved)
        out = 0.
        for moved in pert:
            out += abs(complex((mpmath.mpc(mp_eval_mp(x, z, moved)) - mp_eval_mp(x, z, ref))*mpmath.mpf(10)**25))
    return out, vals[0]


def mp_eval_mp(x, z, coeff):
    x = mpmath.mpc(complex(x))
    res = mpmath.mpf(1)
    for a, zi in zip(coeff[:0:-1], [mpmath.mpc(complex(v)) for v in z[len(coeff) - 2::-1]]):
        res = 1 + a*(x - zi)/res
    return coeff[0]/res


@facet("C20", "coefficients", thiele_case(), quick=300, thorough=4000,
       rule="coefficients equal a 60-digit reference to input precision; dtype and shape; leading axes")
def check_coefficients(case):
    z = make_points(case)
    val = make_values(case, z)
    if case["dtype"] == "c32":
        val = val.astype(np.clongdouble)
    elif case["dtype"] == "c8":  # rounded data, but calculation in double precision
        val = val.astype(np.complex64)
    elif case["dtype"] == "f8":
        val = np.ascontiguousarray(val.real) if case["kind"] in ("real", "random") else val
        if np.any(abs(val) < 1e-3):
            raise Inconclusive
    coeff = pristine(pade.coefficients, z, val)
    has_shape(coeff, val.shape, "coefficients")
    ensure(coeff.dtype == (np.clongdouble if case["dtype"] == "c32" else np.complex128), f"dtype {coeff.dtype} for {val.dtype}")
    n = z.size
    precise = False
    for idx in np.ndindex(*case["lead"]):
        ref = mp_thiele(z, val[idx])
        # sensitivity: own long double and double evaluation
        errs = []
        for typ in (complex, np.clongdouble):
            g = val[idx].astype(typ)
            zz = z.astype(typ)
            for i in range(n - 1):
                g[i + 1:] = (g[i]/g[i + 1:] - 1)/(zz[i + 1:] - zz[i])
            errs.append(max(float(abs(complex(mpmath.mpc(complex(a)) - b)))/float(abs(b) + 1e-300) for a, b in zip(g, ref)))
        refc = np.array([complex(x) for x in ref])
        rel = np.max(abs(coeff[idx] - refc)/(abs(refc) + 1e-300))
        ensure(rel <= 1e-15 + 50*errs[1], lambda: f"relative error {rel} of the coefficients, extended precision gives {errs[1]}")
        precise |= errs[0] > 100*(1e-15 + 50*errs[1])
    return ("precise-" if precise else "") + case["kind"]


@facet("C20", "interpolation", thiele_case(nmin=2), quick=300, thorough=4000,
       rule="k-th approximant passes through its first k+2 points and equals a 60-digit evaluation elsewhere")
def check_interpolation(case):
    z = make_points(case)
    val = make_values(case, z)
    coeff = pade.coefficients(z, val)
    rg = rng(case["seed"] + 2)
    out = case["scale"]*(rg.uniform(-2, 2, size=case["out"]) + 1j*rg.uniform(0.1, 2, size=case["out"]))
    out = np.asarray(out)
    if case["seed"] % 5 == 0 and out.size:  # next to the pole of an intermediate approximant
        c = coeff[(0,)*len(case["lead"])]
        pole = z[0] - 1/c[1] if case["seed"] % 2 or c.size < 3 else (c[1]*z[0] + c[2]*z[1] - 1)/(c[1] + c[2])
        if np.isfinite(pole) and abs(pole) < 1e3*case["scale"]:
            out.reshape(-1)[rg.integers(out.size)] = pole + case["scale"]*10.**rg.uniform(-10, -2)*np.exp(1j*rg.uniform(0, 6.3))
    if case["seed"] % 2:
        out = np.array(out, order="F")  # order in memory is irrelevant
    grid = pristine(lambda a, b, c: list(pade.calc_iterator(a, b, c)), out, z, coeff)
    at_in = list(pade.calc_iterator(z, z, coeff))
    ensure(len(grid) == z.size - 1, f"{len(grid)} approximants for {z.size} points")
    decided = False
    for k, (appr, itp) in enumerate(zip(grid, at_in)):
        has_shape(appr, (*case["lead"], *case["out"]), "approximant")
        npt = k + 2
        for idx in np.ndindex(*case["lead"]):
            ref = [mpmath.mpc(complex(x)) for x in coeff[idx][:npt]]  # evaluation for the rounded coefficients
            for j, x in enumerate(out.reshape(-1)):
                amp, want = amplification(x, z[:npt], ref)
                if not np.isfinite(amp) or amp > 1e6*abs(want) or abs(want) > 1e8:
                    continue
                decided = True
                rnd = 1e3*abs(forward(x, z[:npt], coeff[idx][:npt]) - want)
                if not rnd < 1e-4*abs(want):
                    continue
                close(appr[idx].reshape(-1)[j], want, rtol=0, atol=1e-11*abs(want) + 1e-12*amp + rnd, what=f"approximant with {npt} points")
            for j in range(npt):
                amp, want = amplification(z[j], z[:npt], ref)
                if not np.isfinite(amp) or amp > 1e6*abs(want):
                    continue
                decided = True
                rnd = 1e3*abs(forward(z[j], z[:npt], coeff[idx][:npt]) - want)
                if not rnd < 1e-4*abs(want):
                    continue
                close(itp[idx][j], val[idx][j], rtol=0, atol=1e-10*abs(val[idx][j]) + 1e-11*amp + rnd,
                      what=f"approximant with {npt} points at data point {j}")
    return case["kind"] if decided else False


@st.composite
def rational_case(draw):
    return {"npole": draw(st.integers(1, 4)), "scale": draw(logfl(0.1, 10)), "seed": draw(seeds()),
            "const": draw(st.booleans()), "grid": draw(st.sampled_from(["matsubara", "plane", "circle"])),
            "lead": draw(st.sampled_from([[], [2], [2, 2]]))}


@facet("C20", "recovery", rational_case(), quick=400, thorough=6000,
       rule="rational functions of matching degree are reproduced everywhere, with 1/z or constant tail")
def check_recovery(case):
    np_ = case["npole"]
    n = 2*np_ + (1 if case["const"] else 0)
    rg = rng(case["seed"])
    z = make_points({**case, "n": n})
    s = case["scale"]
    pol = s*(np.linspace(-1.5, 1.5, np_) + rg.uniform(-0.2, 0.2, size=(*case["lead"], np_)) - 0.4j*(case["grid"] != "matsubara"))
    if case["grid"] == "circle":
        pol = 0.5*pol
    res = s*rg.uniform(0.4, 1, size=pol.shape)
    cst = rg.uniform(0.5, 1) if case["const"] else 0.

    def fct(x):
        return np.sum(res[..., None]/(x - pol[..., None]), axis=-2) + cst
    val = fct(z)
    coeff = pade.coefficients(z, val)
    out = s*(rg.uniform(-3, 3, size=6) + 1j*rg.uniform(0.3, 3, size=6))
    *_, last = pade.calc_iterator(out, z, coeff)
    # conditioning: the exact coefficients for data rounded to double precision
    want = fct(out)
    tol = 0.
    for idx in np.ndindex(*case["lead"]):
        ref = mp_thiele(z, val[idx]*(1 + 1e-16*rg.choice([-1, 1], size=n)))
        tol = max(tol, max(abs(mp_eval(x, z, ref) - w) for x, w in zip(out, want[idx])))
    if not tol < 1e-5*np.max(abs(want)):
        raise Inconclusive
    close(last, want, rtol=0, atol=1e3*tol + 1e-9*np.max(abs(want)), what=f"rational function of {np_} poles from {n} points")
    # asymptotics
    far = np.array([1e4, 1e5])*s*1j
    *_, tail = pade.calc_iterator(far, z, coeff)
    if case["const"]:
        close(tail, np.broadcast_to(cst, tail.shape) + 0j, rtol=0, atol=1e-3*np_ + 1e4*tol, what="constant tail")
    else:
        wgt = np.sum(res, axis=-1)
        close(tail*far, np.broadcast_to(wgt[..., None], tail.shape) + 0j, rtol=1e-3 + 1e5*tol, what="1/z tail")
    return f"{np_}{'c' if case['const'] else ''}"


@facet("C20", "tail", thiele_case(nmin=2, nmax=7), quick=300, thorough=4000,
       rule="even numbers of points give a 1/z tail, odd numbers a constant")
def check_tail(case):
    z = make_points(case)
    val = make_values(case, z)
    coeff = pade.coefficients(z, val)
    big = case["scale"]*np.exp(0.7j)*np.array([1e9, 1e10])
    decided = False
    for k, appr in enumerate(pade.calc_iterator(big, z, coeff)):
        ratio = appr[..., 1]/appr[..., 0]
        want = 0.1 if (k + 2) % 2 == 0 else 1.
        # leading coefficients: odd/even parts must not (nearly) vanish
        cc = abs(coeff[..., 1:k + 2])*case["scale"]
        ok = (np.min(cc, axis=-1) > 1e-2) & (np.max(cc, axis=-1) < 1e2) & np.isfinite(ratio)
        # even/odd parts of the continued fraction
        good = ok & (abs(appr[..., 0]) < 1e4) & ((abs(appr[..., 0]) > 1e-4) if want == 1. else (abs(appr[..., 0]) > 1e-13))
        if np.any(good):
            decided = True
            close(np.where(good, ratio, want), np.full(ratio.shape, want + 0j), rtol=0.02, what=f"tail for {k + 2} points")
    return case["kind"] if decided else False


@facet("C20", "masked", thiele_case(nmin=2, nmax=8), quick=200, thorough=3000,
       rule="masked coefficients equal the plain ones without extreme values; kept points are interpolated")
def check_masked(case):
    z = make_points(case)
    val = make_values({**case, "lead": []}, z)
    if abs(val[0]) < 1e-3:
        raise Inconclusive
    dup = case["seed"] % 3 == 0 and z.size > 3
    if dup:  # an eliminated point: same value as the first one
        val[2] = val[0]*(1 + 1e-6)
    huge = case["seed"] % 3 == 1 and z.size > 2
    if huge:  # an extreme value, its reciprocal is negligible
        val[2 + case["seed"] % (z.size - 2)] *= 1e9
    msk = pristine(pade.masked_coefficients, z, val)
    has_shape(msk, val.shape, "masked_coefficients")
    keep = msk != 0
    if dup:
        ensure(not (keep[2] and keep[1] and abs(msk[1]) < 1e-3), "redundant point kept")
    if np.any(~np.isfinite(msk)):
        raise Inconclusive
    coeff = pade.coefficients(z[keep], val[keep])
    cc = abs(coeff)
    if np.max(cc) > 1e3*np.min(cc):
        raise Inconclusive
    close(msk[keep], coeff, rtol=1e-3 if huge else 1e-6, what="masked coefficients of the kept points")
    return "huge" if huge else "eliminated" if not np.all(keep) else "all"


# ---------------------------------------------------------------------------
# C21
# ---------------------------------------------------------------------------
@st.composite
def kind_case(draw):
    self_ = draw(st.booleans())
    n_min = 2*draw(st.integers(0, 8)) + (2 if self_ else 1)
    return {"self": self_, "n_min": n_min, "n_max": n_min + draw(st.integers(1, 14))}


def make_kind(case):
    return (pade.KindSelf if case["self"] else pade.KindGf)(case["n_min"], case["n_max"])


def kind_indices(case):
    """Approximants using between n_min and n_max points with the right tail (index k uses k+2 points)."""
    even = not case["self"]
    return [k for k in range(case["n_max"]) if case["n_min"] <= k + 1 and k + 2 <= case["n_max"]
            and ((k + 2) % 2 == 0) == even]


@facet("C21", "kinds", kind_case(), quick=200, thorough=2000, rule="selected approximants have the tail of the kind and at most n_max points")
def check_kind(case):
    kind = make_kind(case)
    want = kind_indices(case)
    ensure(list(kind.islice(range(100))) == want, f"islice selects {list(kind.islice(range(100)))} instead of {want}")
    ensure(len(kind) == len(want), "len")
    ensure(list(range(100))[kind.slice] == want, "slice")
    ensure([kind[i] for i in range(len(kind))] == want, "getitem")
    if want:
        ensure(kind[-1] == want[-1], "getitem -1")
    for bad in (0, -1):
        cls = pade.KindSelf if case["self"] else pade.KindGf
        if (bad % 2 == 0) == case["self"]:
            raises(ValueError, lambda bad=bad, cls=cls: cls(bad, case["n_max"]), f"n_min={bad}")
    raises(ValueError, lambda: type(kind)(case["n_min"], case["n_min"]), "n_max=n_min")
    raises(ValueError, lambda: type(kind)(case["n_min"] + 2, case["n_min"]), "n_max<n_min")
    return "self" if case["self"] else "gf"


FILTERS = ["none", "neg", "negnum", "negnumrel", "var", "varrel", "neg+var", "var+neg", "negnum+var", "list1", "neg+neg"]


@st.composite
def avg_case(draw, filters=FILTERS):
    case = draw(kind_case())
    case.update(seed=draw(seeds()), lead=draw(st.sampled_from([[], [], [2], [1], [2, 2]])), filter=draw(st.sampled_from(filters)),
                noise=draw(st.sampled_from([0., 1e-8, 1e-5, 1e-3, 1e-2])), extra=draw(st.integers(0, 3)),
                threshold=draw(st.sampled_from([1e-8, 0., 1e-3, 0.1])), num=draw(st.integers(1, 5)), rel=draw(fl(0.2, 0.9)),
                valid=draw(st.booleans()), coeff=draw(st.booleans()), out=draw(st.sampled_from([[3], [1], [5], [2, 2]])),
                beta=draw(logfl(1, 50)))
    return case


def make_data(case):
    rg = rng(case["seed"])
    iws = gt.matsubara_frequencies(range(case["n_max"] + case["extra"]), beta=case["beta"])
    eps = rg.uniform(-1, 1, size=(*case["lead"], 1, 3))
    res = rg.dirichlet(np.ones(3), size=(*case["lead"], 1))
    val = np.sum(res*gt.bethe_gf_z(iws[:, None] - eps, half_bandwidth=0.7), axis=-1)
    if case["self"]:
        val = val + 0.8
    val = val*(1 + case["noise"]*(rg.normal(size=val.shape) + 1j*rg.normal(size=val.shape)))
    out = np.asarray(rg.uniform(-2, 2, size=case["out"]) + 1j*rg.uniform(0.02, 0.5, size=case["out"]))
    if case["seed"] % 3 == 0:
        out = np.array(out, order="F")  # order in memory is irrelevant
    valid = rg.uniform(-3, 3, size=4) + 1j*rg.uniform(0.01, 0.3, size=4)
    return iws, val, out, valid


def model_filters(case):
    """List of (library filter, model acting on a (N, N_z) array)."""
    thr, num, rel = case["threshold"], case["num"], case["rel"]

    def neg(x):
        return np.array([bool(np.all(a.imag < thr)) for a in x])

    def negnum(count):
        def fct(x):
            cnt = count(len(x))
            if cnt >= len(x):
                return np.ones(len(x), dtype=bool)
            bad = np.array([a.imag.max() for a in x])
            srt = np.sort(bad)
            if cnt and srt[cnt - 1] == srt[cnt] and srt[cnt] > 0:
                raise Inconclusive  # tie
            return (bad <= 0) | (bad <= srt[cnt - 1] if cnt else np.zeros(len(x), dtype=bool))
        return fct

    def var(count):
        def fct(x):
            cnt = count(len(x))
            keep = list(range(len(x)))
            while len(keep) > cnt:
                mean = np.mean([x[i] for i in keep], axis=0)
                dist = np.array([np.sum(abs(x[i] - mean)**2) for i in keep])
                order = np.sort(dist)
                if len(order) > 1 and not order[-1] > order[-2]*(1 + 1e-6) + 1e-28:
                    raise Inconclusive  # tie
                keep.pop(int(np.argmax(dist)))
            return np.isin(np.arange(len(x)), keep)
        return fct
    lib = {"neg": (pade.FilterNegImag(thr), neg),
           "negnum": (pade.FilterNegImagNum(abs_num=num), negnum(lambda n: num)),
           "negnumrel": (pade.FilterNegImagNum(rel_num=rel), negnum(lambda n: int(rel*n))),
           "var": (pade.FilterHighVariance(abs_num=num), var(lambda n: num)),
           "varrel": (pade.FilterHighVariance(rel_num=rel), var(lambda n: int(rel*n)))}
    if case["filter"] == "none":
        return []
    if case["filter"] == "list1":
        return [lib["neg"]]
    return [lib[name] for name in case["filter"].split("+")]


def model_valid(case, filters, approx):
    """(N, ...) mask; successive application to what the previous filters left."""
    mask = np.ones(approx.shape[:-1], dtype=bool)
    for idx in np.ndindex(*approx.shape[1:-1]):
        col = (slice(None), *idx)
        for _, model in filters:
            cur = mask[col].copy()
            pos = np.flatnonzero(cur)
            if pos.size == 0:
                break
            acc = model(approx[(pos, *idx)])
            cur[pos] = acc
            mask[col] = cur
    return mask


@facet("C21", "filters", avg_case(filters=[f for f in FILTERS if f != "none"]), quick=350, thorough=5000,
       rule="filters keep exactly the approximants they promise, also combined and for stacked functions")
def check_filters(case):
    if "negnum" in case["filter"] and "+" not in case["filter"]:
        case = {**case, "lead": []}  # documented to be checked for flat input only
    rg = rng(case["seed"])
    n = len(kind_indices(case))
    if n == 0:
        return False
    shape = (n, *case["lead"], 4)
    approx = rg.normal(size=shape) + 1j*rg.normal(size=shape)*0.3 - 1j*rg.uniform(0, 1.2, size=(n, *[1]*(len(shape) - 1)))
    if case["seed"] % 2:  # outliers
        approx[rg.integers(n)] *= 50
    if case["seed"] % 5 == 0:  # real somewhere and nowhere wrong
        some = rg.random(n) < 0.4
        approx.imag[some] = -abs(approx.imag[some])
        approx.imag[some, ..., rg.integers(4)] = 0
    filters = model_filters(case)
    want = model_valid(case, filters, approx)
    lib = [f for f, _ in filters]
    if len(lib) > 1 and not np.all(want.any(axis=0)):
        raises(RuntimeError, lambda: pade.apply_filter(*lib, validity_iter=iter(approx)), "no approximant left")
        return "rejected"
    got = pristine(lambda x: pade.apply_filter(*lib, validity_iter=iter(x)), approx)
    ensure(got.dtype == bool, "filter: not boolean")
    has_shape(got, want.shape, "filter")
    ensure(np.array_equal(got, want), lambda: f"filter {case['filter']}: kept {got.tolist()} instead of {want.tolist()}")
    if len(lib) == 1:
        ensure(np.array_equal(lib[0](list(approx)), want), "filter called directly")
    return case["filter"]


def near_boundary(case, approx):
    """Validity decided by rounding errors."""
    if "neg" in case["filter"] or case["filter"] == "list1":
        mx = np.max(approx.imag, axis=-1)
        return bool(np.any(abs(mx - case["threshold"]) < 1e-10) or np.any(abs(mx) < 1e-12))
    return False


@facet("C21", "averaged", avg_case(), quick=450, thorough=6000,
       rule="averaged continuation is mean and standard deviation over exactly the accepted approximants")
def check_averaged(case):
    if "negnum" in case["filter"] and "+" not in case["filter"]:
        case = {**case, "lead": []}
    kind = make_kind(case)
    idxs = kind_indices(case)
    if not idxs:
        return False
    iws, val, out, valid = make_data(case)
    coeff = pade.coefficients(iws, val)
    approx = np.array(list(pade.calc_iterator(out, iws, coeff)))[idxs]
    vgrid = valid if case["valid"] else out
    vapprox = np.array(list(pade.calc_iterator(vgrid.reshape(-1), iws, coeff)))[idxs]
    if not np.all(np.isfinite(approx)) or np.max(abs(approx)) > 1e100:
        raise Inconclusive
    filters = model_filters(case)
    if near_boundary(case, vapprox):
        raise Inconclusive
    mask = model_valid(case, filters, vapprox)
    kwds = {"kind": kind, "filter_valid": {0: None, 1: filters[0][0] if filters else None}.get(len(filters), [f for f, _ in filters])}
    if case["filter"] == "list1":
        kwds["filter_valid"] = [filters[0][0]]
    kwds.update({"coeff": coeff} if case["coeff"] else {"fct_z": val})
    if case["valid"]:
        kwds["valid_z"] = valid
    if not np.all(mask.any(axis=0)):
        raises(RuntimeError, lambda: pade.averaged(out, iws, **kwds), "no valid approximant")
        return "rejected"
    res = pristine(pade.averaged, out, iws, **kwds)
    # reference average
    mean = np.empty((*case["lead"], *case["out"]), dtype=complex)
    std = np.empty_like(mean)
    for idx in np.ndindex(*case["lead"]):
        sel = approx[(mask[(slice(None), *idx)], *idx)]
        mean[idx] = np.sum(sel, axis=0)/len(sel)
        with np.errstate(all="ignore"):
            std[idx] = (np.sqrt(np.sum((sel.real - mean[idx].real)**2, axis=0)/(len(sel) - 1))
                        + 1j*np.sqrt(np.sum((sel.imag - mean[idx].imag)**2, axis=0)/(len(sel) - 1)))
    scale = np.max(abs(approx), axis=0)
    ensure(np.shape(res.x) == mean.shape, f"shape {np.shape(res.x)} instead of {mean.shape}")
    close(res.x/scale, mean/scale, rtol=1e-9, atol=1e-11, what="averaged.x")
    close(res.err.real/scale, std.real/scale, rtol=1e-6, atol=1e-9, what="averaged.err.real")
    close(res.err.imag/scale, std.imag/scale, rtol=1e-6, atol=1e-9, what="averaged.err.imag")
    if case["filter"] == "neg":
        kwds.pop("filter_valid")
        other = pade.avg_no_neg_imag(out, iws, threshold=case["threshold"], **kwds)
        close(other.x, res.x, rtol=1e-12, what="avg_no_neg_imag")
    # points beyond n_max have no influence
    if case["extra"] and not case["coeff"]:
        val2 = val.copy()
        val2[..., case["n_max"]:] *= 1.7
        kwds2 = {**kwds, "fct_z": val2}
        other = pade.averaged(out, iws, **kwds2) if case["filter"] != "neg" else pade.avg_no_neg_imag(
            out, iws, threshold=case["threshold"], **kwds2)
        close(other.x, res.x, rtol=1e-12, what="points beyond n_max")
    return case["filter"]


@facet("C21", "averager", avg_case(filters=["none", "neg", "var"]), quick=300, thorough=4000,
       rule="Averager and Mod_Averager with explicit masks: repeated evaluation, modification before averaging")
def check_averager(case):
    kind = make_kind(case)
    idxs = kind_indices(case)
    if not idxs:
        return False
    iws, val, out, valid = make_data(case)
    coeff = pade.coefficients(iws, val)
    rg = rng(case["seed"] + 5)
    flat = case["coeff"]
    mshape = (len(idxs),) if flat else (len(idxs), *case["lead"])
    mask = rg.random(size=mshape) < 0.6
    if not np.all(mask.any(axis=0)):
        raises(RuntimeError, lambda: pade.Averager(iws, coeff, valid_pades=mask, kind=kind), "Averager without valid approximant")
        raises(RuntimeError, lambda: pade.Mod_Averager(iws, coeff, np.multiply, valid_pades=mask, kind=kind),
               "Mod_Averager without valid approximant")
        return "rejected"
    raises(TypeError, lambda: pade.Averager(iws, coeff, valid_pades=mask.astype(int), kind=kind), "Averager: integer mask")
    raises(TypeError, lambda: pade.Mod_Averager(iws, coeff, np.multiply, valid_pades=mask.astype(float), kind=kind),
           "Mod_Averager: float mask")
    avg = pade.Averager(iws, coeff, valid_pades=mask.tolist(), kind=kind)

    def mod(z, x, scale=1., real=False):
        res = scale/(1.3 + 0.1*z - x)
        return res.real if real else res
    mods = [pade.Mod_Averager(iws, coeff, fct, valid_pades=mask, kind=kind, vectorized=vec)
            for vec in (True, False) for fct in (mod, partial(mod))]
    bmask = np.broadcast_to(mask.reshape(mask.shape + (1,)*(1 + len(case["lead"]) - mask.ndim)), (len(idxs), *case["lead"]))
    for points in (out, valid, out[..., :1], out.reshape(-1)[:1].reshape(())):
        approx = np.array(list(pade.calc_iterator(points, iws, coeff)))[idxs]
        if not np.all(np.isfinite(approx)) or np.max(abs(approx)) > 1e8:
            raise Inconclusive

        def stats(arr):
            sel = [[arr[(i, *idx)] for i in range(len(idxs)) if bmask[(i, *idx)]] for idx in np.ndindex(*case["lead"])]
            shape = (*case["lead"], *points.shape)
            mean = np.array([np.mean(s, axis=0) for s in sel]).reshape(shape)
            with np.errstate(all="ignore"):
                std = np.array([np.sqrt(np.sum((np.array(s) - np.mean(s, axis=0))**2, axis=0)/(len(s) - 1)) if len(s) > 1
                                else np.full(np.shape(s[0]), np.nan) for s in sel]).reshape(shape)
            return mean, std
        res = pristine(avg, points)
        scale = np.max(abs(approx))
        mre, sre = stats(approx.real)
        mim, sim = stats(approx.imag)
        close(res.x, mre + 1j*mim, rtol=0, atol=1e-10*scale, what="Averager x")
        close(res.err.real, sre, rtol=1e-6, atol=1e-8*scale, what="Averager err.real")
        close(res.err.imag, sim, rtol=1e-6, atol=1e-8*scale, what="Averager err.imag")
        for real in (False, True):
            changed = mod(points, approx, scale=1.5, real=real)
            sc = np.max(abs(changed))
            if not sc < 1e6:
                continue
            for obj in mods:
                out_ = obj(points, 1.5, real=real)
                if real:
                    mean, std = stats(changed)
                    ensure(np.isrealobj(out_.x), "Mod_Averager: real modification")
                    close(out_.x, mean, rtol=0, atol=1e-9*sc, what="Mod_Averager real x")
                    close(out_.err, std, rtol=1e-6, atol=1e-7*sc, what="Mod_Averager real err")
                else:
                    mre, sre = stats(changed.real)
                    mim, sim = stats(changed.imag)
                    close(out_.x, mre + 1j*mim, rtol=0, atol=1e-9*sc, what="Mod_Averager x")
                    close(out_.err.real, sre, rtol=1e-6, atol=1e-7*sc, what="Mod_Averager err.real")
                    close(out_.err.imag, sim, rtol=1e-6, atol=1e-7*sc, what="Mod_Averager err.imag")
    # NaN in the data
    bad = coeff.copy()
    bad[..., 0] = np.nan
    raises(RuntimeError, lambda: pade.Averager(iws, bad, valid_pades=mask, kind=kind)(out), "NaN in coefficients")
    return "flat" if flat else "stacked"


@st.composite
def nan_case(draw):
    case = draw(avg_case(filters=["none"]))
    case.update(size=draw(logint(1, 4000)), where=draw(st.sampled_from(["z", "data", "coeff"])), inf=draw(st.booleans()))
    return case


@facet("C21", "nan", nan_case(), quick=150,
       rule="a single NaN among the points or the data of one stack element is reported instead of averaged away")
def check_nan(case):
    """Documented: RuntimeError if the continuation contains any NaN."""
    kind, idxs = make_kind(case), kind_indices(case)
    if not idxs:
        return False
    iws, val, _, _ = make_data(case)
    rg = rng(case["seed"] + 11)
    out = rg.uniform(-2, 2, size=case["size"]) + 1j*rg.uniform(0.02, 0.5, size=case["size"])
    coeff = pade.coefficients(iws, val)
    if not np.all(np.isfinite(np.array(list(pade.calc_iterator(out, iws, coeff)))[idxs])):
        raise Inconclusive
    idx = tuple(int(rg.integers(k)) for k in case["lead"])
    mask = np.ones(len(idxs) if case["coeff"] else (len(idxs), *case["lead"]), dtype=bool)
    nan = np.nan*(1j if case["inf"] else 1)
    clean = pade.averaged(out, iws, fct_z=val, kind=kind)
    ensure(np.all(np.isfinite(clean.x)), "average of finite approximants")
    if case["where"] == "z":
        out[int(rg.integers(out.size))] = nan
    elif case["where"] == "data":
        val = val.copy()
        val[(*idx, int(rg.integers(idxs[0] + 2)))] = nan
        coeff = pade.coefficients(iws, val)
    else:
        coeff = coeff.copy()
        coeff[(*idx, int(rg.integers(idxs[0] + 2)))] = nan

    def modify(z, x):
        return x
    if case["where"] != "coeff":
        raises(RuntimeError, lambda: pade.averaged(out, iws, fct_z=val, kind=kind), f"averaged: NaN in {case['where']}")
    raises(RuntimeError, lambda: pade.averaged(out, iws, coeff=coeff, kind=kind), f"averaged: NaN in {case['where']}")
    raises(RuntimeError, lambda: pade.Averager(iws, coeff, valid_pades=mask, kind=kind)(out), f"Averager: NaN in {case['where']}")
    for vec in (True, False):
        raises(RuntimeError, lambda vec=vec: pade.Mod_Averager(iws, coeff, modify, valid_pades=mask, kind=kind, vectorized=vec)(out),
               f"Mod_Averager: NaN in {case['where']}")
    return case["where"]
