"""C22 - C25: pole-based Pade, (Hermite-)Pade from Taylor series, linear prediction, rational-function containers."""
import warnings

import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import chebyshev, polynomial

from gftool import hermpade, polepade
from gftool import linearprediction as lp
from gftool.basis import PoleFct, PoleGf, RatPol, ZeroPole
from vlib.core import Inconclusive, close, ensure, facet, has_shape, pristine, raises
from vlib.gen import fl, logfl, logint, rng, seeds


# ---------------------------------------------------------------------------
# C22
# ---------------------------------------------------------------------------
def enlarged(strategy, **more):
    return st.tuples(strategy, st.fixed_dictionaries(more)).map(lambda t: {**t[0], **t[1]})


@st.composite
def rat_case(draw, mmax=4, grids=("mats", "mats2", "circ", "circ", "real"), least=3):
    m = draw(st.integers(1, mmax))
    return {"m": m, "grid": draw(st.sampled_from(grids)), "extra": draw(st.integers(least, 24)), "scale": draw(logfl(0.2, 5)),
            "degree": draw(st.sampled_from([-1, -1, 0, -2])), "seed": draw(seeds()),
            "weight": draw(st.sampled_from(["none", "none", "generic", "const"])), "cres": draw(st.booleans()),
            "sym": draw(st.sampled_from([False, False, True]))}


class Rational:
    """Rational function with known poles, residues, zeros and asymptotic."""

    def __init__(self, case):
        rg = rng(case["seed"])
        m, s, deg = case["m"], case["scale"], case["degree"]
        n = 2*m + case["extra"]
        grid = case["grid"]
        if case["sym"]:
            n += n % 2
        pol = np.linspace(-1.5, 1.5, m) if m > 1 else np.array([0.4])
        if not case["sym"]:
            pol = pol + rg.uniform(-0.1, 0.1, size=m)
        pol = pol + 0j
        if grid == "mats":
            z = 0.8j*(np.arange(n) + 0.5)
        elif grid == "mats2":
            z = 0.8j*(np.arange(n) - n//2 + 0.5)
        elif grid == "circ":
            z = 2*np.exp(2j*np.pi*(np.arange(n) + 0.3)/n)
        else:
            z = np.linspace(-2, 2, n) + 0j
            pol = pol - 0.5j
        self.z, self.poles = s*z, s*pol
        if deg == -2 and m < 2:
            deg = -1
        self.degree = deg
        res = rg.uniform(0.3, 1, size=m) if not case["sym"] else np.ones(m)
        if case["cres"]:
            res = res*np.exp(1j*rg.uniform(-1, 1, size=m)) if not case["sym"] else res*np.exp(0.5j)
        if deg == -2:  # residues adding up to zero
            res = res - res.mean() + (np.arange(m) - np.mean(np.arange(m)))
        self.res = s*res
        self.const = rg.uniform(0.5, 1) if deg == 0 else 0.
        if deg == 0:
            self.amp = self.const
        elif deg == -1:
            self.amp = np.sum(self.res)
        else:
            self.amp = np.sum(self.res*self.poles)
        num = polynomial.Polynomial(self.const)*polynomial.Polynomial(polynomial.polyfromroots(self.poles))
        for j in range(m):
            num = num + self.res[j]*polynomial.Polynomial(polynomial.polyfromroots(np.delete(self.poles, j)))
        coef = np.asarray(num.coef, dtype=complex)
        coef = coef[:m + deg + 1]
        self.zeros = polynomial.polyroots(coef) if coef.size > 1 else np.zeros(0, dtype=complex)
        # well-conditioned as a rational function of this degree?
        if self.zeros.size:
            dist = np.min(abs(self.zeros[:, None] - self.poles[None, :]))
            if dist < 0.05*s or np.max(abs(self.zeros)) > 20*s or abs(self.amp) < 0.05*s**(-deg):
                raise Inconclusive
            if self.zeros.size > 1:
                gap = abs(self.zeros[:, None] - self.zeros) + np.where(np.eye(self.zeros.size, dtype=bool), np.inf, 0)
                if np.min(gap) < 0.05*s:
                    raise Inconclusive
        self.weight = {"none": None, "const": np.full(n, 2.5), "generic": np.exp(rg.uniform(-1, 1, size=n))}[case["weight"]]
        self.test = s*(rg.uniform(-2, 2, size=5) + 1j*rg.uniform(0.4, 2, size=5))
        self.tol = {"mats": [1e-9, 1e-8, 1e-6, 1e-4, 3e-2], "mats2": [1e-9, 1e-8, 1e-6, 1e-4, 3e-2]}.get(grid, [1e-9]*5)[m - 1]

    def __call__(self, x):
        x = np.asarray(x)
        return self.const + np.sum(self.res/(x[..., None] - self.poles), axis=-1)


def match(got, want, atol, what):
    """Compare as sets."""
    got, want = np.asarray(got), np.asarray(want)
    ensure(got.size == want.size, lambda: f"{what}: {got.size} instead of {want.size}: {got} vs. {want}")
    left = list(got)
    for w in want:
        dist = [abs(g - w) for g in left]
        i = int(np.argmin(dist))
        ensure(dist[i] <= atol, lambda: f"{what}: {w} not found in {got} (distance {min(dist)})")
        left.pop(i)


@facet("C22", "recovery", rat_case(), quick=500, thorough=8000,
       rule="continuation of rational data reproduces the function off the data in both representations")
def check_continuation(case):
    fct = Rational(case)
    z, f, s = fct.z, fct(fct.z), case["scale"]
    kwds = {"degree": fct.degree, "weight": fct.weight, "real_asymp": not case["cres"]}
    appr = pristine(polepade.continuation, z, f, **kwds)
    want = fct(fct.test)
    scale = np.max(abs(want))
    close(appr.eval_polefct(fct.test), want, rtol=0, atol=fct.tol*scale, what="eval_polefct")
    if not (case["cres"] is False and abs(np.imag(fct.amp)) > 1e-12*abs(fct.amp)):
        close(appr.eval_zeropole(fct.test), want, rtol=0, atol=10*fct.tol*scale, what="eval_zeropole")
        close(appr.amplitude, fct.amp, rtol=10*fct.tol, what="amplitude")
    ensure(appr.zeros.size == appr.poles.size + fct.degree, "difference of degrees")
    ensure(appr.residues.size == appr.poles.size, "number of residues")
    if case["extra"] >= 6 and appr.poles.size == case["m"]:
        match(appr.poles, fct.poles, 30*fct.tol*s, "poles")
        match(appr.zeros, fct.zeros, 100*fct.tol*(s + np.max(abs(fct.zeros), initial=0)), "zeros")
        match(appr.residues, fct.res, 100*fct.tol*np.max(abs(fct.res)), "residues")
    if case["grid"] in ("circ", "real") and case["m"] <= 3 and case["extra"] >= 6:
        ensure(appr.poles.size == case["m"], f"{appr.poles.size} poles instead of {case['m']}")
    mom = np.array([np.sum(fct.res*fct.poles**k) for k in range(3)])
    close(appr.moments([1, 2, 3]), mom, rtol=0, atol=100*fct.tol*np.max(abs(fct.res))*np.array([1, 2*s, 4*s**2]),
          what="PadeApprox.moments")
    close(appr.eval_polefct(complex(fct.test[0])), want[0], rtol=0, atol=fct.tol*scale, what="scalar eval_polefct")
    return case["grid"]


@facet("C22", "stages", rat_case(grids=("circ", "real", "mats")), quick=500, thorough=8000,
       rule="pole number, poles, zeros, asymptotic and residues of rational data, each step from exact predecessors")
def check_stages(case):
    fct = Rational(case)
    z, f, s, m = fct.z, fct(fct.z), case["scale"], case["m"]
    if case["grid"] == "mats":  # as `continuation` does
        zr = (z/1j).real
        rot = 1j
    else:
        zr, rot = z, 1
    wgt = fct.weight
    tol = fct.tol
    vander = polynomial.polyvander
    if case["grid"] == "real" and case["seed"] % 2:
        def vander(x, deg):
            return chebyshev.chebvander(x/(2*s), deg)
    num = pristine(polepade.number_poles, zr, f, degree=fct.degree, weight=wgt, vandermond=vander)
    ensure(m <= num <= (z.size - fct.degree)//2, f"number_poles {num} for {m} poles")
    if case["grid"] != "mats" and case["extra"] >= 6 and m <= 3:
        ensure(num == m, f"number_poles {num} instead of {m}")
    for guess in (1, m):
        num0 = polepade.number_poles(zr, f, degree=fct.degree, weight=wgt, n_poles0=guess, vandermond=vander)
        ensure(m <= num0, f"number_poles(n_poles0={guess}) = {num0} too small")
        if case["grid"] != "mats" and m <= 3 and case["extra"] >= 6:
            ensure(num0 == m, f"number_poles(n_poles0={guess}) = {num0} instead of {m}")
    too_many = (z.size - fct.degree - 1)//2 + 1
    raises(ValueError, lambda: polepade.number_poles(zr, f, degree=fct.degree, n_poles0=too_many), "n_poles0 too large")
    pls = pristine(polepade.poles, zr, f, n=m + fct.degree, m=m, weight=wgt, vandermond=vander)*rot
    match(pls, fct.poles, 30*tol*s, "poles")
    if fct.degree == -1:
        match(polepade.poles(zr, f, m=m, weight=wgt)*rot, fct.poles, 30*tol*s, "poles with default n")
        match(polepade.zeros(zr, f, fct.poles/rot, weight=wgt)*rot, fct.zeros, 30*tol*(s + np.max(abs(fct.zeros), initial=0)),
              "zeros with default n")
    if case["grid"] == "circ" and fct.zeros.size:  # one of the points is a zero
        at = case["seed"] % 3 - 1
        z2, f2 = z.copy(), f.copy()
        z2[at], f2[at] = fct.zeros[0], 0
        match(polepade.poles(z2, f2, n=m + fct.degree, m=m, weight=wgt), fct.poles, 100*tol*s, "poles with data vanishing at one point")
        match(polepade.zeros(z2, f2, fct.poles, n=m + fct.degree, weight=wgt), fct.zeros,
              100*tol*(s + np.max(abs(fct.zeros), initial=0)), "zeros with data vanishing at one point")
    zrs = pristine(polepade.zeros, zr, f, fct.poles/rot, n=m + fct.degree, weight=wgt, vandermond=vander)*rot
    match(zrs, fct.zeros, 30*tol*(s + np.max(abs(fct.zeros), initial=0)), "zeros")
    asym, std = pristine(polepade.asymptotic, z, f, fct.zeros, fct.poles, weight=wgt)
    close(asym, fct.amp, rtol=1e-7, what="asymptotic")
    ensure(abs(std) <= 1e-6*abs(fct.amp), lambda: f"standard deviation {std} of exact data")
    res, err = pristine(polepade.residues_ols, z, f - fct.const, fct.poles, weight=wgt)
    close(res, fct.res, rtol=0, atol=1e-7*np.max(abs(fct.res)), what="residues_ols")
    ensure(abs(np.asarray(err).item()) <= 1e-8*np.max(abs(f))*z.size, lambda: f"residual {err} of exact data")
    return case["grid"]


@st.composite
def noisy_case(draw):
    return {"m": draw(st.integers(1, 5)), "n": draw(st.integers(8, 40)), "nmom": draw(st.integers(0, 4)), "seed": draw(seeds()),
            "weight": draw(st.booleans()), "scale": draw(logfl(0.2, 5)), "cmom": draw(st.booleans()), "noise": draw(fl(0, 1)),
            "degree": draw(st.sampled_from([-1, 0]))}


@facet("C22", "residue_optimum", noisy_case(), quick=500, thorough=8000,
       rule="residues of arbitrary data satisfy the moments exactly and the optimality conditions, with weights")
def check_residues(case):
    rg = rng(case["seed"])
    m, n, s = case["m"], case["n"], case["scale"]
    pol = s*(np.linspace(-1.5, 1.5, m) + rg.uniform(-0.15, 0.15, size=m) - 1j*rg.uniform(0, 0.4, size=m))
    z = s*(rg.uniform(-2, 2, size=n) + 1j*rg.uniform(0.3, 2, size=n))
    f = (rg.normal(size=n) + 1j*rg.normal(size=n))/s
    wgt = np.exp(rg.uniform(-1, 1, size=n)) if case["weight"] else None
    nmom = case["nmom"]
    mom = rg.normal(size=nmom)*s**np.arange(nmom) + (1j*rg.normal(size=nmom) if case["cmom"] else 0)
    call = lambda: polepade.residues_ols(z, f, pol, weight=wgt, moments=mom)  # noqa: E731
    if nmom > m:
        raises(ValueError, call, "more moments than poles")
        return "rejected"
    res, err = pristine(polepade.residues_ols, z, f, pol, weight=wgt, moments=mom if case["cmom"] else mom.tolist())
    has_shape(res, (m,), "residues")
    amat = 1/(z[:, None] - pol)
    ww = np.ones(n) if wgt is None else wgt
    resid = ww*(amat @ res - f)
    close(np.asarray(err).item(), np.linalg.norm(resid), rtol=1e-8, atol=1e-10, what="norm of the residual")
    grad = (amat*ww[:, None]).conj().T @ resid
    if nmom:
        cmat = np.array([pol**k for k in range(nmom)])
        close(cmat @ res, mom, rtol=0, atol=1e-8*(1 + np.max(abs(res)))*s**np.arange(nmom), what="moments")
        _, _, vh = np.linalg.svd(cmat, full_matrices=True)
        free = vh[nmom:].conj()  # orthonormal basis of the feasible directions (rows, conjugated)
        grad = free.conj() @ grad if free.size else np.zeros(1)
        if m == nmom:
            grad = np.zeros(1)
    bound = np.linalg.norm(amat*ww[:, None])*(np.linalg.norm(ww*f) + np.linalg.norm(resid))
    ensure(np.max(abs(grad)) <= 1e-8*bound, lambda: f"not the least-squares optimum: gradient {np.max(abs(grad))} (scale {bound})")
    return f"moments{nmom}"


@facet("C22", "weights", noisy_case(), quick=400, thorough=6000,
       rule="inexact data: asymptotic is the weighted average ratio; a weight sqrt(2) is the same as a point given twice")
def check_weights(case):
    rg = rng(case["seed"])
    m, s = min(case["m"], 3), case["scale"]
    n = max(case["n"], 2*m + 4)
    deg = case["degree"]
    z = 2*s*np.exp(2j*np.pi*(np.arange(n) + 0.3)/n)
    pol = s*(np.linspace(-1.3, 1.3, m) + rg.uniform(-0.15, 0.15, size=m))
    f = np.sum(rg.uniform(0.5, 1, size=m)/(z[:, None] - pol), axis=-1) + (0.7/s if deg == 0 else 0)
    f = f*(1 + 0.05*case["noise"]*(rg.normal(size=n) + 1j*rg.normal(size=n)))
    wgt = np.exp(rg.uniform(-1, 1, size=n)) if case["weight"] else None
    zrs = s*(rg.uniform(-1, 1, size=m + deg) + 0.3j*rg.uniform(-1, 1, size=m + deg))
    ratio = f*np.array([np.prod(x - pol)/np.prod(x - zrs) for x in z])
    asym, std = pristine(polepade.asymptotic, z, f, zrs, pol, weight=wgt)
    ww = np.ones(n) if wgt is None else wgt
    mean = np.sum(ww*ratio)/np.sum(ww)
    close(asym, mean, rtol=1e-9, atol=1e-11*np.max(abs(ratio)), what="asymptotic: (weighted) average")
    var = np.sum(ww*abs(ratio - mean)**2)/np.sum(ww)*(n/(n - 1) if wgt is None else 1)
    close(std, var**0.5, rtol=1e-8, atol=1e-9*np.max(abs(ratio)), what="asymptotic: standard deviation")
    # multiplicity
    twice = rg.random(n) < 0.4
    z2, f2 = np.concatenate([z, z[twice]]), np.concatenate([f, f[twice]])
    w2 = None if wgt is None else np.concatenate([wgt, wgt[twice]])
    wm = ww*np.where(twice, 2**0.5, 1)
    calls = [("poles", lambda *a, w: polepade.poles(*a, n=m + deg, m=m, weight=w)),
             ("zeros", lambda *a, w: polepade.zeros(*a, pol, n=m + deg, weight=w)),
             ("residues_ols", lambda *a, w: polepade.residues_ols(*a, pol, weight=w)[0])]
    for name, call in calls:
        if name == "zeros" and m + deg == 0:
            continue
        got, want = call(z, f, w=wm), call(z2, f2, w=w2)
        sens = call(z, f*(1 + 1e-9*np.exp(2j*np.pi*rg.random(n))), w=wm)  # conditioning of the problem
        got, want, sens = (np.sort_complex(np.asarray(x)) if name != "residues_ols" else x for x in (got, want, sens))
        dist = max(np.min(abs(sens - g)) for g in got)/np.max(abs(got))
        if not np.all(np.isfinite(got)) or dist > 1e-6:
            continue
        match(got, want, 1e-7*np.max(abs(got)), f"{name}: multiplicity as weight")
    return "weighted" if case["weight"] else "unweighted"


@facet("C22", "options", rat_case(mmax=3, grids=("circ", "real", "mats"), least=6), quick=300, thorough=5000,
       rule="moments honoured, ignored (zero-weight) points, overall weight, rotation, scaling and shift of the argument")
def check_options(case):
    fct = Rational(case)
    rg = rng(case["seed"] + 3)
    z, f, s, m = fct.z, fct(fct.z), case["scale"], case["m"]
    deg = fct.degree
    raises(ValueError, lambda: polepade.continuation(z, f, degree=rg.integers(1, 4)), "positive degree")
    asy = not case["cres"]
    base = polepade.continuation(z, f, degree=deg, weight=fct.weight, real_asymp=asy)
    want, scale = fct(fct.test), np.max(abs(fct(fct.test)))
    tol = {"rtol": 0, "atol": 30*fct.tol*scale}
    # moments
    noisy = f*(1 + 1e-3*rg.normal(size=f.size))
    nmom = int(rg.integers(1, m + 1))
    mom = np.array([np.sum(fct.res*fct.poles**k) for k in range(nmom)])*1.1
    try:
        appr = polepade.continuation(z, noisy, degree=deg, weight=fct.weight, moments=mom, real_asymp=asy)
    except RuntimeError:
        appr = None  # no exact solution for noisy data
    except ValueError as err:
        if "over constrained" not in str(err):
            raise
        appr = None
    if appr is not None:
        got = appr.moments(np.arange(1, nmom + 1))
        mag = np.array([np.sum(abs(appr.residues*appr.poles**k)) for k in range(nmom)])
        if np.max(abs(appr.poles)) < 1e3*s:
            close(got, mom, rtol=0, atol=1e-6*(mag + abs(mom)), what="given moments")
    exact = polepade.continuation(z, f, degree=deg, moments=mom/1.1, real_asymp=asy)
    close(exact.eval_polefct(fct.test), want, **tol, what="with the exact moments")
    # points of zero weight
    w0 = np.ones(z.size) if fct.weight is None else fct.weight.copy()
    bad = rg.choice(z.size, size=2, replace=False)
    w0[bad] = 0
    spoiled = f.copy()
    spoiled[bad] *= 3
    if case["extra"] >= 10:
        ign = polepade.continuation(z, spoiled, degree=deg, weight=w0, real_asymp=asy)
        close(ign.eval_polefct(fct.test), want, **tol, what="points of zero weight")
    # constant factor in the weight
    w1 = (np.ones(z.size) if fct.weight is None else fct.weight)*3.7
    again = polepade.continuation(z, f, degree=deg, weight=w1, real_asymp=asy)
    close(again.eval_polefct(fct.test), want, **tol, what="constant factor in the weights")
    # rotation is only a choice of coordinates
    if case["grid"] != "mats":
        rot = polepade.continuation(z, f, degree=deg, weight=fct.weight, rotate=True, real_asymp=asy)
        close(rot.eval_polefct(fct.test), want, **tol, what="rotate=True")
    # permuted points
    perm = rg.permutation(z.size)
    appr = polepade.continuation(z[perm], f[perm], degree=deg, weight=None if fct.weight is None else fct.weight[perm],
                                 real_asymp=asy)
    close(appr.eval_polefct(fct.test), want, **tol, what="order of the points")
    # real asymptotic
    if deg == 0:
        ensure(np.isrealobj(polepade.continuation(z, f, degree=0).amplitude), "real_asymp=True: complex amplitude")
        cplx = polepade.continuation(z, f*np.exp(0.4j), degree=0, real_asymp=False)
        close(cplx.eval_polefct(fct.test), want*np.exp(0.4j), **tol, what="complex asymptotic")
    ensure(base.zeros.size - base.poles.size == deg, "degree")
    return case["grid"]


# ---------------------------------------------------------------------------
# C23
# ---------------------------------------------------------------------------
@st.composite
def taylor_case(draw):
    return {"num": draw(st.integers(0, 5)), "den": draw(st.integers(0, 5)), "extra": draw(st.integers(0, 4)), "seed": draw(seeds()),
            "complex": draw(st.booleans()), "decay": draw(fl(0.4, 1.6)), "list": draw(st.booleans()),
            "small": draw(st.one_of(st.just(0), st.integers(1, 11)))}


def series_mul(a, b, n):
    return polynomial.polymul(a, b)[:n] if len(a) and len(b) else np.zeros(n)


def residual(order, *pairs):
    """Coefficients 0..order-1 of the sum of products."""
    out = np.zeros(order, dtype=complex)
    for a, b in pairs:
        prod = np.zeros(order, dtype=complex)
        full = np.convolve(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex))[:order]
        prod[:full.size] = full
        out += prod
    return out


def taylor(case, size):
    rg = rng(case["seed"])
    an = rg.normal(size=size)*case["decay"]**np.arange(size)
    if case["complex"]:
        # also almost real series
        an = an + 1j*rg.normal(size=size)*case["decay"]**np.arange(size)*10.**-case.get("small", 0)
    return an


@facet("C23", "pade_order", taylor_case(), quick=600, thorough=8000,
       rule="numerator minus denominator times series vanishes to order num+den+1, for all variants and degrees")
def check_pade_order(case):
    nn, dd = case["num"], case["den"]
    need = nn + dd + 1
    an = taylor(case, need + case["extra"])
    arg = an.tolist() if case["list"] else an
    # Hankel-type matrix determining the denominator
    full = np.concatenate([np.zeros(dd), an[:need]])
    mat = np.array([[full[dd + nn + 1 + i - j] for j in range(dd + 1)] for i in range(dd)]).reshape(dd, dd + 1)
    cond = np.linalg.cond(mat) if dd else 1.
    variants = [("pade", lambda: hermpade.pade(arg, nn, dd)), ("pader", lambda: hermpade.pader(arg, nn, dd))]
    if dd and np.linalg.cond(mat[:, :-1]) < 1e6:
        variants.append(("pade fast", lambda: hermpade.pade(arg, nn, dd, fast=True)))
    if dd == 0:
        variants.append(("pade fast", lambda: hermpade.pade(arg, nn, dd, fast=True)))
    if case["extra"] == 0 and (dd == 0 or np.linalg.cond(mat[:, 1:]) < 1e6):
        variants.append(("pade_lstsq", lambda: hermpade.pade_lstsq(arg, nn, dd)))
    if cond > 1e8:
        raise Inconclusive
    evals = []
    x = np.array([0.05, -0.1, 0.07j])/case["decay"]
    for name, fct in variants:
        rat = fct()
        ensure(isinstance(rat, RatPol), f"{name}: not a RatPol")
        p, q = rat.numer.coef, rat.denom.coef
        ensure(len(p) <= nn + 1 and len(q) <= dd + 1, f"{name}: degrees ({len(p) - 1}, {len(q) - 1}) instead of ({nn}, {dd})")
        if name != "pader":
            ensure(len(p) == nn + 1 and len(q) == dd + 1, f"{name}: degrees ({len(p) - 1}, {len(q) - 1}) instead of ({nn}, {dd})")
        ensure(np.max(abs(q)) > 0, f"{name}: zero denominator")
        res = residual(need, (p, [1.]), (-q, an[:need]))
        scale = np.max(abs(q))*np.max(abs(an[:need])) + np.max(abs(p))
        ensure(np.max(abs(res)) <= 1e-12*scale, lambda: f"{name}[{nn}/{dd}]: series mismatch {abs(res)} (scale {scale})")
        if abs(q[0]) > 1e-2*np.max(abs(q)):
            evals.append((name, rat.eval(x)))
    # the zero function
    zero = hermpade.pader(np.zeros_like(an), nn, dd)
    close(zero.eval(x), np.zeros(x.shape), rtol=0, atol=0, what="pader of the zero function")
    if nn:  # powers of x
        mono = np.zeros_like(an)
        mono[nn] = an[nn]
        close(hermpade.pader(mono, nn, dd).eval(x), an[nn]*x**nn, rtol=1e-9, what="pader of a monomial")
    for name, val in evals[1:]:
        close(val, evals[0][1], rtol=1e-6, atol=1e-7, what=f"{name} vs. {evals[0][0]}") if cond < 1e6 else None
    return f"{nn}/{dd}"


@st.composite
def ratrec_case(draw):
    return {"num": draw(st.integers(0, 4)), "den": draw(st.integers(0, 4)), "more": draw(st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list)),
            "extra": draw(st.integers(0, 6)), "seed": draw(seeds()), "complex": draw(st.booleans())}


def power_series_div(p, q, n):
    """Taylor coefficients of p/q."""
    out = np.zeros(n, dtype=np.result_type(np.asarray(p).dtype, np.asarray(q).dtype, float))
    for k in range(n):
        acc = p[k] if k < len(p) else 0
        for j in range(1, min(k, len(q) - 1) + 1):
            acc = acc - q[j]*out[k - j]
        out[k] = acc/q[0]
    return out


@facet("C23", "pade_recovery", ratrec_case(), quick=500, thorough=8000,
       rule="rational functions are reproduced from their Taylor series, also with degrees larger than necessary (robust variant)")
def check_pade_recovery(case):
    rg = rng(case["seed"])
    nn, dd = case["num"], case["den"]
    poles = rg.uniform(1., 2.5, size=dd)*np.exp(1j*(2*np.pi*np.arange(dd)/max(dd, 1) + rg.uniform(-0.3, 0.3, size=dd)))
    zeros = rg.uniform(1., 2.5, size=nn)*np.exp(1j*(2*np.pi*(np.arange(nn) + 0.5)/max(nn, 1) + rg.uniform(-0.3, 0.3, size=nn)))
    if not case["complex"]:
        poles, zeros = poles.real + np.sign(poles.real)*0.3 + 0j, zeros.real + np.sign(zeros.real)*0.6 + 0j
    if nn and dd and np.min(abs(poles[:, None] - zeros)) < 0.15:
        raise Inconclusive
    for arr in (poles, zeros):
        if arr.size > 1 and np.min(abs(arr[:, None] - arr) + 9*np.eye(arr.size)) < 0.1:
            raise Inconclusive
    p, q = polynomial.polyfromroots(zeros), polynomial.polyfromroots(poles)
    if not case["complex"]:
        p, q = p.real, q.real
    p, q = p/abs(p[0]), q/q[0]
    mn, md = nn + case["more"][0], dd + case["more"][1]
    an = power_series_div(p, q, mn + md + 1 + case["extra"])
    x = 0.5*np.exp(1j*np.array([0.2, 1.3, 2.9])) if case["complex"] else np.array([0.3, -0.4, 0.45])
    x = np.concatenate([x, 3.3*x])
    den = abs(polynomial.polyval(x, q))
    if np.min(den) < 0.05:
        raise Inconclusive
    want = polynomial.polyval(x, p)/polynomial.polyval(x, q)
    full = np.concatenate([np.zeros(dd), an])
    mat = np.array([[full[dd + nn + 1 + i - j] for j in range(dd + 1)] for i in range(dd)]).reshape(dd, dd + 1)
    if dd:
        sv = np.linalg.svd(mat, compute_uv=False)
        if sv[-1] < 1e-6*sv[0] or np.linalg.cond(mat[:, 1:]) > 1e6:
            raise Inconclusive
    tol = {"rtol": 1e-6, "atol": 1e-6*np.max(abs(want))}
    for name, fct in [("pade", hermpade.pade), ("pade_lstsq", hermpade.pade_lstsq), ("pader", hermpade.pader)]:
        close(fct(an, nn, dd).eval(x), want, **tol, what=f"{name}[{nn}/{dd}]")
    if dd == 0 or np.linalg.cond(mat[:, :-1]) < 1e6:
        close(hermpade.pade(an, nn, dd, fast=True).eval(x), want, **tol, what="pade(fast=True)")
    # robust variant: degrees reduced to the necessary ones
    rat = hermpade.pader(an, mn, md, rcond=1e-10)
    p2, q2 = rat.numer.coef, rat.denom.coef
    res = residual(mn + md + 1, (p2, [1.]), (-q2, an[:mn + md + 1]))
    ensure(np.max(abs(res)) <= 1e-6*np.max(abs(q2))*np.max(abs(an)), lambda: f"pader[{mn}/{md}]: series mismatch {abs(res)}")
    close(rat.eval(x[:3]), want[:3], rtol=1e-5, atol=1e-5*np.max(abs(want)), what=f"pader[{mn}/{md}] of a [{nn}/{dd}] function")
    if case["more"][1] and len(q2) == md + 1 and min(case["more"]) > 0:
        ensure(False, f"pader kept the degree {md} for a function with denominator degree {dd}")
    raises(ValueError, lambda: hermpade.pade(an[:nn + dd], nn, dd), "pade: too few coefficients")
    raises(ValueError, lambda: hermpade.pader(an[:nn + dd], nn, dd), "pader: too few coefficients")
    raises(ValueError, lambda: hermpade.pade_lstsq(an[:nn + dd], nn, dd), "pade_lstsq: too few coefficients")
    return f"{nn}/{dd}"


@st.composite
def herm_case(draw):
    return {"degs": [draw(st.integers(0, 4)), draw(st.integers(0, 4)), draw(st.integers(0, 4))], "extra": draw(st.integers(0, 5)),
            "seed": draw(seeds()), "complex": draw(st.booleans()), "decay": draw(fl(0.4, 1.4)),
            "fix": draw(st.sampled_from([None, None, 0, -1]))}


@facet("C23", "hermite_order", herm_case(), quick=500, thorough=8000,
       rule="p + q f + r f^2 vanishes to order np+nq+nr+2; least-squares variant for minimal series")
def check_hermite_order(case):
    npp, nq, nr = case["degs"]
    need = npp + nq + nr + 2
    an = taylor(case, need + case["extra"])
    if abs(an[0]) < 0.05:
        raise Inconclusive
    an2 = np.convolve(an, an)[:an.size]
    variants = [("hermite2", lambda: hermpade.hermite2(an, npp, nq, nr))]
    if case["extra"] == 0:
        variants.append(("hermite2_lstsq", lambda: hermpade.hermite2_lstsq(an, npp, nq, nr, fix_qr=case["fix"])))
    for name, fct in variants:
        p, q, r = fct()
        p, q, r = p.coef, q.coef, r.coef
        ensure(len(p) == npp + 1 and len(q) == nq + 1 and len(r) == nr + 1, f"{name}: wrong degrees")
        size = max(np.max(abs(q)), np.max(abs(r)))
        ensure(size > 0 and np.isfinite(size), f"{name}: trivial solution")
        res = residual(need, (p, [1.]), (q, an), (r, an2))
        scale = np.max(abs(q))*np.max(abs(an[:need])) + np.max(abs(r))*np.max(abs(an2[:need])) + np.max(abs(p))
        if name == "hermite2_lstsq":
            # the minimum-norm least-squares solution of a square system; only decided if well conditioned
            rows = np.array([[an[i - j] if i >= j else 0 for j in range(nq + 1)] + [an2[i - j] if i >= j else 0 for j in range(nr + 1)]
                             for i in range(npp + 1, need)])
            fix = case["fix"]
            if fix is None:
                _, _, vh = np.linalg.svd(rows)
                fix = int(np.argmin(abs(vh[0])))
            cnd = np.linalg.cond(np.delete(rows, fix, axis=1))
            if cnd > 1e6:
                continue
            ensure(abs(np.r_[q, r][fix] - 1) < 1e-12, f"{name}: fixed coefficient is not one")
        ensure(np.max(abs(res)) <= 1e-8*scale, lambda: f"{name}{case['degs']}: series mismatch {abs(res)} (scale {scale})")
    # the zero function solves the equation, if it is a root of the quadratic equation
    null = np.zeros(need + case["extra"])
    for fct in (hermpade.hermite2, hermpade.hermite2_lstsq):
        p, q, r = fct(null, npp, nq, nr)
        ensure(len(p.coef) == npp + 1 and len(q.coef) == nq + 1 and len(r.coef) == nr + 1, f"{fct.__name__}: wrong degrees for zero function")
        ensure(not np.any(p.coef), f"{fct.__name__}: zero function is no solution")
        ensure(np.any(q.coef) or np.any(r.coef), f"{fct.__name__}: trivial solution for zero function")
    raises(ValueError, lambda: hermpade.hermite2(an[:need - 1], npp, nq, nr), "hermite2: too few coefficients")
    raises(ValueError, lambda: hermpade.hermite2_lstsq(an[:need - 1], npp, nq, nr), "hermite2_lstsq: too few coefficients")
    return "/".join(map(str, case["degs"]))


def sqrt_series(a, n):
    """Taylor coefficients of the square root with sqrt(a0) principal."""
    out = np.zeros(n, dtype=complex)
    out[0] = np.sqrt(complex(a[0]))
    for k in range(1, n):
        acc = a[k] if k < len(a) else 0
        acc = acc - sum(out[j]*out[k - j] for j in range(1, k))
        out[k] = acc/(2*out[0])
    return out


@facet("C23", "hermite_recovery", herm_case(), quick=500, thorough=8000,
       rule="algebraic functions of degree two are reproduced; branches solve the quadratic equation; selection by the Pade approximant")
def check_hermite_recovery(case):
    rg = rng(case["seed"])
    npp, nq, nr = (min(d, 3) for d in case["degs"])

    def poly(n):
        c = rg.normal(size=n + 1)*0.5**np.arange(n + 1)
        return c + 1j*rg.normal(size=n + 1)*0.5**np.arange(n + 1)*case["complex"]
    p, q, r = poly(npp), poly(nq), poly(nr)
    r[0] = 1.
    need = npp + nq + nr + 2 + case["extra"] + 3
    disc = residual(need, (q, q), (-4*p, r))
    if abs(disc[0]) < 0.3:
        raise Inconclusive
    root = sqrt_series(disc, need)
    fs = power_series_div(0.5*(root - np.r_[q, np.zeros(need - nq - 1)]), r, need)
    if not case["complex"] and disc[0].real > 0:
        fs = fs.real
    if abs(fs[0]) < 0.05 or np.max(abs(fs)) > 1e3:
        raise Inconclusive
    x = 0.06*np.exp(1j*np.array([0.3, 2.2, 4.])) if case["complex"] else np.array([0.05, -0.06, 0.03])
    fx = 0.5*(-polynomial.polyval(x, q) + np.sqrt(disc[0] + 0j)*np.sqrt(
        polynomial.polyval(x, residual(40, (q, q), (-4*p, r)))/disc[0] + 0j))/polynomial.polyval(x, r)
    for name, make in [("from_taylor", lambda: hermpade.Hermite2.from_taylor(fs, npp, nq, nr)),
                       ("from_taylor_lstsq", lambda: hermpade.Hermite2.from_taylor_lstsq(fs, npp, nq, nr))]:
        herm = make()
        br = np.array(herm.eval_branches(x))
        pz, qz, rz = herm.p(x), herm.q(x), herm.r(x)
        if np.min(abs(rz)) < 1e-7*max(np.max(abs(herm.p.coef)), np.max(abs(herm.q.coef)), np.max(abs(herm.r.coef))):
            raise Inconclusive
        for b in br:
            has_shape(b, x.shape, "branch")
            close(pz + qz*b + rz*b**2, np.zeros(x.shape), rtol=0, atol=1e-8*np.max(abs(pz) + abs(qz*b) + abs(rz*b**2)), what=f"{name}: branch")
        close(br[0] + br[1], -qz/rz, rtol=1e-8, atol=1e-8*np.max(abs(br)), what="sum of the branches")
        close(br[0]*br[1], pz/rz, rtol=1e-8, atol=1e-8*np.max(abs(br))**2, what="product of the branches")
        pad = herm.pade.eval(x)
        best = np.where(abs(br[0] - pad) < abs(br[1] - pad), br[0], br[1])
        got = herm.eval(x)
        close(got, best, rtol=1e-12, what="branch closer to Pade")
        close(herm.eval(x[0]), got[0], rtol=1e-9, what="scalar evaluation")
        close(herm.eval(x.reshape(3, 1)), got.reshape(3, 1), rtol=1e-9, what="evaluation of a column")
        # the exact function is a branch if the approximant is unique
        an2 = np.convolve(fs, fs)[:need]
        rows = np.array([[fs[i - j] if i >= j else 0 for j in range(nq + 1)] + [an2[i - j] if i >= j else 0 for j in range(nr + 1)]
                         for i in range(npp + 1, npp + nq + nr + 2)])
        sv = np.linalg.svd(rows, compute_uv=False)
        if sv[-1] > 1e-5*sv[0] and name == "from_taylor":
            dist = np.minimum(abs(br[0] - fx), abs(br[1] - fx))
            ensure(np.max(dist) <= 1e-6*(1 + np.max(abs(fx))), lambda: f"{name}{(npp, nq, nr)}: exact function is no branch: {dist}")
            if abs(br[0] - br[1]).min() > 0.5 and abs(pad - fx).max() < 0.05:
                close(got, fx, rtol=0, atol=1e-6*(1 + np.max(abs(fx))), what="selected branch")
    return f"{npp}/{nq}/{nr}"


@facet("C23", "retarded_branch", herm_case(), quick=200, thorough=3000,
       rule="variant for retarded functions: among the branches the causal one closest to the axis, else the least acausal one")
def check_retarded(case):
    rg = rng(case["seed"])
    degs = case["degs"]
    p, q, r = ([polynomial.Polynomial(rg.normal(size=d + 1) + 1j*rg.normal(size=d + 1)*case["complex"]) for d in degs])
    cls = getattr(hermpade, "_Hermite2Ret", None)  # internal, used by `tt2z_herm2`
    if cls is None:
        return False
    herm = cls(p=p, q=q, r=r)
    x = rg.normal(size=(2, 4)) + 1j*rg.normal(size=(2, 4))
    br = np.array(herm.eval_branches(x))
    got = herm.eval(x)
    has_shape(got, x.shape, "retarded branch")
    for idx in np.ndindex(2, 4):
        roots = br[(slice(None), *idx)]
        mag = np.max(abs(roots))
        close(p(x[idx]) + q(x[idx])*roots + r(x[idx])*roots**2, np.zeros(2), rtol=0,
              atol=1e-8*np.max(abs(p(x[idx])) + abs(q(x[idx])*roots) + abs(r(x[idx])*roots**2)), what="branches")
        if np.min(abs(roots.imag)) < 1e-9*mag or abs(roots.imag[0] - roots.imag[1]) < 1e-9*mag:
            continue
        causal = roots[roots.imag < 0]
        best = causal[np.argmax(causal.imag)] if causal.size else roots[np.argmin(roots.imag)]
        close(got[idx], best, rtol=1e-10, what=f"selected from {roots}")
    # real branches are retarded as well
    one, two = complex(rg.integers(-4, 5)), complex(rg.integers(-4, 5), rg.choice([-3, -2, -1, 1, 2]))
    herm = cls(p=polynomial.Polynomial([one*two]), q=polynomial.Polynomial([-one - two]), r=polynomial.Polynomial([1.]))
    roots = np.array(herm.eval_branches(np.array([0.3])))[:, 0]
    if np.sum(roots.imag == 0) == 1 and np.max(abs(np.sort_complex(roots) - np.sort_complex([one, two]))) < 1e-12:
        close(herm.eval(np.array([0.3])), [one], rtol=1e-12, what=f"real branch selected from {roots}")
    # constructors from Taylor series
    need = sum(degs) + 2
    an = taylor(case, need)
    if abs(an[0]) < 0.05:
        return "complex" if case["complex"] else "real"
    for name, fct in (("from_taylor", hermpade.hermite2), ("from_taylor_lstsq", hermpade.hermite2_lstsq)):
        herm = getattr(cls, name)(an, deg_p=degs[0], deg_q=degs[1], deg_r=degs[2])
        for got, want in zip((herm.p, herm.q, herm.r), fct(an, *degs)):
            close(got.coef, want.coef, rtol=1e-9, atol=1e-12, what=f"_Hermite2Ret.{name}")
    return "complex" if case["complex"] else "real"


# ---------------------------------------------------------------------------
# C24
# ---------------------------------------------------------------------------
@st.composite
def signal_case(draw):
    return {"n": draw(st.integers(2, 24)), "order": draw(st.integers(1, 6)), "num": draw(st.sampled_from([0, 1, 2, 5, 20])),
            "lead": draw(st.sampled_from([[], [], [2], [2, 2], [1]])), "seed": draw(seeds()), "complex": draw(st.booleans())}


@facet("C24", "recursion", signal_case(), quick=500, thorough=6000,
       rule="prediction keeps the data and follows the linear recursion, element by element")
def check_recursion(case):
    rg = rng(case["seed"])
    order = min(case["order"], case["n"])
    shape = (*case["lead"], case["n"])
    x = rg.normal(size=shape) + 1j*rg.normal(size=shape)*case["complex"]
    x = x if case["complex"] else x.real
    pc = 0.5*rg.normal(size=(*case["lead"], order))
    if case["complex"]:
        pc = pc + 0.5j*rg.normal(size=pc.shape)
    if case["lead"] and case["seed"] % 2:
        pc = pc[(0,)*len(case["lead"])]  # common coefficients
    num = case["num"]
    out = pristine(lp.predict, x, pc, num=num)
    has_shape(out, (*case["lead"], case["n"] + num), "predict")
    ensure(out.dtype == x.dtype, f"dtype {out.dtype}")
    ensure(np.array_equal(out[..., :case["n"]], x), "predict changed the given data")
    bpc = np.broadcast_to(pc, (*case["lead"], order))
    for idx in np.ndindex(*case["lead"]):
        seq = list(x[idx])
        for _ in range(num):
            seq.append(-sum(bpc[idx][k]*seq[-1 - k] for k in range(order)))
        want = np.array(seq)
        scale = np.max(abs(want))
        close(out[idx], want, rtol=1e-9, atol=1e-10*scale, what="linear recursion")
    # signals and coefficients of any numeric type
    ints = rg.integers(-9, 10, size=case["n"])
    ipc = rg.integers(-1, 2, size=order)
    for xx, pp in ((ints, 0.37*ipc), (ints, ipc), (ints, 0.3*ipc*np.exp(0.3j)), (0.3*ints, ipc)):
        close(lp.predict(xx, pp, num=3), lp.predict(xx.astype(complex), pp.astype(complex), num=3), rtol=1e-12, atol=1e-12,
              what=f"prediction for {xx.dtype} data and {pp.dtype} coefficients")
    raises(ValueError, lambda: lp.predict(x, pc, num=-1 - num), "negative number of steps")
    return "complex" if case["complex"] else "real"


@st.composite
def mode_case(draw):
    return {"modes": draw(st.integers(1, 4)), "growing": draw(st.integers(0, 2)), "extra": draw(st.integers(0, 12)),
            "num": draw(st.sampled_from([1, 3, 10, 30])), "seed": draw(seeds()), "lead": draw(st.sampled_from([[], [2], [2, 2]])),
            "real": draw(st.booleans())}


def make_modes(case, rg, lead):
    """Distinct modes with their amplitudes."""
    nm = case["modes"]
    ang = 2*np.pi*(np.arange(nm) + 0.25)/nm + rg.uniform(-0.2, 0.2, size=(*lead, nm))
    rad = rg.uniform(0.6, 0.97, size=(*lead, nm))
    grow = min(case["growing"], nm - 1)
    if grow:
        rad[..., :grow] = rg.uniform(1.03, 1.2, size=(*lead, grow))
    w = rad*np.exp(1j*ang)
    c = rg.uniform(0.5, 1.5, size=(*lead, nm))*np.exp(2j*np.pi*rg.uniform(size=(*lead, nm)))
    return w, c


@facet("C24", "exponentials", mode_case(), quick=500, thorough=6000,
       rule="sums of exponentials are continued exactly, the stable variant continues exactly the non-growing part")
def check_exponentials(case):
    rg = rng(case["seed"])
    lead = tuple(case["lead"])
    w, c = make_modes(case, rg, lead)
    nm = case["modes"]
    n = 2*nm + case["extra"]
    k = np.arange(n + case["num"])
    terms = c[..., None]*w[..., None]**k
    sig = np.sum(terms, axis=-2)
    x = np.ascontiguousarray(sig[..., :n])
    order = nm
    if case["real"]:
        sig, x = sig.real.copy(), x.real.copy()
        order = 2*nm
        n = 4*nm + case["extra"]
        k = np.arange(n + case["num"])
        sig = np.sum(c[..., None]*w[..., None]**k, axis=-2).real
        x = sig[..., :n].copy()
    # conditioning of the prediction problem
    mat = np.stack([np.stack([x[..., order - 1 - j + i] for j in range(order)], axis=-1) for i in range(n - order)], axis=-2)
    if np.max(np.linalg.cond(mat)) > 1e5:
        raise Inconclusive
    pc, err = pristine(lp.pcoeff_covar, x, order=order)
    has_shape(pc, (*lead, order), "pcoeff_covar")
    has_shape(err, lead, "error of pcoeff_covar")
    scale = np.max(abs(sig))
    ensure(np.all(err <= 1e-8*scale), lambda: f"error {err} for exact exponentials")
    out = lp.predict(x, pc, num=case["num"])
    close(out, sig, rtol=0, atol=1e-6*scale, what="continued exponentials")
    ww = np.concatenate([w, w.conj()], axis=-1) if case["real"] else w
    if not case["real"]:
        stable = pristine(lp.predict, x, pc, num=case["num"], stable=True)
        want = np.sum(np.where((abs(w) > 1)[..., None], 0, terms), axis=-2)
        want[..., :n] = x
        close(stable, want, rtol=0, atol=1e-5*scale, what="stable prediction")
        has_shape(stable, out.shape, "stable prediction")
        if not lead:  # common coefficients for several series
            both = np.stack([x, 1.7j*x])
            close(lp.predict(both, pc, num=case["num"]), np.stack([out, 1.7j*out]), rtol=0, atol=1e-9*scale, what="common coefficients")
            close(lp.predict(both, pc, num=case["num"], stable=True), np.stack([stable, 1.7j*stable]), rtol=0, atol=1e-9*scale,
                  what="stable prediction with common coefficients")
        bound = np.max(np.sum(abs(np.where(abs(w) > 1, 0, c)), axis=-1))
        ensure(np.all(abs(stable[..., n:]) <= bound*(1 + 1e-5) + 1e-5*scale), "stable prediction grows")
    # roots of the recursion
    roots = np.linalg.eigvals(lp.companion(np.concatenate([np.ones((*lead, 1)), pc], axis=-1)))
    for idx in np.ndindex(*lead):
        dist = np.min(abs(roots[idx][:, None] - ww[idx][None, :]), axis=0)
        ensure(np.max(dist) < 1e-4, lambda: f"roots {roots[idx]} instead of {ww[idx]}")
    return ("growing" if np.any(abs(w) > 1) else "decaying") + ("-real" if case["real"] else "")


@facet("C24", "marginal_roots", st.fixed_dictionaries({
    "n": st.integers(1, 5), "delta": st.lists(st.tuples(logfl(1e-9, 0.3), st.booleans()).map(list), min_size=5, max_size=5),
    "num": st.sampled_from([1, 5, 40, 400]), "more": st.integers(0, 4), "seed": seeds(), "lead": st.sampled_from([[], [], [2]])}),
    quick=300, thorough=5000,
    rule="roots of modulus 1 +- (1e-9...0.3): the stable prediction is the sum of the terms with roots inside the unit circle, "
         "the plain one the sum of all terms")
def check_marginal(case):
    rg = rng(case["seed"])
    n, num, lead = case["n"], case["num"], tuple(case["lead"])
    rad = np.array([1 + d if grow else 1 - min(d, 0.3) for d, grow in case["delta"]])[:n]
    ang = 2*np.pi*(np.arange(n) + 0.25)/n + rg.uniform(-0.2, 0.2, size=n)
    w = rad*np.exp(1j*ang)
    pc = np.poly(w)[1:].astype(complex)
    start = n + case["more"]
    # amplitudes of the terms at the last given point
    c = rg.uniform(0.5, 1.5, size=(*lead, n))*np.exp(2j*np.pi*rg.uniform(size=(*lead, n)))
    k = np.arange(-start + 1, num + 1)
    x = np.sum(c[..., None]*w[:, None]**k[:start], axis=-2)
    stable = pristine(lp.predict, x, pc, num=num, stable=True)
    has_shape(stable, (*lead, start + num), "stable prediction")
    close(stable[..., :start], x, rtol=0, atol=0, what="given data")
    inside = abs(w) <= 1
    want = np.sum(np.where(inside, c, 0)[..., None]*w[:, None]**np.where(inside[:, None], k[start:], 0), axis=-2)
    size = np.sum(abs(c), axis=-1, keepdims=True)*np.max(abs(w[:, None]**k[:start]))
    close(stable[..., start:], want, rtol=0, atol=1e-9*num, scale=size, what=f"stable prediction, |roots| - 1 = {abs(w) - 1}")
    bound = np.sum(np.where(inside, abs(c), 0), axis=-1, keepdims=True)
    ensure(np.all(abs(stable[..., start:]) <= bound + 1e-9*num*size), "stable prediction grows")
    full = np.sum(c[..., None]*w[:, None]**k[start:], axis=-2)
    close(lp.predict(x, pc, num=num)[..., start:], full, rtol=1e-7, atol=1e-9*num, scale=size*np.max(abs(w))**num, what="plain prediction")
    return "growing" if np.any(~inside) else "decaying"



@facet("C24", "coefficients", enlarged(signal_case(), noise=st.sampled_from([0, 0, 1, 2, 3, 4, 5])), quick=500, thorough=6000,
       rule="covariance coefficients solve the least-squares problem; Burg coefficients equal a scalar reference and are stable")
def check_pcoeff(case):
    rg = rng(case["seed"])
    n = max(case["n"], 4)
    shape = (*case["lead"], n)
    x = rg.normal(size=shape) + 1j*rg.normal(size=shape)*case["complex"]
    if case.get("noise"):  # almost predictable signal
        x = np.exp(1j*np.multiply.outer(rg.uniform(0.2, 3, size=case["lead"]), np.arange(n))) + 10.**-case["noise"]*x
    x = np.ascontiguousarray(x if case["complex"] else x.real)
    order = min(case["order"], n - 2)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        pc, err = pristine(lp.pcoeff_covar, x, order=order)
    warned = any("under-determined" in str(w.message) for w in rec)
    ensure(warned == (order > n//2), f"warning for order={order}, n={n}: {warned}")
    has_shape(pc, (*case["lead"], order), "pcoeff_covar")
    for idx in np.ndindex(*case["lead"]):
        xx = x[idx]
        mat = np.array([[xx[t - 1 - k] for k in range(order)] for t in range(order, n)])
        res = xx[order:] + mat @ pc[idx]
        close(err[idx], np.linalg.norm(res), rtol=1e-9, atol=1e-10*np.max(abs(x)), what="pcoeff_covar: error")
        best = np.linalg.lstsq(mat, -xx[order:], rcond=None)[0]
        opt = np.linalg.norm(xx[order:] + mat @ best)
        ensure(np.linalg.norm(res) <= opt*(1 + 1e-8) + 1e-8*np.max(abs(x)), "pcoeff_covar: not the least-squares optimum")
        grad = mat.conj().T @ res
        ensure(np.max(abs(grad)) <= 1e-8*np.linalg.norm(mat)*(np.linalg.norm(xx)), "pcoeff_covar: normal equations")
    raises(ValueError, lambda: lp.pcoeff_covar(x, order=n), "order >= number of points")
    ints = rg.integers(-9, 10, size=n)
    if np.any(ints) and case["n"] < 40:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            for fct in (lp.pcoeff_covar, lp.pcoeff_burg):
                one, two = fct(ints, order=min(order, n//2)), fct(ints.astype(float), order=min(order, n//2))
                close(one[0], two[0], rtol=1e-12, atol=1e-12, what=f"{fct.__name__} for integer data")
                close(one[1], two[1], rtol=1e-12, atol=1e-12, what=f"{fct.__name__} for integer data: error")
    # Burg
    aa, sig2 = pristine(lp.pcoeff_burg, x, order=order)
    has_shape(aa, (*case["lead"], order), "pcoeff_burg")
    has_shape(sig2, case["lead"], "pcoeff_burg: variance")
    for idx in np.ndindex(*case["lead"]):
        fw, bw = x[idx][1:].astype(complex), x[idx][:-1].astype(complex)
        a = np.zeros(0, dtype=complex)
        power = np.mean(abs(x[idx])**2)
        for _ in range(order):
            kk = -2*np.sum(fw*bw.conj())/np.sum(abs(fw)**2 + abs(bw)**2)
            a = np.r_[a + kk*a[::-1].conj(), kk]
            power *= 1 - abs(kk)**2
            fw, bw = fw[1:] + kk*bw[1:], bw[:-1] + kk.conj()*fw[:-1]
        close(aa[idx], a if case["complex"] else a.real, rtol=1e-8, atol=1e-9, what="pcoeff_burg")
        close(sig2[idx], power, rtol=1e-8, atol=1e-13*np.mean(abs(x[idx])**2), what="pcoeff_burg: variance")
        roots = np.roots(np.r_[1, aa[idx]])
        ensure(np.all(abs(roots) <= 1 + 1e-6), lambda: f"pcoeff_burg: growing root {np.max(abs(roots))}")
    return "under-determined" if warned else "determined"


@facet("C24", "companion", signal_case(), quick=300, thorough=4000,
       rule="companion matrix has the roots of the polynomial as eigenvalues, for stacks")
def check_companion(case):
    rg = rng(case["seed"])
    n = case["order"] + 1
    a = rg.normal(size=(*case["lead"], n)) + 1j*rg.normal(size=(*case["lead"], n))*case["complex"]
    a = a if case["complex"] else a.real
    a[..., 0] = rg.uniform(0.5, 2, size=case["lead"])*rg.choice([1, -1], size=case["lead"])
    comp = pristine(lp.companion, a)
    has_shape(comp, (*case["lead"], n - 1, n - 1), "companion")
    for idx in np.ndindex(*case["lead"]):
        want = np.zeros((n - 1, n - 1), dtype=a.dtype)
        want[0] = -a[idx][1:]/a[idx][0]
        for i in range(1, n - 1):
            want[i, i - 1] = 1
        close(comp[idx], want, rtol=1e-13, what="companion matrix")
        char = np.poly(comp[idx])
        close(char, a[idx]/a[idx][0], rtol=1e-7, atol=1e-8*np.max(abs(char)), what="characteristic polynomial")
    ints = np.array([2, -3, 1])
    close(lp.companion(ints), np.array([[1.5, -0.5], [1, 0]]), what="integer polynomial")
    raises(ValueError, lambda: lp.companion(a[(0,)*len(case["lead"])][:1]), "constant polynomial")
    bad = a.copy()
    bad[..., 0] = 0
    raises(ValueError, lambda: lp.companion(bad), "vanishing leading coefficient")
    if case["lead"] and case["lead"][0] > 1:  # only one of them
        bad = a.copy()
        bad[(0,)*len(case["lead"]) + (0,)] = 0
        raises(ValueError, lambda: lp.companion(bad), "one vanishing leading coefficient")
    return "complex" if case["complex"] else "real"


def drawn_points(axis, groups=False):
    """Points marked in the `axis`."""
    pts = [np.asarray(coll.get_offsets(), dtype=float).reshape(-1, 2) for coll in axis.collections if len(coll.get_offsets())]
    pts += [np.asarray(line.get_xydata(), dtype=float) for line in axis.lines if line.get_marker() not in (None, "None", "", " ")]
    pts = [p[:, 0] + 1j*p[:, 1] for p in pts if len(p)]
    return pts if groups else np.concatenate([*pts, np.zeros(0)])


def same_points(got, want, tol, what):
    got, want = list(got), list(want)
    ensure(len(got) == len(want), f"{what}: {len(got)} points instead of {len(want)}")
    for w in want:
        idx = int(np.argmin([abs(g - w) for g in got]))
        ensure(abs(got[idx] - w) <= tol, f"{what}: {w} is missing, closest {got[idx]}")
        del got[idx]


@facet("C24", "plot", signal_case(), quick=40, thorough=600,
       rule="plot_roots marks all roots of the prediction polynomial, the unstable ones apart from the stable ones, in the given axis")
def check_plot_roots(case):
    import matplotlib.pyplot as plt
    rg = rng(case["seed"])
    n = case["order"]
    roots = rg.uniform(0.2, 1.6, size=n)*np.exp(1j*(2*np.pi*np.arange(n)/n + rg.uniform(-0.2, 0.2, size=n)))
    roots = np.where(abs(abs(roots) - 1) < 0.05, 0.7*roots, roots)
    pcoeff = np.poly(roots)[1:]
    fig, axes = plt.subplots(1, 2)
    try:
        if case["seed"] % 2:  # current axis
            plt.sca(axes[0])
            axis = pristine(lp.plot_roots, pcoeff)
        else:
            plt.sca(axes[1])
            axis = pristine(lp.plot_roots, pcoeff, axis=axes[0])
        ensure(axis is axes[0], "plot_roots: other axis")
        ensure(not drawn_points(axes[1]).size, "plot_roots: draws in other axes")
        same_points(drawn_points(axis), roots, 1e-6, "plot_roots")
        for grp in drawn_points(axis, groups=True):
            ensure(len(set((abs(grp) <= 1).tolist())) == 1, "stable and unstable roots are not distinguished")
    finally:
        plt.close(fig)
    return str(n)


# ---------------------------------------------------------------------------
# C25
# ---------------------------------------------------------------------------
@st.composite
def zp_case(draw):
    return {"nz": draw(st.integers(0, 5)), "np": draw(st.integers(0, 5)), "lead": draw(st.sampled_from([[], [], [2], [2, 3], [1]])),
            "out": draw(st.sampled_from([[], [4], [3], [1]])), "seed": draw(seeds()), "real": draw(st.booleans()), "scale": draw(logfl(0.1, 10))}


@facet("C25", "zero_pole", zp_case(), quick=700, thorough=8000,
       rule="product formula, reciprocal, conversion to polynomials and partial fractions evaluate to the same values")
def check_zeropole(case):
    rg = rng(case["seed"])
    s, lead = case["scale"], tuple(case["lead"])
    nz, npl = case["nz"], case["np"]
    zeros = s*(rg.uniform(-1, 1, size=(*lead, nz)) + 1j*rg.uniform(-1, 1, size=(*lead, nz))*(not case["real"]))
    poles = s*(np.linspace(-1, 1, npl) + rg.uniform(-0.1, 0.1, size=(*lead, npl)) - 0.5j)
    if case["real"]:
        zeros = zeros.real
    amp = rg.uniform(0.5, 2, size=lead) + 1j*rg.uniform(-1, 1, size=lead)*[1, 1e-3, 1e-9, 0][case["seed"] % 4]
    out = case["out"] if not lead else list(lead)
    if lead and case["seed"] % 2:
        out = [4, *lead]
    x = np.asarray(s*(rg.uniform(-2, 2, size=out) + 1j*rg.uniform(0.2, 2, size=out)))
    fct = ZeroPole(zeros, poles, amp if lead else complex(amp))
    want = np.ones(np.broadcast_shapes(x.shape, lead), dtype=complex)*amp
    for i in range(nz):
        want = want*(x - zeros[..., i])
    for i in range(npl):
        want = want/(x - poles[..., i])
    got = pristine(fct.eval, x)
    close(got, want, rtol=1e-11, what="ZeroPole.eval")
    close(pristine(fct.reciprocal, x), 1/want, rtol=1e-10, what="ZeroPole.reciprocal")
    close(ZeroPole(zeros, poles).eval(x)*amp, want, rtol=1e-11, what="default amplitude")
    back = ZeroPole(poles, zeros, 1/np.asarray(amp))
    close(back.eval(x), 1/want, rtol=1e-10, what="exchanged zeros and poles")
    if not lead:
        rat = fct.to_ratpol()
        ensure(isinstance(rat, RatPol), "to_ratpol: type")
        cond = np.prod([abs(x)[..., None] + abs(zeros)], axis=-1)
        close(rat.eval(x), want, rtol=1e-9, atol=1e-11*np.max(cond), what="to_ratpol")
        ensure(rat.numer.degree() == nz and rat.denom.degree() == npl, "to_ratpol: degrees")
        close(rat.numer.coef[-1]/rat.denom.coef[-1], complex(amp), rtol=1e-13, what="to_ratpol: large z limit")
        with np.errstate(all="ignore"):
            if npl:
                close(fct.reciprocal(poles), np.zeros(npl), rtol=0, atol=0, what="reciprocal at the poles")
            if nz:
                close(fct.eval(zeros), np.zeros(nz), rtol=0, atol=0, what="value at the zeros")
        close(RatPol(numer=rat.denom, denom=rat.numer).eval(x), 1/want, rtol=1e-8, atol=1e-8*np.max(abs(1/want)), what="inverse RatPol")
        close(fct.eval(x.tolist()), want, rtol=1e-11, what="list argument")
    if npl > nz:  # partial fractions
        res = np.ones((*lead, npl), dtype=complex)*np.asarray(amp)[..., None]
        for j in range(npl):
            for i in range(nz):
                res[..., j] *= poles[..., j] - zeros[..., i]
            for k in range(npl):
                if k != j:
                    res[..., j] /= poles[..., j] - poles[..., k]
        mag = np.sum(abs(res)[..., :]/abs(x[..., None] - poles), axis=-1)
        for cls in (PoleFct, PoleGf):
            close(cls(poles=poles, residues=res).eval_z(x)/mag, want/mag, rtol=1e-8, atol=1e-10, what=f"{cls.__name__}.eval_z")
        pad = polepade.PadeApprox(zeros=zeros, poles=poles, residues=res, amplitude=amp)
        close(pad.eval_polefct(x)/mag, want/mag, rtol=1e-8, atol=1e-10, what="PadeApprox.eval_polefct")
        close(pad.eval_zeropole(x), want, rtol=1e-10, what="PadeApprox.eval_zeropole")
        if npl > nz + 1 or True:  # moments: leading one is the amplitude for degree -1
            mom = pad.moments(np.arange(1, 4))
            for i in range(3):
                close(mom[..., i], np.sum(res*poles**i, axis=-1), rtol=1e-9, atol=1e-9*np.max(np.sum(abs(res), axis=-1))*(2*s)**i,
                      what="moments")
            if npl == nz + 1:
                close(mom[..., 0], amp + 0j, rtol=1e-7, atol=1e-9*np.max(np.sum(abs(res), axis=-1)), what="leading moment is the amplitude")
    return f"{nz}/{npl}"


@facet("C25", "amplitudes", zp_case(), quick=200, thorough=3000,
       rule="amplitudes of 1e-250 to 1e250 scale evaluation, reciprocal and conversion homogeneously")
def check_amplitudes(case):
    rg = rng(case["seed"])
    s, lead = case["scale"], tuple(case["lead"])
    zeros = s*(rg.uniform(-1, 1, size=(*lead, case["nz"])) + 1j*rg.uniform(-1, 1, size=(*lead, case["nz"])))
    poles = s*(rg.uniform(-1, 1, size=(*lead, case["np"])) - 0.5j)
    out = list(lead) if lead else case["out"]
    x = np.asarray(s*(rg.uniform(-2, 2, size=out) + 1j*rg.uniform(0.2, 2, size=out)))
    fac = 10.0**rg.uniform(-250, 250)
    amp = rg.uniform(0.5, 2, size=lead)*np.exp(1j*rg.uniform(-3, 3, size=lead))
    small = ZeroPole(zeros, poles, amp)
    large = ZeroPole(zeros, poles, amp*fac)
    want = small.eval(x)
    close(large.eval(x)/fac, want, rtol=1e-12, what="ZeroPole.eval is linear in the amplitude")
    close(large.reciprocal(x)*fac, 1/want, rtol=1e-11, what="ZeroPole.reciprocal is inverse in the amplitude")
    if not lead:
        cond = np.prod([abs(x)[..., None] + abs(zeros)], axis=-1)
        close(large.to_ratpol().eval(x)/fac, small.to_ratpol().eval(x), rtol=1e-9, atol=1e-10*np.max(cond), what="to_ratpol")
    pad = polepade.PadeApprox(zeros=zeros, poles=poles, residues=np.ones_like(poles)*fac, amplitude=amp*fac)
    close(pad.eval_zeropole(x)/fac, want, rtol=1e-12, what="PadeApprox.eval_zeropole is linear in the amplitude")
    close(pad.moments([1])/fac, np.full((*lead, 1), case["np"]) + 0j, rtol=1e-12, what="moments are linear in the residues")
    return "tiny" if fac < 1e-100 else "huge" if fac > 1e100 else "moderate"


@facet("C25", "constant_degree", zp_case(), quick=250, thorough=3000,
       rule="equal numbers of zeros and poles: pole form with the amplitude as constant")
def check_degree0(case):
    case = {**case, "nz": case["np"]}
    rg = rng(case["seed"])
    s, npl = case["scale"], case["np"]
    zeros = s*(rg.uniform(-1, 1, size=npl) + 1j*rg.uniform(-1, 1, size=npl))
    poles = s*(np.linspace(-1, 1, npl) + rg.uniform(-0.1, 0.1, size=npl) - 0.5j)
    amp = complex(rg.uniform(0.5, 2), rg.uniform(-1, 1))
    res = np.array([amp*np.prod(poles[j] - zeros)/np.prod(poles[j] - np.delete(poles, j)) for j in range(npl)], dtype=complex)
    x = s*(rg.uniform(-2, 2, size=case["out"]) + 1j*rg.uniform(0.2, 2, size=case["out"]))
    pad = polepade.PadeApprox(zeros=zeros, poles=poles, residues=res, amplitude=amp)
    want = ZeroPole(zeros, poles, amp).eval(x)
    mag = abs(amp) + np.sum(abs(res)/abs(np.asarray(x)[..., None] - poles), axis=-1)
    close(pad.eval_polefct(x)/mag, want/mag, rtol=1e-8, atol=1e-10, what="eval_polefct with constant")
    close(pad.eval_zeropole(x), want, rtol=1e-10, what="eval_zeropole")
    return str(npl)


@facet("C25", "plot", zp_case(), quick=32, thorough=400,
       rule="PadeApprox.plot marks all poles and zeros in the given axis, with the residues as arrows")
def check_plot_poles(case):
    import matplotlib.pyplot as plt
    rg = rng(case["seed"])
    s, nz, npl = case["scale"], max(case["nz"], 1), max(case["np"], 1)
    zeros = s*(rg.uniform(-1, 1, size=nz) + 1j*rg.uniform(-1, 1, size=nz))
    poles = s*(np.linspace(-1, 1, npl) + rg.uniform(-0.1, 0.1, size=npl) - 0.5j)
    res = rg.normal(size=npl) + 1j*rg.normal(size=npl)
    pad = polepade.PadeApprox(zeros=zeros, poles=poles, residues=res, amplitude=1.)
    fig, axes = plt.subplots(1, 2)
    try:
        plt.sca(axes[case["seed"] % 2])
        arrows = bool(case["lead"])
        pad.plot(residue=arrows, **({} if case["seed"] % 2 == 0 else {"axis": axes[0]}))
        ensure(not drawn_points(axes[1]).size, "PadeApprox.plot: draws in other axes")
        quiver = [c for c in axes[0].collections if hasattr(c, "U")]
        ensure(bool(quiver) == arrows, "residues drawn" if quiver else "residues not drawn")
        for quiv in quiver:
            xy = np.asarray(quiv.get_offsets(), dtype=float)
            same_points(xy[:, 0] + 1j*xy[:, 1] + 1e3*(np.asarray(quiv.U) + 1j*np.asarray(quiv.V)), poles + 1e3*res, 1e-9*(1e3 + s), "arrows")
            quiv.remove()
        same_points(drawn_points(axes[0]), np.concatenate([poles, zeros]), 1e-9*s, "PadeApprox.plot")
        for grp in drawn_points(axes[0], groups=True):
            ensure(len({bool(np.min(abs(poles - g)) < 1e-9*s) for g in grp}) == 1, "poles and zeros are not distinguished")
    finally:
        plt.close(fig)
    return f"{nz}/{npl}"


# ---------------------------------------------------------------------------
# large problems
# ---------------------------------------------------------------------------
facet("C22", "large", enlarged(noisy_case(), n=logint(40, 600)), quick=60, rule="least-squares residues for up to 600 points")(check_residues)
facet("C24", "large", enlarged(signal_case(), n=logint(40, 800), order=logint(2, 40), num=logint(20, 200)), quick=60,
      rule="up to 800 points, 40 coefficients, 200 predicted points")(check_recursion)
facet("C24", "large_coefficients", enlarged(signal_case(), n=logint(40, 400), order=logint(2, 30)), quick=60,
      rule="coefficients for up to 400 points")(check_pcoeff)
facet("C25", "large", enlarged(zp_case(), nz=logint(5, 24), np=logint(5, 24)), quick=60, rule="up to 24 zeros and poles")(check_zeropole)
