"""C14 - C17: matrix decompositions, constrained least squares, SIAM, few-site models."""
import mpmath as mp
import numpy as np
import scipy.linalg as spla
from hypothesis import strategies as st

import gftool as gt
from gftool import linalg as gl
from gftool import matrix as gm
from gftool import siam
from vlib.core import Inconclusive, close, ensure, facet, has_shape, pristine, raises
from vlib.gen import cplx, fl, logfl, logint, rng, seeds, sign, toc

LEAD = st.sampled_from([[], [], [2], [1], [3], [2, 2]])
KINDS = ["mat", "cmat", "sym", "csym", "her", "diag", "degen", "sdegen", "csdegen", "nearsym", "int"]


@st.composite
def mat_case(draw, kinds=KINDS):
    n = draw(st.integers(1, 6))
    return {"n": n, "lead": draw(LEAD), "kind": draw(st.sampled_from(kinds)), "seed": draw(seeds()),
            "scale": draw(logfl(1e-3, 1e3)), "z": draw(st.lists(cplx(fl(-3, 3), st.tuples(logfl(0.05, 3), sign()).map(
                lambda t: t[0]*t[1])), min_size=1, max_size=3))}


def make_mat(case):
    rg = rng(case["seed"])
    n, kind = case["n"], case["kind"]
    a = rg.normal(size=(*case["lead"], n, n))
    b = a + 1j*rg.normal(size=a.shape)
    sw = np.swapaxes
    if kind == "mat":
        m = a
    elif kind == "cmat":
        m = b
    elif kind == "sym":
        m = a + sw(a, -1, -2)
    elif kind == "csym":
        m = b + sw(b, -1, -2)
    elif kind == "her":
        m = b + sw(b, -1, -2).conj()
    elif kind == "diag":
        m = np.zeros(a.shape)
        m[..., range(n), range(n)] = rg.integers(-2, 3, size=(*case["lead"], n))
    elif kind == "degen":  # Hermitian with degenerate eigenvalues
        q, _ = np.linalg.qr(b)
        m = (q*rg.integers(-1, 2, size=(*case["lead"], 1, n))) @ sw(q, -1, -2).conj()
        m = 0.5*(m + sw(m, -1, -2).conj())
    elif kind in ("sdegen", "csdegen"):  # (complex) symmetric with degenerate eigenvalues
        q, _ = np.linalg.qr(a)
        m = (q*rg.integers(-1, 2, size=(*case["lead"], 1, n))) @ sw(q, -1, -2)
        if kind == "csdegen":
            core = np.zeros(a.shape, dtype=complex)
            for k in range(0, n - 1, 2):
                core[..., k:k+2, k:k+2] = [[1, 0.3j], [0.3j, 2]]
            m = q @ core @ sw(q, -1, -2)
        m = 0.5*(m + sw(m, -1, -2))
    elif kind == "nearsym":
        m = a + sw(a, -1, -2) + 1e-3*b
    else:
        m = rg.integers(-3, 4, size=a.shape)
        m = m + sw(m, -1, -2)
        return m
    return m*case["scale"]


def decompositions(case, m):
    """Applicable decompositions with their numerical condition."""
    kind = case["kind"]
    out = [("decompose_mat", gm.decompose_mat)]
    if kind in ("sym", "csym", "diag", "int", "sdegen", "csdegen"):
        out.append(("decompose_sym", gm.decompose_sym))
    if kind in ("sym", "her", "diag", "degen", "int", "sdegen"):
        out.append(("decompose_her", gm.decompose_her))
    return out


def decompose(case, name, fct, m):
    """Decomposition, None where `eig` finds no complete set of eigenvectors of a degenerate matrix."""
    try:
        return pristine(fct, m)
    except np.linalg.LinAlgError:
        if name != "decompose_her" and case["kind"] in ("degen", "sdegen", "csdegen", "int"):
            return None
        raise


def cond(x):
    return float(np.max(np.linalg.cond(x))) if x.size else 1.0


@facet("C14", "decompose", mat_case(), quick=450,
       rule="decompositions of (stacks of) matrices: eigenpairs, inverse, reconstruction of the matrix")
def check_decompose(case):
    m = make_mat(case)
    scale = max(np.max(abs(m)), 1e-10)
    n = case["n"]
    decided = 0
    for name, fct in decompositions(case, m):
        dec = decompose(case, name, fct, m)
        if dec is None:
            continue
        rv, eig, rv_inv = dec
        ensure(len(dec) == 3 and dec[0] is rv and dec[1] is eig and dec[2] is rv_inv, f"{name}: not a sequence of three")
        has_shape(rv, m.shape, f"{name}.rv")
        has_shape(eig, m.shape[:-1], f"{name}.eig")
        has_shape(rv_inv, m.shape, f"{name}.rv_inv")
        kappa = cond(rv)
        if not kappa < 1e5:  # eig may return dependent vectors for degenerate matrices
            ensure(name != "decompose_her", f"decompose_her: condition {kappa} of the eigenvectors")
            continue
        decided += 1
        atol = 1e-12*kappa**2*scale*n
        close(m @ rv, rv*eig[..., None, :], rtol=0, atol=atol*np.max(abs(rv)), what=f"{name}: eigenvector equation")
        close(rv @ rv_inv, np.broadcast_to(np.eye(n), m.shape), rtol=0, atol=1e-12*kappa**2*n, what=f"{name}: rv_inv")
        close(dec.reconstruct(), m, rtol=0, atol=atol, what=f"{name}: reconstruct()")
        close(dec.reconstruct(kind="full"), m, rtol=0, atol=atol, what=f"{name}: reconstruct(kind='full')")
        close(dec.reconstruct(kind="diag"), np.diagonal(m, axis1=-1, axis2=-2), rtol=0, atol=atol,
              what=f"{name}: reconstruct(kind='diag')")
        if name == "decompose_her":
            close(rv @ np.swapaxes(rv, -1, -2).conj(), np.broadcast_to(np.eye(n), m.shape), rtol=0, atol=1e-11*n, what="unitarity")
            ensure(np.isrealobj(eig) and np.all(np.diff(eig, axis=-1) >= 0), "decompose_her: eigenvalues not real ascending")
            ensure(dec.u is dec.rv and dec.uh is dec.rv_inv, "UDecomposition.u/uh")
            sv = np.linalg.svd(m, compute_uv=False)
            close(dec.s, sv, rtol=0, atol=1e-11*scale*n, what="UDecomposition.s")
        if name == "decompose_sym" and case["kind"] in ("sym", "csym"):
            close(np.swapaxes(rv, -1, -2) @ rv, np.broadcast_to(np.eye(n), m.shape), rtol=0, atol=1e-7*kappa**4,
                  what="decompose_sym: almost orthogonal") if kappa < 30 and gap(eig) > 1e-3*scale else None
    if not decided:
        raise Inconclusive
    return case["kind"]


def gap(eig):
    if eig.shape[-1] < 2:
        return np.inf
    diff = abs(eig[..., :, None] - eig[..., None, :]) + np.where(np.eye(eig.shape[-1], dtype=bool), np.inf, 0)
    return float(np.min(diff))


@facet("C14", "greens_function", mat_case(), quick=450,
       rule="1/(z - eigenvalues) reconstructed equals the matrix inverse; diagonal and einsum variants; stacks vs. single")
def check_matrix_gf(case):
    m = make_mat(case)
    n, lead = case["n"], tuple(case["lead"])
    scale = max(np.max(abs(m)), 1e-10)
    z = toc(case["z"])*scale
    zb = z.reshape(z.shape + (1,)*len(lead))
    ref = np.linalg.inv(zb[..., None, None]*np.eye(n) - m)
    refd = np.diagonal(ref, axis1=-1, axis2=-2)
    decided = 0
    for name, fct in decompositions(case, m):
        dec = decompose(case, name, fct, m)
        if dec is None:
            continue
        kappa = cond(dec.rv)
        if not kappa < 1e4:
            continue
        decided += 1
        eig = 1/(zb[..., None] - dec.eig)
        close(dec.eig.sum(axis=-1), np.trace(m, axis1=-1, axis2=-2), rtol=0, atol=1e-10*scale*n, what=f"{name}: trace")
        atol = 1e-11*kappa**2*n*np.max(abs(ref))*max(1, np.max(abs(ref))*scale)
        close(dec.reconstruct(eig), ref, rtol=0, atol=atol, what=f"{name}: Green's function")
        close(dec.reconstruct(eig, kind="full"), ref, rtol=0, atol=atol, what=f"{name}: full Green's function")
        close(dec.reconstruct(eig, kind="diag"), refd, rtol=0, atol=atol, what=f"{name}: diagonal Green's function")
        close(dec.reconstruct(eig=eig, kind="...ij, ...j, ...ji -> ...i"), refd, rtol=0, atol=atol, what=f"{name}: einsum kind")
        close(dec.reconstruct(eig=eig, kind="...ij,...j,...jk->...ki"), np.swapaxes(ref, -1, -2), rtol=0, atol=atol, what=f"{name}: transposed einsum kind")
        close(dec.reconstruct(eig=eig, kind="...ij,...j,...jk->...ik"), ref, rtol=0, atol=atol, what=f"{name}: full einsum kind")
        if not lead:
            for kind, want in (("ik,k,kj->ij", ref[0]), ("ik, k, kj -> ji", ref[0].T), ("ab,b,bc->ca", ref[0].T), ("ab,b,ba->a", refd[0]),
                               ("ij,j,ji", np.trace(ref[0])), ("Ij,j,jI->I", refd[0])):
                close(dec.reconstruct(eig[0], kind=kind), want, rtol=0, atol=n*atol, what=f"{name}: einsum {kind}")
        # in-place use: the eigenvalues may be overwritten
        before = dec.reconstruct()
        close(dec.reconstruct(), before, rtol=0, atol=0, what=f"{name}: reconstruct is repeatable")
        dec.eig = 1/(z[0] - dec.eig)
        close(dec.reconstruct(), ref[0], rtol=0, atol=atol, what=f"{name}: modified eig")
        if lead:
            idx = tuple(s - 1 for s in lead)
            one = fct(m[idx])
            close(one.reconstruct(1/(z[:, None] - one.eig)), ref[(slice(None), *idx)], rtol=0, atol=atol,
                  what=f"{name}: single matrix of the stack")
    if not decided:
        raise Inconclusive
    return case["kind"]


@facet("C14", "deprecated", mat_case(kinds=["sym", "her", "cmat"]), quick=80,
       rule="deprecated wrappers and construct_gf give the same decompositions")
def check_deprecated(case):
    case = {**case, "lead": []}
    m = make_mat(case)
    if case["kind"] != "cmat":
        dec = gm.decompose_hamiltonian(m)
        close(dec.reconstruct(), m, rtol=0, atol=1e-11*np.max(abs(m))*case["n"], what="decompose_hamiltonian")
        ensure(gm.UDecomposition.from_hamiltonian(dec) is dec, "from_hamiltonian of decomposition")
        dec = gm.Decomposition.from_hamiltonian(m)
    else:
        dec = gm.decompose_gf(m)
        close(gm.Decomposition.from_gf(m).reconstruct(), dec.reconstruct(), rtol=0, atol=1e-12*np.max(abs(m)), what="from_gf")
        ensure(gm.Decomposition.from_gf(dec) is dec, "from_gf of decomposition")
    kappa = cond(dec.rv)
    if kappa > 1e4:
        raise Inconclusive
    z = toc(case["z"])[0]*np.max(abs(m))
    ref = np.linalg.inv(z*np.eye(case["n"]) - m)
    close(gm.construct_gf(rv=dec.rv, diag_inv=1/(z - dec.eig), rv_inv=dec.rv_inv), ref, rtol=0,
          atol=1e-10*kappa**2*np.max(abs(ref))*max(1, np.max(abs(ref))*np.max(abs(m))), what="construct_gf")


@facet("C14", "rejects", st.fixed_dictionaries({"n": st.integers(2, 5), "lead": LEAD, "seed": seeds(), "amount": logfl(1e-3, 10.),
                                                "kind": st.sampled_from(["sym", "csym", "her"]), "i": st.integers(0, 4)}),
       quick=150, rule="non-symmetric / non-Hermitian matrices (one bad element in a stack) raise, unless check=False")
def check_mat_rejects(case):
    m = make_mat({**case, "scale": 1.0})
    fct = gm.decompose_her if case["kind"] == "her" else gm.decompose_sym
    fct(m)
    bad = m.copy()
    i = case["i"] % (case["n"] - 1)
    bad[(*(s - 1 for s in case["lead"]), i, i + 1)] += case["amount"]
    raises(ValueError, lambda: fct(bad), f"{fct.__name__} of a wrong matrix")
    fct(bad, check=False)
    if case["kind"] == "csym" and case["n"] > 1:
        raises(ValueError, lambda: gm.decompose_her(m), "decompose_her of complex symmetric matrix")
    if case["kind"] == "her":
        raises(ValueError, lambda: gm.decompose_sym(m), "decompose_sym of Hermitian matrix")
        bad = m.copy()
        bad[..., 0, 0] += 1j*case["amount"]
        raises(ValueError, lambda: gm.decompose_her(bad), "decompose_her with complex diagonal")


@facet("C14", "gf_2x2", st.fixed_dictionaries({
    "e0": cplx(fl(-3, 3), st.one_of(st.just(0.0), fl(-1, 0))), "e1": cplx(fl(-3, 3), st.one_of(st.just(0.0), fl(-1, 0))),
    "t": cplx(st.one_of(fl(-2, 2), logfl(1e-6, 1e-2)), st.one_of(st.just(0.0), fl(-2, 2))), "z": st.lists(cplx(fl(-4, 4), logfl(0.05, 3.)), min_size=1, max_size=4),
    "form": st.sampled_from(["plain", "hilbert", "broadcast"]), "d": logfl(0.3, 3.)}), quick=350,
    rule="closed 2x2 formula against the matrix inverse; with Hilbert transform against diagonalisation")
def check_2x2(case):
    e0, e1, t = (complex(*case[k]) for k in ("e0", "e1", "t"))
    if abs(e0 - e1)**2/4 + abs(t)**2 < 1e-12:
        return False
    z = toc(case["z"])
    if abs(np.sqrt((e0 - e1)**2/4 + abs(t)**2 + 0j)) < 1e-4:
        raise Inconclusive
    ham = np.array([[e0, t], [np.conj(t), e1]])
    if e0.imag == 0 and e1.imag == 0:
        e0, e1 = e0.real, e1.real
    if t.imag == 0:
        t = t.real
    sq = abs(np.sqrt((e0 - e1)**2/4 + abs(t)**2 + 0j))
    if case["form"] == "plain":
        res = pristine(gm.gf_2x2_z, z, eps0=e0, eps1=e1, hopping=t)
        ref = np.diagonal(np.linalg.inv(z[:, None, None]*np.eye(2) - ham), axis1=-1, axis2=-2)
        close(res, ref, rtol=0, atol=1e-11*np.max(abs(ref))*(1 + 1/sq)*(1 + np.max(abs(ref))), what="gf_2x2_z")
        return "plain"
    if case["form"] == "hilbert":
        res = gm.gf_2x2_z(z, eps0=e0, eps1=e1, hopping=t, hilbert_trafo=lambda x: gt.bethe_hilbert_transform(x, case["d"]))
        eig, rv = np.linalg.eig(ham)
        rv_inv = np.linalg.inv(rv)
        kappa = np.linalg.cond(rv)
        if kappa > 1e3 or np.any((z[:, None] - eig).imag <= 1e-3):
            raise Inconclusive
        gg = gt.bethe_gf_z(z[:, None] - eig, half_bandwidth=case["d"])
        ref = np.einsum("ij,zj,ji->zi", rv, gg, rv_inv)
        close(res, ref, rtol=0, atol=1e-9*np.max(abs(gg))*kappa**2*(1 + 1/sq), what="gf_2x2_z(hilbert_trafo)")
        return "hilbert"
    e0s = np.array([e0, e0 + 0.5])
    res = gm.gf_2x2_z(z[:, None], eps0=e0s, eps1=e1 if abs(e1) < 1.5 else np.array([e1, e1]), hopping=t)
    has_shape(res, (z.size, 2, 2), "gf_2x2_z broadcast")
    for i in range(2):
        if abs(np.sqrt((e0s[i] - e1)**2/4 + abs(t)**2 + 0j)) < 1e-4:
            continue
        close(res[:, i], gm.gf_2x2_z(z, eps0=e0s[i], eps1=e1, hopping=t), rtol=1e-9, atol=1e-12, what="broadcast gf_2x2_z")
    return "broadcast"


# ---------------------------------------------------------------------------
# C15
# ---------------------------------------------------------------------------
@st.composite
def ls_case(draw):
    n = draw(st.one_of(st.integers(3, 7), st.integers(1, 7)))
    return {"n": n, "l": draw(st.one_of(st.integers(1, max(1, n - 1)), st.integers(0, n))), "m": draw(st.integers(1, 12)), "seed": draw(seeds()),
            "cplx": draw(st.booleans()), "scale": draw(logfl(1e-2, 1e2)), "kind": draw(st.sampled_from(
                ["generic", "generic", "compatible", "lowrank", "intdata"]))}


@facet("C15", "lstsq_ec", ls_case(), quick=700,
       rule="feasibility, optimality (projected gradient vanishes, no feasible direction improves), compatible constraints")
def check_lstsq_ec(case):
    rg = rng(case["seed"])
    n, m, l, kind = case["n"], case["m"], case["l"], case["kind"]

    def rand(*shape):
        x = rg.normal(size=shape)
        return x + 1j*rg.normal(size=shape) if case["cplx"] else x
    a, b, c, d = rand(m, n), rand(m)*case["scale"], rand(l, n), rand(l)
    if kind == "lowrank" and m > 1 and n > 1:
        a[:, -1] = a[:, 0]
    if kind == "intdata" and not case["cplx"]:
        a, b, c, d = (rg.integers(-5, 6, size=x.shape) for x in (a, b, c, d))
        c = c + 7*np.eye(l, n, dtype=int)
    if kind == "compatible":
        x0 = np.linalg.lstsq(a, b, rcond=None)[0]
        d = c @ x0
    kc = np.linalg.cond(c) if l else 1
    if kc > 1e4:
        raise Inconclusive
    x = pristine(gl.lstsq_ec, a, b, c, d)
    has_shape(x, (n,), "lstsq_ec")
    size = max(np.max(abs(x), initial=0), 1e-3)
    close(c @ x, d, rtol=0, atol=1e-10*kc**2*max(np.max(abs(d), initial=0), size*np.max(abs(c), initial=0), 1e-3), what="constraints")
    # null-space of the constraints
    null = np.eye(n) if l == 0 else np.linalg.svd(c)[2][l:].conj().T
    if null.shape[1] == 0:
        return "square"
    an = a @ null
    rank = np.linalg.matrix_rank(an, tol=1e-6*np.max(abs(a)))
    sv = np.linalg.svd(an, compute_uv=False)
    kn = sv[0]/sv[rank - 1] if rank else 1
    if kn > 1e4:
        raise Inconclusive
    resid = a @ x - b
    grad = an.conj().T @ resid
    close(grad, np.zeros_like(grad), rtol=0, atol=1e-9*kn**2*kc*np.max(abs(a))*(np.max(abs(resid)) + np.max(abs(a))*size + np.max(abs(b)))*n*m,
          what="projected gradient")
    for _ in range(3):
        other = x + null @ rand(null.shape[1])*size
        ensure(np.linalg.norm(a @ other - b) >= np.linalg.norm(resid)*(1 - 1e-9) - 1e-9*np.linalg.norm(b),
               lambda: "another feasible point has a smaller residual")
    if kind == "compatible" and np.linalg.matrix_rank(a, tol=1e-6) == n and np.linalg.cond(a) < 1e4:
        close(x, x0, rtol=0, atol=1e-8*np.linalg.cond(a)*kc*max(np.max(abs(x0)), 1e-3), what="unconstrained solution with compatible constraints")
        return "compatible"
    return f"{kind},l={min(l, 2)}"


@facet("C15", "bad_scaling", st.fixed_dictionaries({
    "n": st.integers(2, 5), "more": st.integers(0, 4), "l": st.integers(1, 3), "seed": seeds(), "cplx": st.booleans(),
    "cols": st.lists(fl(-10, 0), min_size=5, max_size=5), "rows": st.sampled_from([0., 0., 3.]), "cons": st.sampled_from([0., 4.])}), quick=150,
    rule="columns, rows and constraints of very different size: residual as small as that of the 80-digit solution")
def check_bad_scaling(case):
    rg = rng(case["seed"])
    n, l = case["n"], min(case["l"], case["n"] - 1)
    m = n + case["more"]

    def rand(*shape):
        x = rg.normal(size=shape)
        return x + 1j*rg.normal(size=shape) if case["cplx"] else x
    a = rand(m, n)*10.**np.array(case["cols"][:n])*10.**(-case["rows"]*rg.uniform(size=(m, 1)))
    b = rand(m)*10.**(-case["rows"]*rg.uniform(size=m))
    c = rand(l, n)*10.**(case["cons"]*rg.uniform(-1, 1, size=(l, 1)))
    x0 = rand(n)*10.**(-np.array(case["cols"][:n]))
    d = c@x0 if case["seed"] % 2 else rand(l)
    if np.linalg.cond(c/np.linalg.norm(c, axis=1, keepdims=True)) > 1e3:
        raise Inconclusive
    with mp.workdps(80):
        am, cm = mp.matrix(a.tolist()), mp.matrix(c.tolist())
        kkt = mp.zeros(n + l, n + l)
        kkt[:n, :n], kkt[:n, n:], kkt[n:, :n] = am.H*am, cm.H, cm
        rhs = mp.matrix(list(am.H*mp.matrix(b.tolist())) + d.tolist())
        ref = mp.lu_solve(kkt, rhs)[:n]
        best = float(mp.norm(am*ref - mp.matrix(b.tolist())))
        size = float(mp.norm(ref))
    x = pristine(gl.lstsq_ec, a, b, c, d)
    has_shape(x, (n,), "lstsq_ec")
    size = max(size, np.linalg.norm(x))
    for i in range(l):
        ensure(abs(c[i]@x - d[i]) <= 1e-11*(np.linalg.norm(c[i])*size + abs(d[i])), lambda: f"constraint {i}: {c[i]@x} instead of {d[i]}")
    slack = 1e-12*(np.linalg.norm(a, 2)*size + np.linalg.norm(b))
    now = np.linalg.norm(a@x - b)
    ensure(now <= best*(1 + 1e-9) + slack, lambda: f"residual {now}, but {best} is possible")
    return "decided" if slack < 0.1*np.linalg.norm(b) else False


@facet("C15", "singular_constraints", st.fixed_dictionaries({
    "n": st.integers(2, 7), "k": st.integers(1, 5), "more": st.integers(1, 4), "m": st.integers(1, 14), "seed": seeds(),
    "cplx": st.booleans(), "zero": st.booleans(), "weak": st.one_of(st.just(1.), logfl(1e-9, 1.)), "bad": st.sampled_from([False, False, True])}), quick=300,
    rule="exactly singular constraints (more constraints than constrained unknowns): compatible ones are fulfilled by a "
         "true minimizer, incompatible ones raise")
def check_singular(case):
    rg = rng(case["seed"])
    n, m = case["n"], case["m"]
    k = min(case["k"], n - 1)
    l = min(k + case["more"], n)

    def rand(*shape):
        x = rg.normal(size=shape)
        return x + 1j*rg.normal(size=shape) if case["cplx"] else x
    a, b, c = rand(m, n), rand(m), np.zeros((l, n)).astype(complex if case["cplx"] else float)
    c[:, :k] = rand(l, k)
    if k > 1 and not case["bad"]:  # a weak, but independent constraint
        left, sval, right = np.linalg.svd(c[:, :k], full_matrices=False)
        sval[-1] *= case["weak"]
        c[:, :k] = (left*sval) @ right
    if case["zero"]:
        c[-1] = 0
    xk = rand(k)
    d = c[:, :k] @ xk
    if case["bad"]:  # push out of the range of the constraints
        out = rand(l)
        out = out - c[:, :k] @ np.linalg.lstsq(c[:, :k], out, rcond=None)[0]
        d = d + out/np.linalg.norm(out)*(1 + np.linalg.norm(d))
        raises(np.linalg.LinAlgError, lambda: gl.lstsq_ec(a, b, c, d), "incompatible singular constraints")
        return "incompatible"
    if np.linalg.cond(c[:, :k]) > 1e3/case["weak"]:
        raise Inconclusive
    x = pristine(gl.lstsq_ec, a, b, c, d)
    has_shape(x, (n,), "lstsq_ec")
    size = max(np.max(abs(x)), 1)
    if np.linalg.cond(c[:, :k]) > 1e3:
        close(c @ x, d, rtol=0, atol=1e-12*(size*np.linalg.norm(c) + np.linalg.norm(d)), what="weak singular constraints")
        return "weak"
    close(c @ x, d, rtol=0, atol=1e-9*size*np.linalg.cond(c[:, :k]), what="singular constraints")
    sv = np.linalg.svd(a[:, k:], compute_uv=False)
    if sv[0] > 1e4*sv[-1]:
        raise Inconclusive
    grad = a[:, k:].conj().T @ (a @ x - b)
    close(grad, np.zeros_like(grad), rtol=0, atol=1e-9*size*n*m*np.max(abs(a))**2*(sv[0]/sv[-1])*np.linalg.cond(c[:, :k]),
          what="gradient with respect to the unconstrained unknowns")
    return "compatible"


@facet("C15", "orth_compl", st.fixed_dictionaries({"n": st.one_of(st.integers(4, 9), st.integers(1, 9)),
                                                   "m": st.one_of(st.integers(1, 3), st.integers(1, 9)), "seed": seeds(),
                                                   "cplx": st.booleans(), "lead": LEAD, "rank": st.booleans()}), quick=350,
       rule="complement is orthonormal, annihilates the matrix and has complementary dimension; wide/square matrices raise")
def check_orth_compl(case):
    rg = rng(case["seed"])
    n, m = case["n"], case["m"]
    a = rg.normal(size=(*case["lead"], n, m))
    if case["cplx"]:
        a = a + 1j*rg.normal(size=a.shape)
    if case["rank"] and m > 1:
        a[..., -1] = a[..., 0]
    if n <= m:
        raises(ValueError, lambda: gl.orth_compl(a), "orth_compl of a matrix which is not tall")
        return "raises"
    perp = pristine(gl.orth_compl, a)
    has_shape(perp, (*case["lead"], n - m, n), "orth_compl")
    close(perp @ a, np.zeros((*case["lead"], n - m, m)), rtol=0, atol=1e-11*np.max(abs(a))*n, what="orth_compl @ mat")
    close(perp @ np.swapaxes(perp, -1, -2).conj(), np.broadcast_to(np.eye(n - m), (*case["lead"], n - m, n - m)),
          rtol=0, atol=1e-11*n, what="orthonormality")
    return "tall"


@facet("C15", "lstsq_edge", st.fixed_dictionaries({"m": st.integers(1, 6), "n": st.integers(0, 4), "seed": seeds(),
                                                   "extra": st.integers(1, 3)}), quick=80,
       rule="no constraints: plain least squares; no unknowns: empty; mismatched empty constraints raise")
def check_lstsq_edge(case):
    rg = rng(case["seed"])
    a, b = rg.normal(size=(case["m"], case["n"])), rg.normal(size=case["m"])
    res = gl.lstsq_ec(a, b, np.zeros((0, case["n"])), np.zeros(0))
    has_shape(res, (case["n"],), "lstsq_ec")
    if case["n"] == 0:
        return "empty"
    close(res, np.linalg.lstsq(a, b, rcond=None)[0], rtol=1e-9, atol=1e-10, what="no constraints")
    raises(ValueError, lambda: gl.lstsq_ec(a, b, np.zeros((0, case["n"])), np.zeros(case["extra"])), "mismatched c, d")


# ---------------------------------------------------------------------------
# C16
# ---------------------------------------------------------------------------
@st.composite
def siam_case(draw):
    nb = draw(st.integers(1, 5))
    return {"nb": nb, "beta": draw(logfl(0.1, 60.)), "seed": draw(seeds()), "cplx": draw(st.booleans()),
            "lead": draw(st.sampled_from([[], [], [2], [3]])), "degen": draw(st.booleans()), "zero": draw(st.booleans()),
            "tt": draw(st.lists(st.one_of(fl(-6, 6), st.just(0.0)), min_size=1, max_size=4)),
            "z": draw(st.lists(cplx(fl(-4, 4), st.tuples(logfl(0.02, 3.), sign()).map(lambda t: t[0]*t[1])), min_size=1, max_size=4))}


def siam_data(case):
    rg = rng(case["seed"])
    lead = tuple(case["lead"])
    e0 = np.asarray(rg.normal(size=lead))
    eb = 2*rg.normal(size=(*lead, case["nb"]))
    v = rg.normal(size=(*lead, case["nb"]))
    if case["cplx"]:
        v = v + 1j*rg.normal(size=v.shape)
    if case["degen"]:
        eb[..., -1] = eb[..., 0]
    if case["zero"]:
        v[..., 0] = 0
    return e0, eb, v


def dense_ham(e0, eb, v):
    n = eb.size + 1
    ham = np.zeros((n, n), dtype=complex)
    ham[0, 0] = e0
    for i in range(eb.size):
        ham[i + 1, i + 1] = eb[i]
        ham[0, i + 1] = v[i]
        ham[i + 1, 0] = np.conj(v[i])
    return ham


@facet("C16", "frequency", siam_case(), quick=350, rule="arrow matrix, hybridisation and resolvent of the one-particle Hamiltonian")
def check_siam_z(case):
    e0, eb, v = siam_data(case)
    lead = tuple(case["lead"])
    z = toc(case["z"])
    ham = pristine(siam.hamiltonian_matrix, e0, e_bath=eb, hopping=v)
    # matrix elements of any numeric type
    whole = siam.hamiltonian_matrix(e0, eb, np.round(v.real).astype(int))
    for idx in np.ndindex(*lead):
        dense = dense_ham(e0[idx], eb[idx], np.round(v[idx].real))
        close(whole[idx], dense, rtol=0, atol=1e-14*np.max(abs(dense)), what="hamiltonian_matrix for integer hopping")
    ints = siam.hamiltonian_matrix(e0, np.round(3*eb).astype(int), np.round(3*v.real).astype(int))
    for idx in np.ndindex(*lead):
        dense = dense_ham(e0[idx], np.round(3*eb[idx]), np.round(3*v[idx].real))
        close(ints[idx], dense, rtol=0, atol=1e-14*np.max(abs(dense)), what="hamiltonian_matrix for an integer bath")
    zs = z.reshape(z.shape + (1,)*len(lead))
    gfz = pristine(siam.gf0_loc_z, zs, e0, eb, abs(v)**2)
    hyb = siam.hybrid_z(zs, eb, abs(v)**2)
    has_shape(ham, (*lead, case["nb"] + 1, case["nb"] + 1), "hamiltonian_matrix")
    has_shape(gfz, (*z.shape, *lead), "gf0_loc_z")
    for idx in np.ndindex(*lead):
        dense = dense_ham(e0[idx], eb[idx], v[idx])
        close(ham[idx], dense, rtol=0, atol=1e-14*np.max(abs(dense)), what="hamiltonian_matrix")
        for i, zi in enumerate(z):
            ref = np.linalg.inv(zi*np.eye(len(dense)) - dense)[0, 0]
            close(gfz[(i, *idx)], ref, rtol=1e-9, atol=1e-11, what="gf0_loc_z")
            close(hyb[(i, *idx)], np.sum(abs(v[idx])**2/(zi - eb[idx])), rtol=1e-11, atol=1e-12, what="hybrid_z")
            close(zi - e0[idx] - hyb[(i, *idx)], 1/ref, rtol=1e-8, atol=1e-9, what="hybridisation connects level and GF")
    return f"lead={len(lead)}"


@st.composite
def sharp_case(draw):
    nb = draw(st.integers(1, 5))
    near = st.fixed_dictionaries({"site": st.integers(0, 9), "dist": logfl(1e-11, 3.), "ang": fl(-3.1, 3.1)})
    return {"nb": nb, "seed": draw(seeds()), "lead": draw(st.sampled_from([[], [], [2], [3]])),
            "logv": draw(st.lists(fl(-18, 3), min_size=nb, max_size=nb)), "near": draw(st.lists(near, min_size=1, max_size=4)),
            "unit": draw(logfl(1e-6, 1e6))}


@facet("C16", "sharp", sharp_case(), quick=250,
       rule="hybridisation strengths and distances to the bath levels differing by many orders of magnitude")
def check_siam_sharp(case):
    rg = rng(case["seed"])
    lead, unit = tuple(case["lead"]), case["unit"]
    e0, eb = unit*np.asarray(rg.normal(size=lead)), 2*unit*rg.normal(size=(*lead, case["nb"]))
    v2 = unit**2*10.**np.array(case["logv"])*rg.uniform(0.5, 1, size=eb.shape)
    for near in case["near"]:
        z = eb[..., near["site"] % case["nb"]] + unit*near["dist"]*np.exp(1j*near["ang"])
        term = v2/(z[..., np.newaxis] - eb)
        mag, ref = np.sum(abs(term), axis=-1), np.sum(term, axis=-1)
        hyb = siam.hybrid_z(z, eb, v2)
        has_shape(hyb, lead, "hybrid_z")
        ensure(np.all(abs(hyb - ref) <= 1e-13*mag), lambda: f"hybrid_z next to a bath level: {hyb} instead of {ref}")
        den = z - e0 - ref
        err = 1e-13*(abs(z) + abs(e0) + mag)/abs(den)
        gfz = siam.gf0_loc_z(z, e0, eb, v2)
        has_shape(gfz, lead, "gf0_loc_z")
        if np.all(err < 1e-3):
            ensure(np.all(abs(gfz*den - 1) <= 2*err), lambda: f"gf0_loc_z next to a bath level: {gfz} instead of {1/den}")
    return "lead" if lead else "scalar"


@facet("C16", "time", siam_case(), quick=350, rule="retarded, greater, lesser functions from matrix exponential and thermal occupation")
def check_siam_t(case):
    e0, eb, v = siam_data(case)
    lead, beta = tuple(case["lead"]), case["beta"]
    tt = np.array(case["tt"], dtype=float)
    ts = tt.reshape(tt.shape + (1,)*len(lead))
    ret = pristine(siam.gf0_loc_ret_t, ts, e0, eb, v)
    gr = pristine(siam.gf0_loc_gr_t, ts, e0, eb, v, beta=beta)
    le = pristine(siam.gf0_loc_le_t, ts, e0, eb, v, beta=beta)
    for name, x in (("ret", ret), ("gr", gr), ("le", le)):
        has_shape(x, (*tt.shape, *lead), f"gf0_loc_{name}_t")
    for idx in np.ndindex(*lead):
        dense = dense_ham(e0[idx], eb[idx], v[idx])
        # occupation 1/(exp(beta H) + 1) = (1 - tanh(beta H/2))/2
        eig, vec = np.linalg.eigh(dense)
        occ = (vec*(0.5*(1 - np.tanh(0.5*beta*eig)))) @ vec.conj().T
        for i, t in enumerate(tt):
            prop = spla.expm(-1j*dense*t)
            close(ret[(i, *idx)], -1j*prop[0, 0] if t >= 0 else 0, rtol=0, atol=1e-10, what=f"gf0_loc_ret_t(t={t})")
            g = -1j*(prop @ (np.eye(len(dense)) - occ))[0, 0]
            s = 1j*(prop @ occ)[0, 0]
            close(gr[(i, *idx)], g, rtol=0, atol=1e-10, what=f"gf0_loc_gr_t(t={t})")
            close(le[(i, *idx)], s, rtol=0, atol=1e-10, what=f"gf0_loc_le_t(t={t})")
    sel = tt >= 0
    close(ret[sel], (gr - le)[sel], rtol=0, atol=1e-10, what="retarded = greater - lesser")
    return f"cplx={case['cplx']}"


# ---------------------------------------------------------------------------
# C17
# ---------------------------------------------------------------------------
def fock_ops():
    """Annihilators of the orbitals 1up, 1dn, 2up, 2dn (Jordan-Wigner)."""
    a, s, i = np.array([[0, 1], [0, 0]]), np.diag([1, -1]), np.eye(2)
    ops = []
    for k in range(4):
        mats = [s]*k + [a] + [i]*(3 - k)
        op = mats[0]
        for m in mats[1:]:
            op = np.kron(op, m)
        ops.append(op)
    return ops


C1U, C1D, C2U, C2D = fock_ops()
NUM = [c.T @ c for c in (C1U, C1D, C2U, C2D)]


def dimer_reference(z, t, u, kind, spin):
    hop = C1U.T @ C2U + C1D.T @ C2D
    ham = -t*(hop + hop.T) + u*(NUM[0] @ NUM[1] + NUM[2] @ NUM[3])
    vac = np.zeros(16)
    vac[0] = 1
    # even singlet sector of two particles contains the ground state for every t, U
    cov = (C1U.T @ C2D.T - C1D.T @ C2U.T) @ vac
    dbl = (C1U.T @ C1D.T + C2U.T @ C2D.T) @ vac
    basis = np.array([cov/np.linalg.norm(cov), dbl/np.linalg.norm(dbl)]).T
    eig, vec = np.linalg.eigh(basis.T @ ham @ basis)
    gs, e0 = basis @ vec[:, 0], eig[0]
    c1, c2 = (C1U, C2U) if spin == "up" else (C1D, C2D)
    c = (c1 + (1 if kind == "+" else -1)*c2)/np.sqrt(2)
    out = []
    for zi in z:
        add = gs @ c @ np.linalg.solve(zi*np.eye(16) - (ham - e0*np.eye(16)), c.T @ gs)
        rem = gs @ c.T @ np.linalg.solve(zi*np.eye(16) + (ham - e0*np.eye(16)), c @ gs)
        out.append(add + rem)
    total = np.linalg.eigvalsh(ham[np.ix_(sum(np.diag(n) for n in NUM) == 2, sum(np.diag(n) for n in NUM) == 2)])[0]
    ensure(abs(total - e0) < 1e-9*(1 + abs(e0)), "oracle: not the ground state")
    return np.array(out)


@facet("C17", "dimer", st.fixed_dictionaries({
    "t": st.one_of(fl(-3, 3), st.sampled_from([0.0, 1.0])), "u": st.one_of(fl(-8, 12), st.sampled_from([0.0, 4.0])),
    "kind": st.sampled_from(["+", "-"]), "default": st.booleans(), "spin": st.sampled_from(["up", "down"]), "form": st.sampled_from(["array", "scalar", "2d"]),
    "z": st.lists(cplx(fl(-10, 10), st.tuples(logfl(0.02, 5.), sign()).map(lambda t: t[0]*t[1])), min_size=1, max_size=4)}),
    quick=400, rule="Lehmann representation in the 16-dimensional Fock space")
def check_dimer(case):
    t, u = case["t"], case["u"]
    if abs(t) + abs(u) < 1e-3:
        return False
    z = toc(case["z"])
    kind = "+" if case["default"] else case["kind"]
    kwds = {} if case["default"] else {"kind": kind}
    ref = dimer_reference(z, t, u, kind, case["spin"])
    if case["form"] == "scalar":
        res = np.array([gt.hubbard_dimer_gf_z(zi, t, u, **kwds) for zi in z])
    elif case["form"] == "2d":
        res = gt.hubbard_dimer_gf_z(z[:, None], hopping=t, interaction=u, **kwds)[:, 0]
    else:
        res = pristine(gt.hubbard_dimer_gf_z, z, hopping=t, interaction=u, **kwds)
    close(res, ref, rtol=1e-9, atol=1e-10, what=f"hubbard_dimer_gf_z kind={kind}")
    return kind


@facet("C17", "dimer_kind", st.sampled_from(["*", "", "+-", "p", "plus", "0", "--", 1, -1, None]), quick=20,
       rule="unknown kinds raise ValueError")
def check_dimer_kind(case):
    raises(ValueError, lambda: gt.hubbard_dimer_gf_z(1j, 1.0, 2.0, kind=case), f"kind={case!r}")


@facet("C17", "hubbard_I", st.fixed_dictionaries({
    "u": st.one_of(fl(-10, 10), st.sampled_from([0.0, 5, 2])), "occ": st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0, 1])), "form": st.sampled_from(["array", "scalar", "broadcast"]),
    "z": st.lists(cplx(fl(-10, 10), st.tuples(logfl(0.02, 5.), sign()).map(lambda t: t[0]*t[1])), min_size=1, max_size=4)}),
    quick=400, rule="self-energy of the atom: 1/G = z - Sigma with G = (1-n)/z + n/(z-U); thermal atom with the same occupation")
def check_hubbard_I(case):
    u, occ = case["u"], case["occ"]
    z = toc(case["z"])
    atom = (1 - occ)/z + occ/(z - u)
    if case["form"] == "scalar":
        res = np.array([gt.hubbard_I_self_z(zi, u, occ) for zi in z])
    elif case["form"] == "broadcast":
        res = gt.hubbard_I_self_z(z[:, None], np.array([u, 1.5*u]), np.array([occ, occ]))
        has_shape(res, (z.size, 2), "broadcast hubbard_I_self_z")
        close(res[:, 1], gt.hubbard_I_self_z(z, 1.5*u, occ), rtol=1e-12, atol=1e-13, what="broadcast hubbard_I_self_z")
        res = res[:, 0]
    else:
        res = pristine(gt.hubbard_I_self_z, z, u, occ)
    close(res, z - 1/atom, rtol=1e-9, atol=1e-9*(1 + abs(u) + np.max(abs(z))), what="hubbard_I_self_z")
    close(1/(z - res), atom, rtol=1e-8, atol=1e-10, what="atomic Green's function")


# ---------------------------------------------------------------------------
# large problems
# ---------------------------------------------------------------------------
def enlarged(strategy, **more):
    return st.tuples(strategy, st.fixed_dictionaries(more)).map(lambda t: {**t[0], **t[1]})


facet("C14", "large", enlarged(mat_case(kinds=["mat", "cmat", "sym", "csym", "her", "diag"]), n=logint(7, 60)), quick=50,
      rule="decompositions of matrices of size up to 60")(check_decompose)
facet("C14", "large_stack", enlarged(mat_case(kinds=["mat", "cmat", "sym", "csym", "her", "diag"]), lead=logint(10, 400).map(lambda n: [n]),
                                     n=st.sampled_from([2, 3])), quick=50,
      rule="stacks of up to 400 matrices")(check_decompose)
facet("C15", "large", enlarged(ls_case(), n=logint(8, 50), l=logint(1, 8), m=logint(1, 120), kind=st.sampled_from(["generic", "compatible"])),
      quick=80, rule="up to 50 unknowns and 120 equations")(check_lstsq_ec)
facet("C16", "large", enlarged(siam_case(), nb=logint(6, 60)), quick=40, rule="up to 60 bath sites")(check_siam_z)
facet("C16", "large_time", enlarged(siam_case(), nb=logint(6, 40)), quick=40, rule="up to 40 bath sites")(check_siam_t)
