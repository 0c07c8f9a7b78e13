"""C01 - C05: lattice Green's functions, densities of states, moments, tool-kit."""
import functools

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

import gftool as gt
from vlib import lat
from vlib.core import Inconclusive, close, ensure, facet, finite, has_shape, pristine, raises
from vlib.gen import bandwidth, fl, logfl, logint, rng, seeds

ALL = [*lat.PLAIN, "rectangular", "bethez"]


def module(name):
    return getattr(gt.lattice, name)


def extra_st(name):
    if name == "rectangular":
        return st.one_of(logfl(0.05, 20.), logfl(1e-3, 1e3), st.sampled_from([1.0, 2.0, 0.5, 3])).map(lambda x: [x])
    if name == "bethez":
        return st.one_of(st.integers(2, 12), st.sampled_from([2, 3, 50]), logfl(12., 1e6).map(int)).map(lambda x: [x])
    return st.just([])


def special(name, extra):
    """Non-smooth points of the spectrum in units of D."""
    if name == "rectangular":
        van_hove = abs(extra[0] - 1)/(extra[0] + 1)
        return sorted({-1., -van_hove, van_hove, 1.})
    if name == "bethez":
        return [-1., 1.]
    return [float(x) for x in lat.SPECIAL[name]]


def ref_gf(name, z, D, extra):
    return lat.GF[name](complex(z), float(D), *extra)


def point_st(name, extra, ymin, ymax, xmax=3.):
    """Points x + iy in units of D: everywhere, or close to the special points; both half-planes."""
    pts = special(name, extra)
    x = st.one_of(fl(-xmax, xmax), st.tuples(st.sampled_from(pts), logfl(1e-4, 0.5), st.sampled_from([1, -1, 0]))
                  .map(lambda t: t[0] + t[1]*t[2]), st.sampled_from([0.0, 0.25, -0.5, 1.0, -1.0, 2.0, -2.0]))
    y = st.tuples(logfl(ymin, ymax), st.sampled_from([1, -1])).map(lambda t: t[0]*t[1])
    return st.tuples(x, y).map(list)


def D_st():
    return st.one_of(bandwidth(), st.sampled_from([1, 2, 3, 4, 9/4]))


def make_z(pts, D):
    pts = np.asarray(pts, dtype=float)
    return D*(pts[..., 0] + 1j*pts[..., 1])


# ---------------------------------------------------------------------------
# C01
# ---------------------------------------------------------------------------
@st.composite
def bz_case(draw, name):
    extra = draw(extra_st(name))
    ymin = 0.03 if name in ("sc", "bcc", "fcc") else 0.01
    n = draw(st.integers(1, 3 if name in ("sc", "bcc", "fcc") else 5))
    pts = draw(st.lists(point_st(name, extra, ymin, 40.), min_size=n, max_size=n))
    if draw(st.booleans()):  # some far away points
        pts[0] = [pts[0][0]*draw(logfl(10., 1e3)), pts[0][1]*draw(logfl(1., 1e2))]
    return {"name": name, "D": draw(D_st()), "extra": extra, "pts": pts,
            "form": draw(st.sampled_from(["scalar", "array", "array2d", "hilbert", "pyscalar"]))}


def check_bz(case):
    """gf_z / hilbert_transform vs. Brillouin-zone sum"""
    name, D, extra = case["name"], case["D"], case["extra"]
    mod = module(name)
    z = make_z(case["pts"], D)
    fct = mod.gf_z
    if case["form"] == "hilbert" and hasattr(mod, "hilbert_transform"):
        fct = mod.hilbert_transform
    if case["form"] in ("scalar", "pyscalar"):
        conv = complex if case["form"] == "pyscalar" else np.complex128
        gf = np.array([complex(fct(conv(zi), D, *extra)) for zi in z])
    elif case["form"] == "array2d":
        gf = fct(z[:, np.newaxis], D, *extra)
        has_shape(gf, (z.size, 1), f"{name}.gf_z")
        gf = gf[:, 0]
    else:
        gf = fct(z, D, *extra)
    decided = False
    refs = []
    for zi in z:
        try:
            refs.append(ref_gf(name, zi, D, extra))
        except Inconclusive:
            refs.append(None)
    has_shape(gf, z.shape, f"{name}.gf_z")
    for zi, gi, ri in zip(z, np.asarray(gf), refs):
        if ri is None:
            continue
        decided = True
        close(gi, ri, rtol=1e-8, atol=1e-15/D if name == "box" else 0, what=f"{name} Green's function at z/D={zi/D!s}, D={D}")
    if not decided:
        raise Inconclusive
    return case["form"]


for _name in ALL:
    facet("C01", f"bz_{_name}", bz_case(_name), quick={"sc": 120, "bcc": 120, "fcc": 120}.get(_name, 250),
          rule="1-5 complex frequencies compared with the converged Brillouin-zone average")(check_bz)


@st.composite
def real_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    D = draw(st.one_of(D_st(), st.sampled_from([1, 2, 4, 9/4, 9])))
    lo, hi = lat.band(name)
    nice = st.sampled_from([float(k) for k in range(-12, 13)] + [-0.5, -1.5, 1.5, 2.5]).filter(
        lambda x: x/D < lo - 0.05 or x/D > hi + 0.05)
    x = draw(st.one_of(fl(hi + 0.05, hi + 20).map(lambda t: t*D), fl(lo - 20, lo - 0.05).map(lambda t: t*D), nice))
    return {"name": name, "D": D, "extra": extra, "x": x, "real": draw(st.booleans())}


@facet("C01", "real_axis_outside_band", real_case(), quick=400)
def check_real(case):
    """real frequencies outside the band (also special values like z=-1)"""
    name, D, extra, x = case["name"], case["D"], case["extra"], case["x"]
    if name == "box" and case["real"] and x < 0:
        z = complex(x)
    else:
        z = float(x) if case["real"] else complex(x)
    if name == "box":
        z = complex(x)  # logarithm: documented for complex z
    gf = complex(module(name).gf_z(z, D, *extra))
    ref = ref_gf(name, x, D, extra)
    close(gf.real, ref.real, rtol=1e-8, atol=1e-15/D if name == "box" else 0, what=f"{name} Re G at real x={x}, D={D}")
    close(gf.imag, 0., atol=1e-8*abs(ref), what=f"{name} Im G at real x={x} outside band, D={D}")


@st.composite
def chain_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    x = draw(st.one_of(st.sampled_from(special(name, extra)), st.tuples(st.sampled_from(special(name, extra)), logfl(1e-14, 0.1),
                       st.sampled_from([1, -1])).map(lambda t: t[0] + t[1]*t[2]), fl(-2, 2)))
    return {"name": name, "D": draw(D_st()), "extra": extra, "x": x, "upper": draw(st.booleans()),
            "ratio": draw(st.sampled_from([1.1, 1.25, 2.]))}


@facet("C01", "towards_axis", chain_case(), quick=500,
       rule="from the Brillouin-zone sum at Im z = 0.1 D down to 1e-13 D: A = -Im G is a Poisson integral, so A/y falls, A*y grows, "
            "and G(y) changes by at most A*(dy/y)")
def check_chain(case):
    name, D, extra, ratio = case["name"], case["D"], case["extra"], case["ratio"]
    y = 0.1*ratio**-np.arange(int(np.log(1e12)/np.log(ratio)))
    z = D*(case["x"] + 1j*(y if case["upper"] else -y))
    gf = module(name).gf_z(z, D, *extra)
    has_shape(gf, z.shape, f"{name}.gf_z")
    finite(gf, f"{name}.gf_z close to the real axis")
    if not case["upper"]:
        gf = np.conj(gf)
    close(gf[0], np.conj(ref_gf(name, z[0], D, extra)) if not case["upper"] else ref_gf(name, z[0], D, extra), rtol=1e-8, atol=1e-15/D,
          what=f"{name} start of the chain")
    y = abs((z/D).imag)
    err = noise(name, z, D) + (1e-9 + 1e-15/y)*abs(gf) + 1e-15/D  # rounding of z/D next to the singularities
    spec = -gf.imag
    ensure(np.all(spec >= -err), lambda: f"{name}: negative spectral weight at z/D={z[spec < -err]/D}")
    up, down = slice(None, -1), slice(1, None)
    slack = ratio*(err[up] + err[down])
    bad = (spec[down]*y[down] > spec[up]*y[up] + slack*y[up]) | (spec[down]/y[down] < spec[up]/y[up] - slack/y[down])
    bad |= abs(gf[down] - gf[up]) > (y[up] - y[down])/y[down]*spec[down] + slack
    ensure(not np.any(bad), lambda: f"{name}: G jumps from {gf[up][bad][:3]} to {gf[down][bad][:3]} at z/D={z[down][bad][:3]/D}")
    return name


@facet("C01", "sc_mp", bz_case("sc"), quick=80)
def check_sc_mp(case):
    """arbitrary-precision simple cubic Green's function vs. Brillouin-zone sum"""
    D = case["D"]
    decided = False
    for zi in make_z(case["pts"], D):
        try:
            ref = ref_gf("sc", zi, D, [])
        except Inconclusive:
            continue
        decided = True
        close(complex(gt.lattice.sc.gf_z_mp(mp.mpc(zi), D)), ref, rtol=1e-8, atol=0, what=f"sc.gf_z_mp z/D={zi/D}")
    if not decided:
        raise Inconclusive


# ---------------------------------------------------------------------------
# C02
# ---------------------------------------------------------------------------
def noise(name, z, D):
    """Absolute error by cancellation close to the band centre (simple cubic, honeycomb)."""
    if name in ("sc", "honeycomb"):
        return (1e-12 + 5e-15/np.maximum(np.abs(z/D), 1e-11))/D
    if name == "kagome":
        return (1e-12 + 5e-15/np.maximum(np.abs(z/D - 1/3), 1e-11))/D
    return 0.*np.abs(z)


@st.composite
def near_case(draw, ymin=1e-10, ymax=3.):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    n = draw(st.integers(1, 4))
    return {"name": name, "extra": extra, "D": draw(D_st()),
            "pts": draw(st.lists(point_st(name, extra, ymin, ymax), min_size=n, max_size=n)),
            "a": draw(st.one_of(logfl(0.01, 100.), st.sampled_from([2.0, 0.5, 10.0])))}


@facet("C02", "conjugation_sign", near_case(ymin=1e-13), quick=1200)
def check_conj(case):
    """G(z*)=G(z)*, Im G(z) Im z <= 0, |G| <= 1/|Im z|"""
    name, D, extra = case["name"], case["D"], case["extra"]
    z = make_z(case["pts"], D)
    gf = module(name).gf_z(z, D, *extra)
    finite(gf, f"{name}.gf_z")
    gf_c = module(name).gf_z(np.conj(z), D, *extra)
    close(gf_c, np.conj(gf), rtol=1e-9, atol=noise(name, z, D), what=f"{name} G(z*) vs G(z)*")
    bad = np.sign(z.imag)*gf.imag > 1e-13*abs(gf) + noise(name, z, D)
    ensure(not np.any(bad), lambda: f"{name}: wrong sign of Im G at z/D={z[bad]/D}: {gf[bad]}")
    ensure(np.all(abs(gf) <= (1 + 1e-9)/abs(z.imag)), lambda: f"{name}: |G| > 1/|Im z| at z/D={z/D}: {gf}")


@facet("C02", "scaling", near_case(), quick=700)
def check_scaling(case):
    """G(a z; a D) = G(z; D)/a"""
    name, D, extra, a = case["name"], case["D"], case["extra"], case["a"]
    z = make_z(case["pts"], D)
    pts = np.array(special(name, extra))
    # rounding of a*z shifts the energy relative to the (integrable) singularities
    dist = np.min(np.abs(z[:, None]/D - pts), axis=-1)
    one = module(name).gf_z(z, D, *extra)
    two = module(name).gf_z(a*z, a*D, *extra)
    rtol = 1e-8 + 1e-14/np.maximum(dist, 1e-14) + 1e-14*abs(z/D)**2
    if name in lat.FLAT:  # genuine pole
        rtol = rtol + 1e-13/np.maximum(np.abs(z/D - lat.FLAT[name][0]), 1e-14)
    close(two*a, one, rtol=rtol, atol=noise(name, z, D), what=f"{name} scaling with a={a}")


@st.composite
def mean_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    return {"name": name, "extra": extra, "D": draw(D_st()), "pt": draw(point_st(name, extra, 1e-7, 1., xmax=1.6))}


@facet("C02", "mean_value", mean_case(), quick=260,
       rule="average over a circle reaching down to 20% of the distance from the axis equals the centre value")
def check_mean(case):
    name, D, extra = case["name"], case["D"], case["extra"]
    z = complex(make_z(case["pt"], D))
    phi = 2*np.pi*(np.arange(96) + 0.5)/96
    circ = z + 0.8*z.imag*np.exp(1j*phi)  # 0.8**96 = 5e-10
    gf = module(name).gf_z(circ, D, *extra)
    centre = complex(module(name).gf_z(z, D, *extra))
    finite(gf, f"{name}.gf_z")
    close(np.mean(gf), centre, rtol=3e-7, atol=10*np.max(noise(name, circ, D)), scale=np.max(abs(gf)),
          what=f"{name} mean-value property around z/D={z/D}")


@st.composite
def dos_limit_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    lo, hi = lat.band(name)
    pts = special(name, extra)
    x = draw(st.one_of(
        fl(lo, hi), fl(lo - 0.5, hi + 0.5),
        st.tuples(st.sampled_from(pts), logfl(2e-3, 0.2), st.sampled_from([1, -1])).map(lambda t: t[0] + t[1]*t[2]),
    ).filter(lambda x: min(abs(x - p) for p in pts) > 1e-3))
    return {"name": name, "extra": extra, "D": draw(D_st()), "x": x, "y": draw(st.sampled_from([1e-8, 1e-9, 1e-10]))}


@facet("C02", "dos_limit", dos_limit_case(), quick=1100,
       rule="-Im G(x+i0)/pi against dos(x) for x at least 1e-3 D away from van-Hove points")
def check_dos_limit(case):
    name, D, extra, x = case["name"], case["D"], case["extra"], case["x"]
    mod = module(name)
    dos = float(mod.dos(x*D, D, *extra))*D
    gf = complex(mod.gf_z(D*(x + 1j*case["y"]), D, *extra))*D
    if name in lat.FLAT:  # `dos` does not contain the flat band
        shift, weight = lat.FLAT[name]
        gf -= weight/(x + 1j*case["y"] - shift)
    close(-gf.imag/np.pi, dos, rtol=2e-5, atol=2e-5*case["y"]/1e-8, what=f"{name} -Im G/pi vs DOS at x/D={x}, D={D}")
    adv = complex(mod.gf_z(D*(x - 1j*case["y"]), D, *extra))*D
    if name in lat.FLAT:
        adv -= weight/(x - 1j*case["y"] - shift)
    close(adv, np.conj(gf), rtol=1e-9, atol=1e-11, what=f"{name} advanced side at x/D={x}")


def far_moments(name, extra):
    """Even/odd moments of the DOS in units of D."""
    if name == "bethez":  # walks on the tree
        Z = extra[0]
        t2 = 0.25/(Z - 1)
        return [1, 0, Z*t2, 0, Z*(2*Z - 1)*t2**2]
    if name == "rectangular":
        s = extra[0]
        t = 0.5/(1 + s)
        return [1, 0, 2*t**2*(1 + s**2), 0, (2*t)**4*(3/8 + 6*s**2/4 + 3/8*s**4)]
    return [float(lat.moment(name, m)) for m in range(9)]


@st.composite
def tail_case(draw):
    name = draw(st.sampled_from(ALL))
    r = draw(st.one_of(logfl(15., 3e3) if name in lat.PLAIN else logfl(1e3, 1e4), logfl(1e3, 1e15)))
    return {"name": name, "D": draw(D_st()), "r": r, "phi": draw(fl(-np.pi, np.pi)), "extra": draw(extra_st(name)),
            "form": draw(st.sampled_from(["complex", "array", "real"]))}


@facet("C02", "tail", tail_case(), quick=700, rule="|z| from 15 D up to 1e15 D against the moment expansion")
def check_tail(case):
    name, D, extra = case["name"], case["D"], case["extra"]
    w = case["r"]*np.exp(1j*case["phi"])
    if name == "box" and abs(w.imag) < 1e-9:
        w = w + 1e-3j
    z = complex(w*D)
    if case["form"] == "array":
        z = np.array([z])
    elif case["form"] == "real" and name != "box":
        z, w = z.real, w.real
        if abs(w) < (15 if name in lat.PLAIN else 1e3):
            raise Inconclusive
    ref = sum(m/w**(k+1) for k, m in enumerate(far_moments(name, extra)))
    gf = complex(np.squeeze(module(name).gf_z(z, D, *extra)))*D
    # the logarithm of the box looses relative accuracy, but its absolute error is the rounding error
    close(gf, ref, rtol=1e-9, atol=1e-15 if name == "box" else 0, what=f"{name} high-frequency tail at z/D={w}, D={D}")
    return name


@st.composite
def shape_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    shape = draw(st.sampled_from([[2, 3], [3, 2], [2, 2], [2, 1, 2], [2, 2, 2], [1, 3], [3, 1], [3], [2], [1], [], [0], [2, 0]]))
    n = int(np.prod(shape)) if shape else 1
    return {"name": name, "extra": extra, "D": draw(D_st()), "shape": shape,
            "pts": draw(st.lists(point_st(name, extra, 1e-6, 3.), min_size=n, max_size=n)),
            "order": draw(st.sampled_from(["F", "C", "reversed", "strided"])), "fct": draw(st.sampled_from(["gf_z", "dos", "hilbert_transform"]))}


@facet("C02", "elementwise", shape_case(), quick=500, rule="array evaluation equals the loop over scalars")
def check_shape(case):
    name, D, extra = case["name"], case["D"], case["extra"]
    fct = getattr(module(name), case["fct"], module(name).gf_z)
    pts = np.asarray(case["pts"], dtype=float).reshape(-1, 2)
    z = D*(pts[:, 0] + 1j*pts[:, 1]) if case["fct"] != "dos" else D*pts[:, 0]
    loop = np.array([complex(fct(zi, D, *extra)) for zi in z]).reshape(case["shape"])
    arg = z.reshape(case["shape"])
    if case["order"] == "reversed":
        arg = np.array(arg[(slice(None, None, -1),)*arg.ndim])[(slice(None, None, -1),)*arg.ndim]
    elif case["order"] == "strided":
        arg = np.repeat(arg, 2, axis=-1)[..., ::2] if arg.ndim else arg
    else:
        arg = np.array(arg, order=case["order"])
    copy = arg.copy()
    res = fct(arg, D, *extra)
    ensure(np.array_equal(arg, copy), f"{name}.{case['fct']} modified its argument")
    has_shape(res, case["shape"], f"{name}.{case['fct']}")
    # scalars and arrays may differ by one rounding, which singularities close to the real axis amplify
    dist = np.maximum(abs(pts[:, 1]), 1e-6).reshape(case["shape"])
    rtol = 1e-11 + 4e-15*np.maximum(1, np.hypot(pts[:, 0], pts[:, 1]).reshape(case["shape"]))/dist
    close(np.asarray(res, dtype=complex), loop, rtol=0, atol=rtol*abs(loop), what=f"{name}.{case['fct']} array vs scalars")
    if not arg.size:
        return False


@facet("C02", "coordination_limits", st.fixed_dictionaries({
    "D": D_st(), "pt": point_st("bethe", [], 1e-3, 3.), "dos_x": fl(-0.99, 0.99)}), quick=150,
    rule="Bethe lattice with Z=2 is the chain, Z->inf the semi-circle; rectangular with scale 1 the square lattice")
def check_limits(case):
    D = case["D"]
    z = complex(make_z(case["pt"], D))
    lt = gt.lattice
    close(complex(lt.bethez.gf_z(z, D, 2)), complex(lt.onedim.gf_z(z, D)), rtol=1e-8, what="bethez Z=2")
    close(complex(lt.bethez.gf_z(z, D, 10**9)), complex(lt.bethe.gf_z(z, D)), rtol=1e-5, what="bethez Z=inf")
    close(complex(lt.rectangular.gf_z(z, D, 1)), complex(lt.square.gf_z(z, D)), rtol=1e-8, what="rectangular scale=1")
    x = case["dos_x"]*D
    close(lt.bethez.dos(x, D, 2), lt.onedim.dos(x, D), rtol=1e-8, what="bethez dos Z=2")
    close(lt.bethez.dos(x, D, 10**9), lt.bethe.dos(x, D), rtol=1e-6, what="bethez dos Z=inf")
    if abs(x) > 1e-3*D:
        close(lt.rectangular.dos(x, D, 1), lt.square.dos(x, D), rtol=1e-8, what="rectangular dos scale=1")
    # exchanging the axes is a symmetry
    close(complex(lt.rectangular.gf_z(z, D, 2.5)), complex(lt.rectangular.gf_z(z, D, 1/2.5)), rtol=1e-8,
          what="rectangular axis exchange")


# ---------------------------------------------------------------------------
# C03
# ---------------------------------------------------------------------------
@st.composite
def dos_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    lo, hi = lat.band(name)
    pts = special(name, extra)
    x = st.one_of(fl(lo, hi), fl(lo - 2, hi + 2), st.sampled_from(pts),
                  st.tuples(st.sampled_from(pts), logfl(1e-9, 0.1), st.sampled_from([1, -1]))
                  .map(lambda t: t[0] + t[1]*t[2]))
    return {"name": name, "extra": extra, "D": draw(D_st()), "x": draw(st.lists(x, min_size=1, max_size=6)),
            "a": draw(logfl(0.02, 50.))}


@facet("C03", "invariants", dos_case(), quick=900,
       rule="non-negativity, support, scaling, symmetry of generated energies (also at and near van-Hove points)")
def check_dos(case):
    name, D, extra, a = case["name"], case["D"], case["extra"], case["a"]
    mod = module(name)
    x = np.array(case["x"])
    dos = np.asarray(mod.dos(x*D, D, *extra))
    has_shape(dos, x.shape, f"{name}.dos")
    if name == "bethez" and extra[0] == 2:  # chain: divergent at the band edge
        edge = abs(abs(x) - 1) < 1e-12
        x, dos = x[~edge], dos[~edge]
    ensure(not np.any(np.isnan(dos)), lambda: f"{name}.dos is NaN at x/D={x[np.isnan(dos)]}")
    ensure(np.all(dos >= -1e-12/D), lambda: f"{name}.dos negative at x/D={x[dos < 0]}: {dos[dos < 0]}")
    lo, hi = lat.band(name)
    out = (x < lo - 1e-9) | (x > hi + 1e-9)
    ensure(np.all(dos[out] == 0), lambda: f"{name}.dos non-zero outside the band at x/D={x[out]}: {dos[out]}")
    pts = np.array(special(name, extra))
    away = np.min(np.abs(x[:, None] - pts), axis=-1) > 1e-4
    inside = (x > lo) & (x < hi) & (np.min(np.abs(x[:, None] - pts), axis=-1) > 1e-9)
    ensure(np.all(dos[inside] > 0), lambda: f"{name}.dos vanishes inside the band at x/D={x[inside]}: {dos[inside]}")
    scaled = np.asarray(mod.dos(x*D*a, D*a, *extra))
    close(scaled[away]*a, dos[away], rtol=1e-8, atol=1e-12/D, what=f"{name}.dos scaling a={a}")
    if name in lat.SYMMETRIC or name in ("rectangular", "bethez"):
        close(np.asarray(mod.dos(-x*D, D, *extra)), dos, rtol=1e-9, atol=0, what=f"{name}.dos symmetry")
    return bool(np.any(inside) or np.any(out))


@st.composite
def ulp_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    return {"name": name, "extra": extra, "D": draw(D_st()), "pt": draw(st.sampled_from([*special(name, extra), 0.])),
            "ulps": draw(st.lists(st.integers(-3, 3), min_size=1, max_size=5))}


@facet("C03", "neighbourhood", ulp_case(), quick=1000,
       rule="energies a few units in the last place from van-Hove points and edges: DOS is a number, non-negative, infinite only there")
def check_ulp(case):
    """Tiny distances are where the formulas divide by zero or take roots of negative numbers."""
    name, D, extra = case["name"], case["D"], case["extra"]
    mod = module(name)
    eps = float(case["pt"]*D)
    if eps == 0:
        eps = np.array([k*1e-30*D for k in case["ulps"]])
    else:
        eps = eps + np.array(case["ulps"])*np.spacing(abs(eps))
    skip = name == "bethez" and abs(case["pt"]) == 1  # 0/0 at the edge for Z=2
    if skip:
        return False
    dos = np.asarray(mod.dos(eps, D, *extra))
    ensure(not np.any(np.isnan(dos)) and np.all(dos >= -1e-12/D), lambda: f"{name}.dos={dos} at eps={eps!r}, D={D}")
    lo, hi = lat.band(name)
    for e in eps:
        val = mod.dos(float(e), D, *extra)
        ensure(val >= -1e-12/D, lambda: f"{name}.dos={val} at eps={e!r}, D={D}")
        if hasattr(mod, "dos_mp"):
            val = mod.dos_mp(float(e), D, *extra)
            ensure(val >= -1e-12/D, lambda: f"{name}.dos_mp={val} at eps={e!r}, D={D}")


@functools.lru_cache(maxsize=8)
def _tanh_sinh(n=161, tmax=3.1):
    t = np.linspace(-tmax, tmax, n)
    x = np.tanh(0.5*np.pi*np.sinh(t))
    w = 0.5*np.pi*np.cosh(t)/np.cosh(0.5*np.pi*np.sinh(t))**2*(t[1] - t[0])
    # distance to the nearest end point without cancellation
    d = np.exp(-0.5*np.pi*np.sinh(np.abs(t)))/np.cosh(0.5*np.pi*np.sinh(np.abs(t)))
    return t, x, w, d


def de_nodes(pts, split=1):
    """Double-exponential nodes/weights on the segments between `pts`."""
    t, x, w, d = _tanh_sinh()
    pts = np.unique(np.concatenate([np.linspace(a, b, split + 1) for a, b in zip(pts[:-1], pts[1:])]))
    xs, ws = [], []
    for a, b in zip(pts[:-1], pts[1:]):
        half = 0.5*(b - a)
        node = np.where(t < 0, a + half*d, b - half*d)
        ok = (node > a) & (node < b)
        xs.append(node[ok])
        ws.append((w*half)[ok])
    return np.concatenate(xs), np.concatenate(ws)


@st.composite
def hilbert_case(draw):
    name = draw(st.sampled_from(ALL))
    extra = draw(extra_st(name))
    return {"name": name, "extra": extra, "D": draw(D_st()),
            "pts": draw(st.lists(point_st(name, extra, 0.1, 3.), min_size=1, max_size=2))}


@facet("C03", "hilbert", hilbert_case(), quick=200,
       rule="integral of dos/(z - eps) (plus flat band) against the Brillouin-zone average, and normalisation")
def check_hilbert(case):
    name, D, extra = case["name"], case["D"], case["extra"]
    x, w = de_nodes(special(name, extra), split=8)
    dos = np.asarray(module(name).dos(x*D, D, *extra))*D
    ensure(not np.any(np.isnan(dos)), f"{name}.dos contains NaN")
    dos = np.where(np.isfinite(dos), dos, 0)
    shift, weight = lat.FLAT.get(name, (0., 0.))
    close(np.sum(w*dos), 1 - weight, rtol=2e-6, what=f"{name} normalisation of DOS, D={D}")
    decided = False
    for p in case["pts"]:
        z = p[0] + 1j*p[1]
        try:
            ref = ref_gf(name, z, 1., extra)
        except Inconclusive:
            continue
        decided = True
        val = np.sum(w*dos/(z - x)) + weight/(z - shift)
        close(val, ref, rtol=3e-6, atol=0, what=f"{name} Hilbert integral of DOS at z/D={z}, D={D}")
    if not decided:
        raise Inconclusive


MPDOS = ["bethe", "onedim", "square", "triangular", "honeycomb", "kagome", "lieb", "sc", "bcc", "fcc"]


@st.composite
def mp_case(draw):
    name = draw(st.sampled_from(MPDOS))
    lo, hi = lat.band(name)
    pts = special(name, [])
    x = draw(st.one_of(
        fl(lo, hi), fl(lo - 1, hi + 1),
        st.tuples(st.sampled_from(pts), logfl(1e-9, 0.1), st.sampled_from([1, -1])).map(lambda t: t[0] + t[1]*t[2]),
        st.tuples(logfl(1e-9, 1e-2), st.sampled_from([1, -1])).map(lambda t: t[0]*t[1]),
    ).filter(lambda x: min(abs(x - p) for p in pts) > 1e-10))
    return {"name": name, "D": draw(D_st()), "x": x}


@facet("C03", "mp_vs_array", mp_case(), quick=900, rule="dos_mp(x) against dos(x)")
def check_mp(case):
    name, D, x = case["name"], case["D"], case["x"]
    mod = module(name)
    one, two = float(mod.dos(x*D, half_bandwidth=D)), mod.dos_mp(x*D, half_bandwidth=D)
    ensure(isinstance(two, (mp.mpf, float, int)), f"{name}.dos_mp returned {type(two)}")
    dist = min(abs(x - p) for p in special(name, []))
    close(one*D, float(two)*D, rtol=1e-10 + 1e-14/dist, atol=1e-12, what=f"{name} dos vs dos_mp at x/D={x}, D={D}")


@facet("C03", "mp_precision", st.fixed_dictionaries({
    "name": st.sampled_from(MPDOS), "D": st.sampled_from(["1", "2.3", "0.7", "4"]), "dps": st.sampled_from([20, 25, 30])}),
    quick=24, thorough=120, rule="normalisation and low moments of dos_mp by tanh-sinh quadrature in 20-30 digits")
def check_mp_precision(case):
    name = case["name"]
    mod = module(name)
    dps = case["dps"]
    with mp.workdps(dps + 5):
        D = mp.mpf(case["D"])
        exact = {"triangular": ["-2/3", "-4/9", "4/3"], "honeycomb": ["-1", "-1/3", "0", "1/3", "1"],
                 "kagome": ["-2/3", "0", "1/3", "2/3", "4/3"], "sc": ["-1", "-1/3", "1/3", "1"]}
        if name == "lieb":
            r = 1/mp.sqrt(2)
            pts = [mp.mpf(-1), -r, mp.mpf(0), r, mp.mpf(1)]
        else:
            pts = [mp.mpf(p) if isinstance(p, str) else mp.mpf(p) for p in exact.get(name, lat.SPECIAL[name])]
        pts = [p*D for p in pts]
        shift, weight = lat.FLAT.get(name, (0., 0.))
        weight = mp.mpf(1)/3 if weight else mp.mpf(0)
        shift = mp.mpf(-2)/3 if name == "kagome" else mp.mpf(0)

        def integrand(eps):
            # vanishing weight at the end points regularises inverse square roots
            if min(abs(eps - p) for p in pts) < mp.mpf(10)**(-dps + 3)*D:
                return mp.mpf(0)  # rounded to a van-Hove point
            with mp.workdps(dps):
                rho = mod.dos_mp(eps, half_bandwidth=D)
            return rho*(eps - pts[0])*(pts[-1] - eps)
        val = mp.quad(integrand, pts)
        mom = [mp.mpf(lat.moment(name, m).numerator)/lat.moment(name, m).denominator*D**m - weight*(shift*D)**m
               for m in range(3)]
        ref = -mom[2] + (pts[0] + pts[-1])*mom[1] - pts[0]*pts[-1]*mom[0]
        err = abs(val - ref)/abs(ref)
        ensure(err < mp.mpf(10)**(-dps + 7), lambda: f"{name}.dos_mp integral accurate to {mp.nstr(err, 3)} only "
               f"at {dps} digits (D={case['D']})")


@st.composite
def mp_small_case(draw):
    return {"name": draw(st.sampled_from(MPDOS)), "D": draw(D_st()),
            "x": draw(st.tuples(logfl(1e-9, 0.3), st.sampled_from([1, -1])).map(lambda t: t[0]*t[1])),
            "dps": draw(st.sampled_from([15, 20, 30]))}


@facet("C03", "mp_self_consistent", mp_small_case(), quick=400,
       rule="dos_mp at n digits against dos_mp at n+25 digits, close to the band centre")
def check_mp_small(case):
    name, D, x, dps = case["name"], case["D"], case["x"], case["dps"]
    mod = module(name)
    with mp.workdps(dps + 30):
        eps, Dm = mp.mpf(x)*mp.mpf(D), mp.mpf(D)
        pts = lat.SPECIAL[name]
        if min(abs(x - p) for p in pts) < 1e-10:
            return False
        dist = min(abs(x - p) for p in pts)
        with mp.workdps(dps + 25):
            ref = mod.dos_mp(eps, half_bandwidth=Dm)
        with mp.workdps(dps):
            val = mod.dos_mp(eps, half_bandwidth=Dm)
        err = abs(val - ref)
        tol = mp.mpf(10)**(-dps + 4)*abs(ref)/dist
        if name == "sc":  # cancellation in the closed form
            tol = tol/min(1, abs(x))
        ensure(err <= tol + mp.mpf(10)**(-dps)/D, lambda: f"{name}.dos_mp at {dps} digits off by {mp.nstr(err/abs(ref), 3)} "
               f"(relative) at x/D={x}, D={D}")


@facet("C03", "centre", st.fixed_dictionaries({
    "name": st.sampled_from(["square", "bcc", "lieb", "honeycomb", "bethe", "onedim", "triangular"]), "D": D_st(), "x": logfl(1e-150, 1e-2),
    "sign": st.sampled_from([1, -1]), "dps": st.sampled_from([15, 15, 30])}), quick=400,
    rule="dos and dos_mp at energies from 1e-150 D to 1e-2 D agree with the value of 170 additional digits")
def check_centre(case):
    name, D, mod = case["name"], case["D"], module(case["name"])
    x = case["x"]*case["sign"]*D
    with mp.workdps(360):
        ref = mod.dos_mp(mp.mpf(x), half_bandwidth=mp.mpf(D))
        if name == "square":
            ref = 1/(mp.pi*D*mp.agm(1, abs(mp.mpf(x)/mp.mpf(D))))
    with mp.workdps(case["dps"]):
        two = mod.dos_mp(x, half_bandwidth=D)
    close(float(two), float(ref), rtol=1e-13, atol=0, what=f"{name}.dos_mp at x/D={x/D}, D={D}")
    ensure(abs(two/ref - 1) < mp.mpf(10)**(3 - case["dps"]), lambda: f"{name}.dos_mp at {case['dps']} digits: off by {mp.nstr(abs(two/ref - 1), 3)}")
    close(float(mod.dos(x, half_bandwidth=D)), float(ref), rtol=1e-12, atol=0, what=f"{name}.dos at x/D={x/D}, D={D}")
    return name


# ---------------------------------------------------------------------------
# C04
# ---------------------------------------------------------------------------
#: orders which are documented to be available ("a few specific moments")
AVAILABLE = {name: range(0 if name in ("box", "onedim", "kagome", "lieb", "fcc") else 1, 21) for name in lat.PLAIN}


@facet("C04", "moments", st.tuples(st.sampled_from(lat.PLAIN), st.integers(0, 20), st.one_of(D_st(), st.integers(1, 40), logint(40, 10**6)))
       .map(list), quick=1500,
       rule="available orders of every lattice against exact rational moments")
def check_moment(case):
    name, m, D = case
    if m not in AVAILABLE[name]:
        return False
    val = module(name).dos_moment(m, half_bandwidth=D)
    ref = float(lat.moment(name, m))*float(D)**m
    close(val, ref, rtol=1e-10, atol=0, what=f"{name}.dos_moment({m}, {D})")


@facet("C04", "unavailable_moments", st.tuples(st.sampled_from(lat.PLAIN), st.integers(21, 200), D_st()).map(list),
       quick=300, rule="orders above the tables: exact value (odd/closed form) or NotImplementedError")
def check_moment_na(case):
    name, m, D = case
    D = min(float(D), 10.)
    try:
        val = module(name).dos_moment(m, half_bandwidth=D)
    except NotImplementedError:
        return "rejected"
    if name in lat.SYMMETRIC and m % 2:
        close(val, 0., atol=0, what=f"{name}.dos_moment({m})")
        return "odd"
    if name in ("triangular", "kagome", "fcc", "sc", "square", "honeycomb", "lieb") and m > 40:
        return False
    close(val, float(lat.moment(name, m))*D**m, rtol=1e-9, atol=0, what=f"{name}.dos_moment({m}, {D})")
    return "value"


@facet("C04", "moments_vs_dos", st.tuples(st.sampled_from(lat.PLAIN), st.integers(1, 20), D_st()).map(list), quick=250,
       rule="available orders against numerical integration of dos (plus flat band)")
def check_moment_dos(case):
    name, m, D = case
    if m not in AVAILABLE[name]:
        return False
    x, w = de_nodes(special(name, []))
    dos = np.asarray(module(name).dos(x*D, D))*D
    dos = np.where(np.isfinite(dos), dos, 0)
    shift, weight = lat.FLAT.get(name, (0., 0.))
    val = np.sum(w*dos*x**m) + weight*shift**m
    close(val, module(name).dos_moment(m, D)/float(D)**m, rtol=3e-6, atol=3e-6, what=f"{name} moment {m} vs DOS")


# ---------------------------------------------------------------------------
# C05
# ---------------------------------------------------------------------------
def _bethe_mp(z, D):
    z, D = mp.mpmathify(z), mp.mpf(D)
    return 2*(z - mp.sqrt(z - D)*mp.sqrt(z + D))/D**2


@st.composite
def bethe_case(draw):
    n = draw(st.integers(1, 4))
    pts = draw(st.lists(point_st("bethe", [], 1e-6, 30.), min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:  # far away
        scale = draw(logfl(10., 1e14))
        pts[0] = [pts[0][0]*scale, pts[0][1]*scale]
    return {"D": draw(D_st()), "pts": pts, "nd": draw(st.booleans())}


@facet("C05", "bethe_inverse", bethe_case(), quick=400, rule="gf_z_inv(gf_z(z)) = z off the real axis")
def check_inv(case):
    D, lt = case["D"], gt.lattice.bethe
    z = make_z(case["pts"], D)
    if case["nd"]:
        z = z[:, None]
    gf = lt.gf_z(z, half_bandwidth=D)
    close(lt.gf_z_inv(gf, half_bandwidth=D), z, rtol=1e-8, atol=0, what="gf_z_inv(gf_z(z))")
    # every g inside the physical disc |g| < 2/D
    g = gf/np.maximum(1, abs(gf)*D/2*1.0001)
    zz = lt.gf_z_inv(g, half_bandwidth=D)
    ok = (abs(zz.imag) > 1e-6*D) & (abs(g)*D < 1.99)
    close(lt.gf_z(zz, half_bandwidth=D)[ok], g[ok], rtol=1e-6, what="gf_z(gf_z_inv(g))")


@facet("C05", "bethe_derivatives", bethe_case(), quick=300, rule="gf_d1_z, gf_d2_z against the analytic derivative (mpmath)")
def check_deriv(case):
    D, lt = case["D"], gt.lattice.bethe
    z = make_z(case["pts"], D)
    if case["nd"]:
        z = z[:, None]
    d1, d2 = lt.gf_d1_z(z, half_bandwidth=D), lt.gf_d2_z(z, half_bandwidth=D)
    has_shape(d1, z.shape, "gf_d1_z")
    has_shape(d2, z.shape, "gf_d2_z")
    with mp.workdps(40):
        Dm = mp.mpf(D)
        for i in np.ndindex(z.shape):
            zz = mp.mpc(complex(z[i]))
            root = mp.sqrt(zz - Dm)*mp.sqrt(zz + Dm)
            r1 = complex(2*(1 - zz/root)/Dm**2)
            r2 = complex(2/root**3)
            rel = 1e-8 + 1e-13/min(abs(z[i]/D - 1), abs(z[i]/D + 1), 1)
            close(d1[i], r1, rtol=rel, atol=0, what=f"bethe gf_d1_z at z/D={z[i]/D}, D={D}")
            close(d2[i], r2, rtol=rel, atol=0, what=f"bethe gf_d2_z at z/D={z[i]/D}, D={D}")
            # Python scalars and extended precision
            num = complex(z[i])
            close(complex(lt.gf_d1_z(num, half_bandwidth=D)), r1, rtol=rel, atol=0, what=f"bethe gf_d1_z of scalar {num}, D={D}")
            close(complex(lt.gf_d2_z(num, half_bandwidth=D)), r2, rtol=rel, atol=0, what=f"bethe gf_d2_z of scalar {num}, D={D}")
            if num.real and abs(num.real/D) > 1e-3:
                x = num.real*(1 if abs(num.real) > 1.01*D else 1.01*D/abs(num.real))
                root = mp.sqrt(mp.mpf(x) - Dm)*mp.sqrt(mp.mpf(x) + Dm)
                r1 = complex(2*(1 - mp.mpf(x)/root)/Dm**2)
                close(complex(lt.gf_d1_z(x, half_bandwidth=D)), r1, rtol=1e-8, atol=0, what=f"bethe gf_d1_z of float {x}")
        ext = np.asarray(z, dtype=np.clongdouble)
        for order, ref in ((1, d1), (2, d2)):
            got = getattr(lt, f"gf_d{order}_z")(ext, half_bandwidth=D)
            ensure(got.dtype == ext.dtype, f"bethe gf_d{order}_z: extended precision is lost ({got.dtype})")
            close(got.astype(complex), ref, rtol=1e-8, atol=0, what=f"bethe gf_d{order}_z in extended precision")


@st.composite
def ret_case(draw):
    n = draw(st.integers(1, 6))
    t = st.one_of(fl(-5, 60), logfl(1e-7, 1e-1), logfl(1e-2, 100.), logfl(100., 1e5), st.sampled_from([0.0, -1.0, 1.0]))
    return {"lat": draw(st.sampled_from(["bethe", "box"])), "D": draw(D_st()), "t": draw(st.lists(t, min_size=n, max_size=n)),
            "center": draw(st.one_of(st.sampled_from([0, 0.0, 0.5, -1]), fl(-5, 5))), "nd": draw(st.integers(0, 2))}


@facet("C05", "ret_t", ret_case(), quick=600, rule="gf_ret_t against direct Fourier integral of the DOS centred at center*half_bandwidth")
def check_ret(case):
    D, c = case["D"], case["center"]
    t = np.array(case["t"])/D  # times in units of 1/D
    mod = gt.lattice.bethe if case["lat"] == "bethe" else gt.lattice.box
    if case["nd"] == 2:
        res = mod.gf_ret_t(t[:, None], half_bandwidth=D, center=c)
        has_shape(res, (t.size, 1), "gf_ret_t")
        res = res[:, 0]
    elif case["nd"] == 1:
        res = mod.gf_ret_t(t, half_bandwidth=D, center=c)
    else:
        res = np.array([complex(mod.gf_ret_t(float(ti), half_bandwidth=D, center=c)) for ti in t])
    if case["lat"] == "bethe":
        cos = np.cos(np.pi*(np.arange(400) + 0.5)/400)
        wgt, eps = 2*(1 - cos**2)/400, cos*D
    else:
        x, w = np.polynomial.legendre.leggauss(200)
        wgt, eps = 0.5*w, x*D
    ref = np.sum(wgt*np.exp(-1j*np.multiply.outer(t, eps + c*D)), axis=-1)*(-1j)
    ref = np.where(t < 0, 0, ref)
    td = abs(t*D)
    for i in np.flatnonzero((td > 100) & (t > 0)):  # too many oscillations for the quadrature
        with mp.workdps(30):
            x = mp.mpf(float(t[i]))*mp.mpf(D)
            val = 2*mp.besselj(1, x)/x if case["lat"] == "bethe" else mp.sin(x)/x
            ref[i] = complex(-1j*val*mp.expj(-mp.mpf(c)*x))
    envelope = np.maximum(1, td)**(-1.5 if case["lat"] == "bethe" else -1.)
    close(res, ref, rtol=1e-8, atol=envelope*(1e-10 + 4e-15*td*(1 + abs(c))) + 1e-13, what=f"{case['lat']}.gf_ret_t D={D} center={c}")


@st.composite
def surf_case(draw):
    n = draw(st.integers(1, 4))
    return {"t": draw(logfl(0.05, 20.)), "eps": draw(st.lists(fl(-5, 5), min_size=n, max_size=n)),
            "pts": draw(st.lists(point_st("bethe", [], 1e-4, 10.), min_size=n, max_size=n))}


@facet("C05", "surface", surf_case(), quick=300, rule="surface_gf_zeps solves G = 1/(z - eps - t^2 G), physical branch")
def check_surf(case):
    t = case["t"]
    eps = np.array(case["eps"])
    z = make_z(case["pts"], 2*t) + eps
    gf = gt.surface_gf_zeps(z, eps, t)
    has_shape(gf, z.shape, "surface_gf_zeps")
    close(1/gf, z - eps - t**2*gf, rtol=1e-8, what="surface self-consistency")
    ensure(np.all(abs(gf)*t <= 1 + 1e-9), lambda: f"surface GF on wrong branch: {gf}")
    ensure(np.all(gf.imag*z.imag <= 1e-12*abs(gf)*abs(z.imag)), "surface GF has wrong sign of imaginary part")


@facet("C05", "stress", bz_case("square"), quick=200, rule="stress_trafo against Brillouin-zone average of -eps/2/(z-eps)")
def check_stress(case):
    D = case["D"]
    z = make_z(case["pts"], D)
    res = gt.lattice.square.stress_trafo(z, half_bandwidth=D)
    for zi, ri in zip(z, np.asarray(res)):
        try:
            ref = lat._bz1(lambda c: -0.5*(zi*lat._g1(zi, 0.5*D*c, 0.5*D) - 1), tol=1e-11)
        except Inconclusive:
            continue
        close(ri, ref, rtol=1e-7, atol=1e-13*max(1, abs(zi/D)**2), what=f"stress_trafo at z/D={zi/D}")


# ---------------------------------------------------------------------------
# many points at once
# ---------------------------------------------------------------------------
@st.composite
def large_case(draw):
    name = draw(st.sampled_from(ALL))
    return {"name": name, "extra": draw(extra_st(name)), "D": draw(D_st()), "n": draw(logint(20, 6000)), "seed": draw(seeds()),
            "plane": draw(st.sampled_from(["upper", "lower", "both"])), "mesh": draw(st.booleans())}


def same_as_parts(fct, arg, rg, rtol, what):
    """Elements of a long argument are treated like single numbers, short arrays, and columns."""
    res = pristine(fct, arg)
    has_shape(res, arg.shape, what)
    pick = np.unique(np.r_[0, arg.size - 1, rg.integers(arg.size, size=12)])
    close(np.asarray(res)[pick], np.array([fct(arg[i]) for i in pick]), rtol=rtol, atol=0, what=f"{what}: single elements of {arg.size}")
    close(np.asarray(res)[pick], fct(arg[pick]), rtol=rtol, atol=0, what=f"{what}: some elements of {arg.size}")
    cut = int(rg.integers(1, arg.size))
    close(res, np.concatenate([fct(arg[:cut]), fct(arg[cut:])]), rtol=rtol, atol=0, what=f"{what}: two parts of {arg.size}")
    order = rg.permutation(arg.size)
    close(np.asarray(fct(arg[order])), np.asarray(res)[order], rtol=rtol, atol=0, what=f"{what}: permuted points")
    rows = arg[:arg.size//4*4].reshape(4, -1)
    close(np.asarray(fct(rows)), np.asarray(res)[:rows.size].reshape(rows.shape), rtol=rtol, atol=0, what=f"{what}: two axes")


def large_z(case):
    rg = rng(case["seed"])
    n, D = case["n"], case["D"]
    x = np.linspace(-2, 2, n) + 1e-3*rg.uniform() if case["mesh"] else rg.uniform(-2.5, 2.5, size=n)
    y = np.full(n, np.exp(rg.uniform(np.log(1e-4), 0))) if case["mesh"] else np.exp(rg.uniform(np.log(1e-5), np.log(3), size=n))
    s = {"upper": 1, "lower": -1, "both": rg.choice([1, -1], size=n)}[case["plane"]]
    return D*(x + 1j*s*y), rg


@facet("C02", "large", large_case(), quick=90, rule="gf_z of up to 6000 frequencies equals that of single frequencies, parts, permutations")
def check_large_gf(case):
    z, rg = large_z(case)
    fct = module(case["name"]).gf_z if case["seed"] % 2 else getattr(module(case["name"]), "hilbert_transform", module(case["name"]).gf_z)
    same_as_parts(lambda zz: fct(zz, case["D"], *case["extra"]), z, rg, 1e-9, f"{case['name']}.gf_z")
    return case["name"]


@facet("C03", "large", large_case(), quick=90, rule="dos of up to 6000 energies equals that of single energies, parts, permutations")
def check_large_dos(case):
    z, rg = large_z(case)
    name, D = case["name"], case["D"]
    eps = 0.55*z.real
    eps = eps[np.min(abs(eps[:, None]/D - np.asarray(special(name, case["extra"]))), axis=-1) > 1e-6]
    same_as_parts(lambda zz: module(name).dos(zz, D, *case["extra"]), eps, rg, 1e-9, f"{name}.dos")
    if case["mesh"] and case["n"] > 300:  # normalisation on the mesh
        val = np.asarray(module(name).dos(eps, D, *case["extra"]))
        ensure(np.all(val >= 0), f"{name}.dos: negative on a dense mesh")
    return name


@facet("C05", "large", large_case(), quick=60, rule="inverse, derivatives, time functions of up to 6000 points equal those of single points")
def check_large_misc(case):
    z, rg = large_z(case)
    D, bethe = case["D"], gt.lattice.bethe
    which = case["seed"] % 5
    if which == 0:
        same_as_parts(lambda zz: bethe.gf_z_inv(zz, D), 1/z, rg, 1e-10, "bethe.gf_z_inv")
    elif which in (1, 2):
        fct = bethe.gf_d1_z if which == 1 else bethe.gf_d2_z
        same_as_parts(lambda zz: fct(zz, D), z, rg, 1e-9, fct.__name__)
    elif which == 3:
        mod = gt.lattice.bethe if case["mesh"] else gt.lattice.box
        same_as_parts(lambda tt: mod.gf_ret_t(tt, D), 3*z.real/D**2, rg, 1e-9, "gf_ret_t")
    else:
        same_as_parts(lambda zz: gt.surface_gf_zeps(zz, eps=0.3*D, hopping_nn=0.4*D), z, rg, 1e-9, "surface_gf_zeps")
    return str(which)
