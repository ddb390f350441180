"""C20: phase functions and optical formulas are correct for all inputs."""
import math
import pickle

import numpy as np
from hypothesis import strategies as st

from harness.core import Info, Part, Violation, require
from harness.gen import lognum, num, seeds, unit_vector
from harness.oracle import Observations, confirmed

ID = "C20"
RULE = ("directions: a case is a phase function (isotropic, lambertian, cone, Henyey-Greenstein; called directly, through "
        "its object or through a pickled object) with a parameter, including limits (g near 0 and +-1, cones from 1e-6 to "
        "90 degrees), and thousands of draws from it: every draw a unit vector within the limits, polar angle, azimuth, "
        "their independence and that of successive draws by KS tests against the closed-form law, confirmed on a second, "
        "larger sample. formulas: a case is one formula with generated arguments, compared with an independent evaluation "
        "of its definition and with relations it has to keep (reciprocity, involution, same side, range); arguments stay as "
        "they were. refused: parameters outside the domain must raise. Non-trivial: a phase function with a parameter "
        "away from its special values; a formula away from normal incidence or from equal media.")
ASSUMPTIONS = ["angles of incidence within [0, pi/2]; 1e-9 relative distance to the critical angle may fall either side",
               "deviations of a law below about one percent are invisible"]


@st.composite
def direction_case(draw):
    kind = draw(st.sampled_from(["isotropic", "lambertian", "cone", "cone", "hg", "hg", "hg"]))
    p = None
    if kind == "cone":
        p = draw(st.one_of(num(0.02, math.pi / 2), num(0.02, math.pi / 2), lognum(1e-6, 0.1), st.just(math.pi / 2),
                           st.just(1)))
    if kind == "hg":
        p = draw(st.one_of(num(-0.99, 0.99), num(-0.99, 0.99), lognum(1e-13, 0.1), lognum(1e-13, 0.1).map(lambda v: -v),
                           lognum(1e-7, 0.1).map(lambda v: 1 - v), lognum(1e-7, 0.1).map(lambda v: v - 1),
                           st.sampled_from([0, 0.0, 1, -1, 1.0, -1.0])))
    return {"kind": kind, "p": p, "how": draw(st.sampled_from(["function", "object", "pickled"])),
            "form": draw(st.sampled_from(["plain", "numpy"])), "seed": draw(seeds)}


def sampler(case):
    from pvtrace.material import utils

    p = case["p"]
    if case["form"] == "numpy" and p is not None:
        p = np.float64(p)
    if case["kind"] in ("isotropic", "lambertian"):
        f = getattr(utils, case["kind"])
        return pickle.loads(pickle.dumps(f)) if case["how"] == "pickled" else f
    fn, cls = (utils.cone, utils.Cone) if case["kind"] == "cone" else (utils.henyey_greenstein, utils.HenyeyGreenstein)
    if case["how"] == "function":
        return lambda: fn(p)
    obj = cls(p)
    return pickle.loads(pickle.dumps(obj)) if case["how"] == "pickled" else obj


def polar(case, U):
    """The polar angles as values that have to be uniform on [0, 1]."""
    z = U[:, 2]
    s2 = U[:, 0] ** 2 + U[:, 1] ** 2
    kind, p = case["kind"], case["p"]
    if kind == "isotropic" or (kind == "hg" and abs(p) < 1e-6):
        return (z + 1) / 2
    if kind == "lambertian":
        return s2
    if kind == "cone":
        return s2 / math.sin(p) ** 2
    a = np.where((z if p > 0 else -z) > 0, s2 / (1 + np.abs(z)), 1 - z * (1 if p > 0 else -1))    # 1 - |cos|
    g = abs(p)
    D = np.sqrt((1 - g) ** 2 + 2 * g * a)
    return (1 - g * g) / (2 * g) * (1 / D - 1 / (1 + g))


def direction_prop(case):
    f = sampler(case)
    n = 1500
    kind, p = case["kind"], case["p"]

    def run(stage, factor):
        np.random.seed((case["seed"] + 77 * stage) % 2 ** 32)
        U = [f() for _ in range(n * factor)]
        require(all(np.shape(u) == (3,) for u in U), "%s gives %s", kind, U[0])
        U = np.array(U, float)
        require(np.all(np.isfinite(U)), "%s(%r) gives %s", kind, p, U[~np.isfinite(U).all(1)][:1])
        r = np.abs(np.linalg.norm(U, axis=1) - 1)
        require(r.max() < 1e-12, "%s(%r) gives %s, no unit vector", kind, p, U[r.argmax()])
        if kind in ("lambertian", "cone"):
            require(U[:, 2].min() > -1e-12, "%s(%r) gives %s", kind, p, U[U[:, 2].argmin()])
        obs = Observations()
        if kind == "hg" and abs(p) == 1:
            require(np.allclose(U, [0, 0, p], atol=1e-7), "hg(%r) gives %s", p, U[0])
            return obs
        v = polar(case, U)
        slack = 1e-6 if kind == "hg" else 1e-9
        require(-slack < v.min() and v.max() < 1 + slack, "%s(%r) gives directions beyond its limits: %s", kind, p,
                U[v.argmax()])
        v = np.clip(v, 0, 1)
        az = np.arctan2(U[:, 1], U[:, 0]) / (2 * math.pi) % 1.0
        obs.uniform((kind, "polar"), v.tolist())
        obs.uniform((kind, "azimuth"), az.tolist())
        obs.uniform((kind, "azimuth and polar independent"), ((v + az) % 1).tolist())
        obs.uniform((kind, "azimuth and polar independent", 2), ((v - az) % 1).tolist())
        obs.uniform((kind, "successive draws"), ((v[::2] + v[1::2]) % 1).tolist())
        obs.uniform((kind, "successive azimuths"), ((az[::2] - az[1::2]) % 1).tolist())
        return obs

    confirmed(run)
    return Info(nontrivial=p is not None and p not in (0, 1, -1, math.pi / 2), evaluations=n,
                classes=[kind, case["how"]] + ["limit"] * (kind == "hg" and (abs(p) < 1e-3 or abs(p) > 0.99))
                + ["tiny"] * (kind == "cone" and p < 0.02))


# ------------------------------------------------------------------- formulas
FORMULAS = ["reflectivity"] * 4 + ["reflection", "refraction", "refraction", "gaussian", "bandgap", "convert", "thermal",
            "cart", "angle"]


@st.composite
def formula_case(draw):
    kind = draw(st.sampled_from(FORMULAS))
    c = {"kind": kind}
    if kind in ("reflectivity", "refraction"):
        c["n1"] = draw(st.one_of(num(1, 4), st.sampled_from([1, 1.0, 1.5, 2]), lognum(0.1, 10)))
        c["n2"] = draw(st.one_of(num(1, 4), st.just(c["n1"]), st.sampled_from([1, 1.0, 1.5, 2]), lognum(0.1, 10)))
        c["angle"] = draw(st.one_of(num(0, math.pi / 2), num(0, math.pi / 2), st.just(0.0), lognum(1e-12, 1.0),
                                    lognum(1e-9, 0.1).map(lambda v: math.pi / 2 - v)))
        if c["n2"] < c["n1"] and draw(st.booleans()):   # close to the critical angle, below or above
            c["angle"] = min(math.pi / 2, max(0.0, math.asin(c["n2"] / c["n1"]) + draw(st.sampled_from([-1, 1]))
                                              * draw(lognum(1e-16, 0.1))))
    if kind in ("reflection", "refraction", "angle"):
        c["normal"] = draw(unit_vector())
        c["other"] = draw(unit_vector())
        c["sign"] = draw(st.sampled_from([1, -1]))
        c["form"] = draw(st.sampled_from(["tuple", "list", "array"]))
    if kind == "gaussian":
        c["x"] = draw(st.lists(num(200, 1200), min_size=1, max_size=5))
        c["c"] = [draw(lognum(1e-3, 1e3)), draw(num(300, 1000)), draw(lognum(1, 300))]
    if kind == "bandgap":
        c["x"] = draw(st.lists(num(200, 1200), min_size=1, max_size=5))
        c["c"] = [draw(st.one_of(num(300, 1000), st.sampled_from(c["x"]))), draw(lognum(1e-3, 1e3))]
    if kind in ("convert", "thermal"):
        n = draw(st.integers(1, 6))
        x = sorted(draw(st.lists(num(300, 1200), min_size=n, max_size=n, unique=True)))
        c["spec"] = [[a, draw(num(0.01, 10))] for a in x]
        c["T"] = draw(num(150, 900))
        c["mu"] = draw(num(0, 0.95))
    if kind == "cart":
        c["theta"] = draw(st.lists(num(0, math.pi), min_size=1, max_size=4))
        c["phi"] = draw(st.lists(num(-7, 7), min_size=len(c["theta"]), max_size=len(c["theta"])))
        c["r"] = draw(st.one_of(st.just(1), lognum(1e-3, 1e3)))
    if kind == "angle":
        c["t"] = draw(st.one_of(num(0, math.pi), lognum(1e-9, 1), lognum(1e-9, 1).map(lambda v: math.pi - v)))
    return c


def perpendicular(n, other):
    t = other - np.dot(other, n) * n
    if np.linalg.norm(t) < 1e-3:
        t = np.cross(n, [1, 0, 0] if abs(n[0]) < 0.9 else [0, 1, 0])
    return t / np.linalg.norm(t)


def shaped(v, form):
    return {"tuple": tuple, "list": list, "array": np.array}[form](v.tolist())


def reference(c, n1, n2):
    """Fresnel reflectivity by amplitudes with complex numbers, c the cosine in medium 1, in long double."""
    c, n1, n2 = np.longdouble(c), np.longdouble(n1), np.longdouble(n2)
    k2 = 1 - (n1 / n2) ** 2 * (1 - c * c)
    if k2 <= 0:
        return 1.0
    k = np.sqrt(k2)
    s, p = (n1 * c - n2 * k) / (n1 * c + n2 * k), (n2 * c - n1 * k) / (n2 * c + n1 * k)
    return float((s * s + p * p) / 2)


def formula_prop(case):
    from pvtrace.geometry import utils as geometry
    from pvtrace.material import utils

    kind = case["kind"]
    nontrivial = True
    if kind == "reflectivity":
        a, n1, n2 = case["angle"], case["n1"], case["n2"]
        c = math.cos(a)
        if n1 == n2 and c < 1e-6:   # 0/0
            return Info(nontrivial=False, classes=[kind])
        R = utils.fresnel_reflectivity(a, n1, n2)
        want = float(reference(c, n1, n2))
        # close to the critical angle the reflectivity has a square-root singularity
        k2 = abs(1 - (n1 / n2) ** 2 * (1 - c * c))
        tol = 1e-9 + 40 * 1e-15 * max(n1 / n2, 1) ** 2 / math.sqrt(max(k2, 1e-17)) + 10 * math.sqrt(1e-15) * (k2 < 1e-14)
        if n2 < n1 and k2 < 1e-13:
            tol += 12 * math.sqrt(k2) * max(n1 / n2, n2 / n1) ** 2
        require(np.isfinite(R) and -1e-12 <= R <= 1 + 1e-12, "reflectivity(%r, %r, %r) = %r", a, n1, n2, R)
        require(abs(R - want) <= tol, "reflectivity(%r, %r, %r) = %r, should be %r", a, n1, n2, R, want)
        s = n1 / n2 * math.sin(a)
        if s < 1 - 1e-9:
            Q = utils.fresnel_reflectivity(math.asin(s), n2, n1)
            require(abs(Q - R) < 1e-6, "reflectivity from the other side is %r, not %r (%s)", Q, R, case)
        elif s > 1 + 1e-9:
            require(R == 1.0, "reflectivity(%r, %r, %r) = %r beyond the critical angle", a, n1, n2, R)
        nontrivial = n1 != n2 and a > 1e-6
    elif kind in ("reflection", "refraction", "angle"):
        n = np.array(case["normal"])
        t = perpendicular(n, np.array(case["other"]))
    if kind == "reflection":
        d = np.array(case["other"])
        args = shaped(d, case["form"]), shaped(n * case["sign"], case["form"])
        before = repr(args)
        out = np.asarray(utils.specular_reflection(*args), float)
        require(repr(args) == before, "specular_reflection changed its arguments")
        want = d - 2 * np.dot(d, n) * n
        require(np.allclose(out, want, atol=1e-12), "reflection of %s at %s is %s, should be %s", d, n, out, want)
        nontrivial = 1e-3 < abs(np.dot(d, n)) < 0.999
    if kind == "refraction":
        a, n1, n2 = case["angle"], case["n1"], case["n2"]
        s = n1 / n2 * math.sin(a)
        if s > 1 - 1e-9:
            return Info(nontrivial=False, classes=[kind])
        d = math.cos(a) * n + math.sin(a) * t
        args = shaped(d, case["form"]), shaped(n * case["sign"], case["form"])
        before = repr(args)
        out = np.asarray(utils.fresnel_refraction(*args, n1, n2), float)
        require(repr(args) == before, "fresnel_refraction changed its arguments")
        want = math.sqrt(1 - s * s) * n + s * t
        tol = 1e-12 + 1e-14 * max(1, n1 / n2) ** 2 / math.sqrt(1 - s * s)
        if math.cos(a) > 1e-12:
            require(np.allclose(out, want, atol=tol, rtol=0), "refraction of %s at %s from %r to %r is %s, should be %s", d, n, n1,
                    n2, out, want)
        nontrivial = n1 != n2 and a > 1e-6
    if kind == "angle":
        v = math.cos(case["t"]) * n + math.sin(case["t"]) * t
        args = shaped(n, case["form"]), shaped(v, case["form"])
        out = geometry.angle_between(*args)
        require(abs(out - case["t"]) < 2e-5, "angle between %s and %s is %r, should be %r", n, v, out, case["t"])
        require(abs(geometry.distance_between(*args) - 2 * math.sin(case["t"] / 2)) < 1e-12, "distance between %s and %s", n, v)
        require(abs(geometry.magnitude(np.array(v) * 3) - 3) < 1e-12 and np.allclose(geometry.flip(args[1]), -v)
                and np.allclose(geometry.norm(v * 0.3), v), "magnitude, flip or norm of %s", v)
    if kind == "gaussian":
        c1, c2, c3 = case["c"]
        out = utils.gaussian(np.array(case["x"]), c1, c2, c3)
        want = [c1 * math.exp(-((x - c2) / c3) ** 2) for x in case["x"]]
        require(np.allclose(out, want, rtol=1e-9, atol=1e-300), "gaussian(%s) is %s, should be %s", case, out, want)
        one = utils.gaussian(case["x"][0], c1, c2, c3)
        require(math.isclose(one, want[0], rel_tol=1e-9, abs_tol=1e-300), "gaussian(%s) of a number is %s", case, one)
    if kind == "bandgap":
        cut, alpha = case["c"]
        out = utils.bandgap(np.array(case["x"]), cut, alpha)
        want = [alpha if x < cut else 0.0 if x > cut else 0.5 * alpha for x in case["x"]]
        require(np.allclose(out, want, rtol=1e-12, atol=0), "bandgap(%s) is %s, should be %s", case, out, want)
    if kind in ("convert", "thermal"):
        spec = np.array(case["spec"])
        before = spec.copy()
        k = 6.62607015e-34 * 299792458.0 / 1.60217662e-19 * 1e9
    if kind == "convert":
        out = utils.simple_convert_spectum(spec)
        want = np.column_stack((k / before[:, 0], before[:, 1]))
        require(np.allclose(out, want, rtol=1e-9), "%s converts to %s, should be %s", before, out, want)
        back = utils.simple_convert_spectum(out)
        require(np.allclose(back, before, rtol=1e-12), "%s converts back to %s", before, back)
    if kind == "thermal":
        out = utils.thermodynamic_emission(spec, T=case["T"], mu=case["mu"])
        E = k / before[:, 0]
        kT = 1.38064852e-23 / 1.60217662e-19 * case["T"]
        top = [math.log(y) + 2 * math.log(e) - math.log(math.expm1((e - case["mu"]) / kT)) for e, y in zip(E, before[:, 1])]
        want = np.exp(np.array(top) - max(top))
        require(np.allclose(out[:, 0], before[:, 0], rtol=1e-12) and np.allclose(out[:, 1], want, rtol=1e-6, atol=1e-300),
                "thermodynamic emission of %s at %s K, %s eV is %s, should be %s", before, case["T"], case["mu"], out, want)
    if kind in ("convert", "thermal"):
        require(np.array_equal(spec, before), "%s changed its argument", kind)
    if kind == "cart":
        th, ph, r = np.array(case["theta"]), np.array(case["phi"]), case["r"]
        out = utils.spherical_to_cart(th, ph, r)
        want = np.array([[r * math.sin(a) * math.cos(b), r * math.sin(a) * math.sin(b), r * math.cos(a)]
                         for a, b in zip(th, ph)])
        require(np.shape(out) == ((3,) if len(th) == 1 else (len(th), 3)), "spherical_to_cart gives shape %s", np.shape(out))
        require(np.allclose(out, want, rtol=1e-12, atol=1e-12 * r), "spherical_to_cart(%s) is %s", case, out)
        one = utils.spherical_to_cart(float(th[0]), float(ph[0]), r)
        require(np.shape(one) == (3,) and np.allclose(one, want[0], atol=1e-12 * r), "spherical_to_cart of numbers: %s", one)
    return Info(nontrivial=nontrivial, classes=[kind])


# -------------------------------------------------------------------- refused
@st.composite
def refused_case(draw):
    return {"how": draw(st.sampled_from(["function", "object"])),
            "p": draw(st.one_of(st.sampled_from([0, 0.0, math.nan, math.inf, -math.inf, -0.1, 2, math.pi, 180]),
                                lognum(1e-6, 10).map(lambda v: -v), lognum(1e-6, 100).map(lambda v: math.pi / 2 + v)))}


def refused_prop(case):
    from pvtrace.material import utils

    f = (lambda: utils.cone(case["p"])) if case["how"] == "function" else lambda: utils.Cone(case["p"])()
    try:
        out = f()
    except ValueError:
        return Info(nontrivial=True, classes=[case["how"]])
    raise Violation("a cone of half angle %r was accepted, and gives %s" % (case["p"], out))


PARTS = [
    Part("directions", direction_case, direction_prop, quick=240, thorough=6000, shards=8),
    Part("formulas", formula_case, formula_prop, quick=12000, thorough=400000, shards=8),
    Part("refused", refused_case, refused_prop, quick=200, thorough=4000, shards=1),
]
