"""C10: shapes answer ray and point queries exactly."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import geom, scenes as sc
from harness.core import Info, Part, require
from harness.gen import AXES, lognum, num, unit_vector

ID = "C10"
RULE = ("A case is a shape of generated type and size, rays aimed at, past and away from it (along axes, grazing, "
        "from inside, outside, afar and from points of its surface) and points inside, outside, on and just off "
        "it. Answers are compared with analytic ray and point queries. Evaluations are queries decided. "
        "Non-trivial: at least three rays met the surface and points were decided on both sides of it.")
ASSUMPTIONS = ["directions have unit length",
               "a ray whose reference hit is ill-conditioned (within rounding of an edge or of tangency, single "
               "precision for meshes and boxes, whose ray library computes so) is not decided"]


@st.composite
def shape(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    size = draw(st.one_of(lognum(1e-4, 1e3), lognum(0.2, 10))) if kind == "mesh" else \
        draw(st.one_of(lognum(1e-4, 1e3), lognum(0.1, 10))) if kind == "box" else \
        draw(st.one_of(lognum(1e-4, 1e4), lognum(0.1, 10)))
    if kind == "box":
        return {"type": "box", "size": [size * draw(lognum(0.02, 1)) for _ in range(3)]}
    if kind == "sphere":
        return {"type": "sphere", "radius": size}
    if kind == "cylinder":
        return {"type": "cylinder", "length": size * draw(lognum(0.02, 1)), "radius": size * draw(lognum(0.02, 1))}
    return sc.mesh_shape(draw(st.sampled_from(["prism", "hull", "ell"])),
                         [size * draw(lognum(0.1, 1)) for _ in range(3)], draw(st.integers(3, 7)),
                         draw(num(0.3, 0.7)))


@st.composite
def case(draw, kinds):
    rays = []
    for _ in range(draw(st.integers(4, 14))):
        rays.append({"target": [draw(num(-1.3, 1.3)) for _ in range(3)],
                     "direction": draw(st.one_of(unit_vector(), unit_vector(), st.sampled_from(AXES).map(list))),
                     "back": draw(st.one_of(st.just(0.0), num(-2, 2), lognum(1, 100))),
                     "graze": draw(st.one_of(st.none(), st.none(), st.none(), lognum(1e-10, 1e-2)))})
    points = [[draw(num(-1.4, 1.4)) for _ in range(3)] for _ in range(draw(st.integers(4, 12)))]
    return {"shape": draw(shape(kinds)), "rays": rays, "points": points,
            "off": draw(lognum(1e-6, 0.3))}


def build(spec):
    from pvtrace import Material

    m = Material(refractive_index=1.5)
    g = sc.build_shape(spec, m)
    require(g.material is m, "the material is not the one given")
    other = Material(refractive_index=1.6)
    g.material = other
    require(g.material is other, "the material is not the one last set")
    return g


def prop(case):
    spec = case["shape"]
    ref = geom.Shape(spec)
    g = build(spec)
    coarse = spec["type"] in ("box", "mesh")
    if spec["type"] == "mesh":
        half = np.abs(ref.V).max(axis=0)
    elif spec["type"] == "box":
        half = ref.half
    elif spec["type"] == "sphere":
        half = np.full(3, ref.radius)
    else:
        half = np.array([ref.radius, ref.radius, ref.half_length])
    size = float(np.linalg.norm(half))
    small = float(half.min())
    met = decided = 0
    surface = []
    classes = set()

    def shoot(o, d, start=None):
        nonlocal met, decided
        t, edge = ref.hits(o[None], d[None])
        t, edge = t[0], edge[0]
        far = float(np.linalg.norm(o)) + size
        margin = 1e-5 * size + 1e-6 * far if coarse else 1e-12 * far * (far / small)
        bad = np.isfinite(edge) & (edge < margin)
        # what is ill-conditioned only matters ahead of the ray
        if np.any(bad):
            return None
        t = np.sort(t[np.isfinite(t)])
        t = t[np.concatenate([[True], np.diff(t) > 1e-9 * far])] if len(t) else t
        near = margin if start is None else 1e-9 * far
        if np.any(np.abs(t) < near) and start is None:
            return None
        if coarse and len(t) > 1 and np.diff(t).min() < 1e-5 * far:
            return None
        expect = t[t > near]
        got = np.array(g.intersections(tuple(o), tuple(d)), float).reshape(-1, 3)
        s = (got - o) @ d
        require(np.allclose(o + s[:, None] * d, got, rtol=0, atol=1e-9 * far),
                "a hit of the ray from %s along %s is not on the ray: %s", tuple(o), tuple(d), got.tolist())
        require(np.all(s >= -near), "a hit behind the ray from %s along %s: %s", tuple(o), tuple(d), s.tolist())
        require(np.all(np.diff(s) >= -1e-9 * far), "hits are not ordered: %s", s.tolist())
        if start is not None:
            s2 = s[s > near]
            got2 = got[s > near]
        else:
            s2, got2 = s, got
        require(len(s2) == len(expect), "%s: the ray from %s along %s has hits at %s, should be %s",
                spec, tuple(o), tuple(d), s2.tolist(), expect.tolist())
        # a shallow chord is found less precisely
        chord = float(np.diff(t).min()) if len(t) > 1 else far
        tol = 1e-10 * far + 1e-13 * far * far / max(chord, 1e-300)
        require(np.all(np.abs(s2 - expect) <= tol), "%s: the ray from %s along %s has hits at %s, should be %s",
                spec, tuple(o), tuple(d), s2.tolist(), expect.tolist())
        decided += 1
        met += len(s2) > 0
        return [got2[k] for k in range(len(got2))]

    for r in case["rays"]:
        d = np.array(r["direction"], float)
        p = np.array(r["target"]) * half
        if r["graze"] and spec["type"] in ("sphere", "cylinder"):
            # pass the axis or the centre at almost the radius
            q = np.cross(d, [0, 0, 1.0]) if spec["type"] == "cylinder" else np.cross(d, np.array([0.3, 0.5, 0.8]))
            if np.linalg.norm(q) > 0.1:
                p = q / np.linalg.norm(q) * ref.radius * (1 - r["graze"])
        o = p - r["back"] * size * d
        if abs(float(ref.clearance(o[None])[0])) < 1e-5 * size and coarse:
            continue
        hits = shoot(o, d)
        if hits is None:
            continue
        if r["graze"] and len(hits) == 2 and not coarse:
            classes.add("graze")
        for h in hits:
            surface.append((h, d))
            if len(hits) > 1 or True:
                # carry on from the surface, as a tracer does
                shoot(h, d, start=h)
                n, m = ref.normals(h[None])
                if m[0] > 1e-5 * size:
                    back = d - 2 * (d @ n[0]) * n[0]
                    if abs(d @ n[0]) > 1e-3:
                        shoot(h, back / np.linalg.norm(back), start=h)

    sides = {True: 0, False: 0}
    for q in case["points"]:
        p = np.array(q) * half
        c = float(ref.clearance(p[None])[0])
        if abs(c) < (1e-5 * size if coarse else 1e-9 * size):
            continue
        require(bool(g.contains(tuple(p))) == (c > 0), "%s contains %s: %s", spec, tuple(p), not c > 0)
        require(not g.is_on_surface(tuple(p)), "%s: %s (%g from the surface) is on the surface", spec, tuple(p), c)
        sides[c > 0] += 1
        decided += 2
    for p, d in surface[:12]:
        n, m = ref.normals(p[None])
        if m[0] < 1e-5 * size:
            continue
        n = n[0]
        p = p + float(ref.clearance(p[None])[0]) * n      # the hit, without its rounding
        require(bool(g.is_on_surface(tuple(p))), "%s: its surface point %s is not on the surface", spec, tuple(p))
        got = np.array(g.normal(tuple(p)), float)
        require(np.allclose(got, n, rtol=0, atol=1e-6), "%s: normal at %s is %s, should be %s", spec, tuple(p), got, n)
        require(abs(got @ got - 1) < 1e-9, "normal %s is not a unit vector", got)
        decided += 2
        for v in (d, -d):
            if abs(v @ n) > 1e-6:
                require(bool(g.is_entering(tuple(p), tuple(v))) == (v @ n < 0),
                        "%s: entering at %s along %s: %s", spec, tuple(p), tuple(v), not v @ n < 0)
                decided += 1
        for sign in (1, -1):
            x = p + sign * case["off"] * small * n
            c = float(ref.clearance(x[None])[0])
            if abs(c) < 1e-7 * small:
                continue
            if abs(c) > (1e-5 * size if coarse else 1e-9 * size):
                require(bool(g.contains(tuple(x))) == (c > 0), "%s contains %s: %s", spec, tuple(x), not c > 0)
            require(not g.is_on_surface(tuple(x)) or abs(c) < 1e-11, "%s: %s (%g from the surface) is on the surface",
                    spec, tuple(x), c)
            sides[c > 0] += 1
            decided += 2
    classes.add(spec["type"])
    if size > 100:
        classes.add("large")
    if size < 0.01:
        classes.add("small")
    return Info(nontrivial=met >= 3 and min(sides.values()) > 0, evaluations=decided, classes=sorted(classes))


PARTS = [
    Part("quadrics", lambda: case(("sphere", "cylinder")), prop, quick=4000, thorough=150000, shards=8,
         rule="three rays meet the surface, points on both sides"),
    Part("boxes", lambda: case(("box",)), prop, quick=800, thorough=24000, shards=8,
         rule="three rays meet the surface, points on both sides"),
    Part("meshes", lambda: case(("mesh",)), prop, quick=320, thorough=10000, shards=8,
         rule="three rays meet the surface, points on both sides"),
]
