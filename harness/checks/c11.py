"""C11: frames of the scene graph convert consistently."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from harness import geom, oracle, scenes as sc, trace
from harness.core import Info, Part, require
from harness.gen import axis_angle, lognum, num, seeds, unit_vector

ID = "C11"
RULE = ("frames: a tree of nodes and a history of placements (location, translate, rotate, look_at, pose, "
        "re-parenting) are followed by a model of 4x4 matrices; after every operation conversions between nodes "
        "are compared. intersections: rays against generated scenes. rearranged: the same arrangement with another "
        "node tree, or turned and moved as a whole, must give the same histories. Evaluations are conversions, "
        "rays or transitions. Non-trivial: rotations at two depths were involved, or rays met several nodes.")
ASSUMPTIONS = ["rotate takes its axis in the parent's frame, as translate does",
               "poses are rigid"]


# ------------------------------------------------------------------- frames
def vec(lo=-5.0, hi=5.0):
    return st.lists(num(lo, hi), min_size=3, max_size=3)


@st.composite
def operation(draw, n):
    kind = draw(st.sampled_from(["location", "translate", "translate", "rotate", "rotate", "look_at",
                                 "pose", "parent", "int-location", "int-pose", "scaled-look_at"]))
    op = {"op": kind, "node": draw(st.integers(0, n - 1))}
    if kind in ("location", "translate"):
        op["v"] = draw(vec())
    elif kind == "int-location":
        op["v"] = [draw(st.integers(-4, 4)) for _ in range(3)]
    elif kind == "rotate":
        op["rot"] = draw(axis_angle())
        op["stretch"] = draw(st.sampled_from([1.0, 1.0, 2.5]))
    elif kind in ("look_at", "scaled-look_at"):
        v = draw(st.one_of(unit_vector(), st.sampled_from(
            [[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0], [0.6, 0, 0.8]]).map(list)))
        near = draw(st.integers(0, 5))
        if near == 0:       # close to straight back
            e = draw(lognum(1e-6, 1e-2))
            v = [e, 0.3 * e, -1.0]
            w = math.sqrt(sum(x * x for x in v))
            v = [x / w for x in v]
        s = draw(lognum(0.1, 10)) if kind == "scaled-look_at" else 1.0
        op["v"] = [x * s for x in v]
    elif kind == "pose":
        op["v"] = draw(vec())
        op["rots"] = [draw(axis_angle()) for _ in range(draw(st.integers(0, 2)))]
    elif kind == "int-pose":
        op["v"] = [draw(st.integers(-4, 4)) for _ in range(3)]
    elif kind == "parent":
        op["to"] = draw(st.integers(0, n - 1))
    return op


@st.composite
def frames_case(draw):
    n = draw(st.integers(2, 6))
    return {"parents": [draw(st.integers(0, i - 1)) for i in range(1, n)],
            "locations": [draw(st.one_of(st.none(), vec(), st.lists(st.integers(-3, 3), min_size=3, max_size=3)))
                          for _ in range(n)],
            "ops": draw(st.lists(operation(n), min_size=1, max_size=12)),
            "p": draw(vec()), "d": draw(unit_vector()), "travel": draw(num(-3, 3)),
            "index": draw(num(1, 3)), "pairs": [[draw(st.integers(0, n - 1)) for _ in range(3)]
                                                for _ in range(3)]}


def frames_prop(case):
    from pvtrace import Node, Ray

    parents = [None] + list(case["parents"])
    nodes, poses = [], []
    for i, p in enumerate(parents):
        loc = case["locations"][i]
        nodes.append(Node(name="n%d" % i, parent=None if p is None else nodes[p], location=loc))
        m = np.eye(4)
        m[:3, 3] = [0, 0, 0] if loc is None else loc
        poses.append(m)
    n = len(nodes)
    tol = dict(rtol=0, atol=1e-9)
    checked = 0
    turned = set()

    def to_root(i):
        m = np.eye(4)
        while i is not None:
            m = poses[i] @ m
            i = parents[i]
        return m

    def examine():
        nonlocal checked
        for i in range(n):
            require(np.allclose(nodes[i].pose, poses[i], **tol), "pose of %s is %s, should be %s",
                    nodes[i].name, np.array(nodes[i].pose).tolist(), poses[i].tolist())
            require(np.allclose(nodes[i].location, poses[i][:3, 3], **tol), "location of %s is %s, should be %s",
                    nodes[i].name, nodes[i].location, poses[i][:3, 3])
        p, d = np.array(case["p"]), np.array(case["d"])
        for a, b, c in case["pairs"]:
            A, B, C = nodes[a], nodes[b], nodes[c]
            M = geom.rigid_inverse(to_root(b)) @ to_root(a)
            q, e = M[:3, :3] @ p + M[:3, 3], M[:3, :3] @ d
            require(np.allclose(A.transformation_to(B), M, **tol), "%s to %s: transformation %s, should be %s",
                    A.name, B.name, np.array(A.transformation_to(B)).tolist(), M.tolist())
            gp, gd = A.point_to_node(tuple(p), B), A.vector_to_node(tuple(d), B)
            require(np.allclose(gp, q, **tol), "%s to %s: point %s is %s, should be %s", A.name, B.name, p, gp, q)
            require(np.allclose(gd, e, **tol), "%s to %s: vector %s is %s, should be %s", A.name, B.name, d, gd, e)
            require(np.allclose(B.point_to_node(gp, A), p, **tol), "%s to %s and back moves %s", A.name, B.name, p)
            via = C.point_to_node(A.point_to_node(tuple(p), C), B)
            require(np.allclose(via, q, **tol), "%s to %s by way of %s: %s, not %s", A.name, B.name, C.name, via, q)
            ray = Ray(tuple(p), tuple(d), 555.0, 1.25, 2e-9, "src")
            r = ray.representation(A, B)
            require(np.allclose(r.position, q, **tol) and np.allclose(r.direction, e, **tol)
                    and (r.wavelength, r.travelled, r.duration, r.source) == (555.0, 1.25, 2e-9, "src"),
                    "%s represented in %s instead of %s is %s", ray, B.name, A.name, r)
            s = case["travel"]
            one = ray.propagate(s, case["index"]).representation(A, B)
            two = r.propagate(s, case["index"])
            require(np.allclose(one.position, two.position, **tol) and np.allclose(
                two.position, q + s * e, **tol), "moving and converting do not commute: %s, %s", one, two)
            require(abs(two.travelled - 1.25 - s) < 1e-12 and abs(
                two.duration - 2e-9 - s * case["index"] / 299792458e2) < 1e-20, "moved by %g: %s", s,
                (two.travelled, two.duration))
            checked += 6
    z = Ray((0.0, 1.0, 2.0), (0.0, 0.0, 1.0), 400.0).propagate(0.0, 1.5)
    require(tuple(z.position) == (0.0, 1.0, 2.0) and z.travelled == 0 and z.duration == 0, "moved by nothing: %s", z)
    examine()
    for op in case["ops"]:
        i, kind = op["node"], op["op"]
        node = nodes[i]
        if kind in ("location", "int-location"):
            node.location = op["v"]
            poses[i][:3, 3] = op["v"]
        elif kind == "translate":
            node.translate(tuple(op["v"]))
            poses[i][:3, 3] += op["v"]
        elif kind == "rotate":
            angle, axis = op["rot"]
            node.rotate(angle, [x * op["stretch"] for x in axis])
            poses[i][:3, :3] = geom.rodrigues(angle, axis) @ poses[i][:3, :3]
            turned.add(i)
        elif kind in ("look_at", "scaled-look_at"):
            before = poses[i]
            v = np.array(op["v"], float)
            v = v / np.linalg.norm(v)
            node.look_at(op["v"])
            got = np.array(node.pose, float)
            require(np.allclose(got[:3, 2], v, **tol), "looks at %s instead of %s", got[:3, 2], v)
            require(np.allclose(got[:3, 3], before[:3, 3], **tol), "look_at moved the node to %s", got[:3, 3])
            R = got[:3, :3]
            require(np.allclose(R @ R.T, np.eye(3), **tol) and np.linalg.det(R) > 0, "look_at made the pose %s",
                    R.tolist())
            # the shortest turn
            face = before[:3, 2]
            turn = R @ before[:3, :3].T
            angle = math.atan2(np.linalg.norm(np.cross(face, v)), face @ v)
            have = math.atan2(np.linalg.norm([turn[2, 1] - turn[1, 2], turn[0, 2] - turn[2, 0],
                                              turn[1, 0] - turn[0, 1]]) / 2, (np.trace(turn) - 1) / 2)
            require(abs(have - angle) < 1e-6, "look_at turned by %g instead of %g", have, angle)
            poses[i] = got.copy()
            turned.add(i)
        elif kind == "pose":
            m = geom.rigid(op["v"], op["rots"])
            node.pose = m
            poses[i] = m.copy()
            m[:3, 3] += 1.0     # the caller's array is not the node's
            turned.add(i)
        elif kind == "int-pose":
            m = np.eye(4, dtype=int)
            m[:3, 3] = op["v"]
            node.pose = m
            poses[i] = m.astype(float)
        elif kind == "parent":
            j = op["to"]
            k, ok = j, i != 0
            while k is not None:
                ok = ok and k != i
                k = parents[k]
            if ok:
                node.parent = nodes[j]
                parents[i] = j
        examine()
    deep = [i for i in turned if any(j in turned for j in ancestors(parents, i))]
    return Info(nontrivial=bool(deep), evaluations=checked, classes=sorted({o["op"] for o in case["ops"]}))


def ancestors(parents, i):
    out = []
    while parents[i] is not None:
        i = parents[i]
        out.append(i)
    return out


# ------------------------------------------------------------ intersections
@st.composite
def hits_case(draw):
    kinds = draw(st.sampled_from([("box", "sphere", "cylinder"), ("box", "sphere", "cylinder", "mesh"),
                                  ("sphere", "cylinder")]))
    opt = sc.Options(kinds=kinds, max_nodes=7, components=False)
    rays = [{"o": [draw(num(-0.95, 0.95)) for _ in range(3)], "d": draw(unit_vector()),
             "aim": draw(st.one_of(st.none(), st.integers(1, 7)))} for _ in range(8)]
    return {"scene": draw(sc.scene(opt)), "rays": rays}


def hits_prop(case):
    spec = case["scene"]
    model = sc.Model(spec)
    scene = sc.build(spec)
    half = np.array(sc.inner_box(spec["nodes"][0]["shape"]))
    size = 2 * float(np.linalg.norm(half)) + 1
    met = used = 0
    for r in case["rays"]:
        o = np.array(r["o"]) * half
        d = np.array(r["d"], float)
        if r["aim"] is not None:
            k = model.solids[r["aim"] % len(model.solids)]
            v = model.l2w[k][:3, 3] - o
            if np.linalg.norm(v) > 1e-3:
                d = v / np.linalg.norm(v)
        expect, ok = [], True
        for k in model.solids:
            t, edge = model.shapes[k].hits(model.local(k, o[None]), model.local_vec(k, d[None]))
            t, edge = t[0], edge[0]
            if np.any(np.isfinite(edge) & (edge < 1e-5 * size)):
                ok = False
            t = np.sort(t[np.isfinite(t)])
            if len(t):
                t = t[np.concatenate([[True], np.diff(t) > 1e-9])]
            if np.any(np.abs(t) < 1e-5 * size) or np.any(np.diff(t) < 1e-5 * size):
                ok = False
            expect += [(x, model.names[k]) for x in t if x > 0]
        if not ok:
            continue
        expect.sort()
        got = scene.intersections(tuple(o), tuple(d))
        where = "ray from %s along %s" % (tuple(o), tuple(d))
        s = [float((np.array(g.point) - o) @ d) for g in got]
        require(len(got) == len(expect), "%s meets %s, should meet %s", where,
                [(x, g.hit.name) for x, g in zip(s, got)], expect)
        require(all(b >= a - 1e-9 * size for a, b in zip(s, s[1:])), "%s: not ordered: %s", where, s)
        left = list(expect)
        for x, g in zip(s, got):
            near = [e for e in left if abs(e[0] - x) < 1e-8 * size and e[1] == g.hit.name]
            require(near, "%s meets %s at %g, should meet %s", where, g.hit.name, x, expect)
            left.remove(near[0])
            require(g.coordsys is scene.root, "%s: intersection in the frame of %s", where, g.coordsys)
            require(abs(g.distance - x) < 1e-8 * size, "%s: distance %g at %g", where, g.distance, x)
            p = np.array(g.point)
            require(np.abs(p - o - x * d).max() < 1e-8 * size, "%s: %s is not on the ray", where, p)
            local = g.to(g.hit)
            c = model.shapes[model.index[g.hit.name]].clearance(np.array(local.point)[None])[0]
            require(local.coordsys is g.hit and abs(c) < 1e-8 * size,
                    "%s: %s in its own frame is %g from the surface", where, g, c)
            back = local.to(scene.root)
            require(np.allclose(back.point, p, rtol=0, atol=1e-9 * size) and back == g, "%s: %s and back %s",
                    where, g, back)
        used += 1
        met += len({e[1] for e in expect}) >= 3
    return Info(nontrivial=met > 0, evaluations=used, classes=["several nodes"] * (met > 0))


# --------------------------------------------------------------- rearranged
@st.composite
def rearranged_case(draw, tracer):
    kinds = ("box", "sphere", "cylinder") + (("mesh",) if tracer == "python" else ())
    opt = sc.Options(kinds=kinds, max_nodes=6, max_components=2, max_lights=1, world_kinds=("sphere",),
                     touching=False)
    spec = draw(sc.scene(opt))
    for k, n in enumerate(spec["nodes"]):
        if n.get("shape"):      # equal indices would leave it to rounding whether there is a chance to reflect
            n["n"] *= 1 + 1e-4 * k
    how = draw(st.sampled_from(["flat", "groups", "turned", "turned", "inner-root", "tangled", "tangled"]))
    if how == "turned":     # the root does not turn, nor do the phase functions of what it is made of
        world = spec["nodes"][0]
        world["components"] = [c for c in world["components"] if c["type"] in ("absorber", "reactor")]
    return {"scene": spec, "seed": draw(seeds), "tracer": tracer, "how": how,
            "rot": [draw(axis_angle()), draw(axis_angle())],
            "picks": [draw(st.integers(0, 11)) for _ in range(8)],
            "extra": [draw(vec(-1, 1)), draw(axis_angle())]}


def rearrange(case):
    """The scene another way, and the world motion it has undergone."""
    spec = copy.deepcopy(case["scene"])
    how = case["how"]
    motion = np.eye(4)
    if how == "flat":
        sc.flatten(spec)
        spec["flat"] = True
        return spec, motion
    if how == "tangled":
        sc.tangle(spec, case["picks"])
        return spec, motion
    nodes = spec["nodes"]
    if how == "turned":
        motion = geom.rigid([0.0, 0.0, 0.0], case["rot"])
        for n in nodes:
            if n["parent"] == 0:
                m = motion @ geom.rigid(n["location"], n["rotations"])
                n["location"] = [float(v) for v in m[:3, 3]]
                n["rotations"] = sc.matrix_rotations(m[:3, :3])
        return spec, motion
    # a group with an arbitrary pose in between, undone by what is below it
    g = geom.rigid(case["extra"][0], [case["extra"][1]])
    inv = geom.rigid_inverse(g)
    out, index = [nodes[0]], {0: 0}
    mid = {}
    for i, n in enumerate(nodes[1:], 1):
        p = index[n["parent"]]
        if how == "groups" or n["parent"] == 0:
            if p not in mid:
                out.append({"name": "mid-%d" % p, "parent": p, "location": case["extra"][0],
                            "rotations": [case["extra"][1]], "shape": None, "components": []})
                mid[p] = len(out) - 1
            m = inv @ geom.rigid(n["location"], n["rotations"])
            n = dict(n, parent=mid[p], location=[float(v) for v in m[:3, 3]],
                     rotations=sc.matrix_rotations(m[:3, :3]))
        else:
            n = dict(n, parent=p)
        out.append(n)
        index[i] = len(out) - 1
    spec["nodes"] = out
    return spec, motion


def rearranged_prop(case):
    other, motion = rearrange(case)
    if case["tracer"] == "engine":
        run = lambda x: trace.engine(x, 200, case["seed"], maxsteps=40, max_events=130).histories()
    else:
        run = lambda x: trace.python(x, 8, case["seed"], maxsteps=25, reseed=True)
    a, b = list(run(case["scene"])), list(run(other))
    R = motion[:3, :3]
    differing, transitions, message = oracle.compare_histories(
        sc.Model(case["scene"]), a, b, lambda p: p @ R, lambda v: v @ R, note="%s:" % case["how"])
    mesh = any((n.get("shape") or {}).get("type") == "mesh" for n in case["scene"]["nodes"])
    allowed = 1 + 0.005 * len(a) + 2 * mesh
    require(differing <= allowed, "%d of %d rays differ, such as %s", differing, len(a), message)
    return Info(nontrivial=transitions > 2 * len(a), evaluations=transitions,
                classes=[case["how"]] + ["exact"] * (differing == 0))


PARTS = [
    Part("frames", frames_case, frames_prop, quick=3200, thorough=120000, shards=8,
         rule="rotations at two depths"),
    Part("intersections", hits_case, hits_prop, quick=800, thorough=24000, shards=8,
         rule="a ray met three nodes"),
    Part("rearranged", lambda: rearranged_case("engine"), rearranged_prop, quick=320, thorough=12000, shards=8,
         rule="more than two events a ray"),
    Part("rearranged-python", lambda: rearranged_case("python"), rearranged_prop, quick=120, thorough=4000,
         shards=8, rule="more than two events a ray"),
]
