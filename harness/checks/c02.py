"""C02: photons are where, and in what, the scene says they are."""
from hypothesis import strategies as st

from harness import gen, oracle, scenes as sc, trace
from harness.core import Info, Part, require

ID = "C02"
RULE = ("A case is a generated scene and a seed; every transition of every history is compared with an "
        "independent vectorised ray caster (nearest surface, its owner, the innermost solid before and "
        "after). Evaluations are transitions decided. Non-trivial: the case decided surface events in "
        "at least two different containers or of at least two different owners.")
ASSUMPTIONS = ["transitions whose reference geometry is ill-conditioned (edge or tangency within 1e-7) "
               "are not decided; their number is in the classes as 'undecided'"]


@st.composite
def engine_case(draw):
    return {"scene": draw(sc.scene(sc.Options(max_nodes=8, max_components=2))), "seed": draw(gen.seeds)}


def decide(model, hs):
    flat = oracle.Flat(hs)
    steps = oracle.Steps(model, flat)
    used, skipped, kinds = oracle.check_exact(model, flat, steps)
    seen = {(flat.meta[i].get("container"), flat.meta[i].get("hit"), flat.meta[i].get("adjacent"))
            for i in steps.rows if flat.kind[i] in oracle.SURFACE}
    classes = sorted(kinds) + (["mostly undecided"] if skipped > 5 + 0.2 * (used + skipped) else ["undecided"] if skipped else [])
    # a light at the centre of a regular solid shines into its corners, say
    decided = skipped <= 5 + 0.2 * (used + skipped)
    triples = len(seen)
    if any(c not in (h, a) for c, h, a in seen if a):
        classes.append("sibling-contact")
    return Info(nontrivial=decided and (len({c for c, _, _ in seen}) >= 2 or len({h for _, h, _ in seen}) >= 2),
                classes=classes + ["interfaces>=%d" % (4 if triples >= 4 else 1)], evaluations=used)


def engine_prop(case):
    model = sc.Model(case["scene"])
    res = trace.engine(case["scene"], 250, case["seed"], maxsteps=200, max_events=500)
    return decide(model, list(res.histories()))


@st.composite
def python_case(draw):
    kinds = draw(st.sampled_from([("box", "sphere", "cylinder"), ("mesh", "box"),
                                  ("box", "sphere", "cylinder", "mesh")]))
    return {"scene": draw(sc.scene(sc.Options(kinds=kinds, max_components=1))),
            "seed": draw(gen.seeds)}


def python_prop(case):
    model = sc.Model(case["scene"])
    hs = trace.python(case["scene"], 15, case["seed"], maxsteps=40)
    return decide(model, hs)


@st.composite
def scale_case(draw, tracer):
    kinds = ("box", "sphere", "cylinder") + (("mesh",) if tracer == "python" else ())
    return {"scene": draw(sc.scene(sc.Options(kinds=kinds, max_nodes=5, max_components=2))),
            "seed": draw(gen.seeds), "tracer": tracer, "power": draw(st.integers(-4, 10))}


def scale_prop(case):
    """A scene in other units of length has the same histories."""
    s = 2.0 ** case["power"]
    spec = case["scene"]
    if case["tracer"] == "engine":
        run = lambda x: trace.engine(x, 200, case["seed"], maxsteps=40, max_events=130).histories()
    else:
        run = lambda x: trace.python(x, 8, case["seed"], maxsteps=25, reseed=True)
    a, b = list(run(spec)), list(run(sc.scaled(spec, s)))
    differing, transitions, message = oracle.compare_histories(
        sc.Model(spec), a, b, lambda p: p / s, lambda v: v, note="when scaled by %g" % s)
    # Rounding can be amplified by many curved surfaces, or decide a rare borderline
    mesh = any((n.get("shape") or {}).get("type") == "mesh" for n in spec["nodes"])
    allowed = 1 + 0.005 * len(a) + 2 * mesh     # the mesh library has lengths of its own
    require(differing <= allowed, "%d of %d rays differ, such as %s", differing, len(a), message)
    return Info(nontrivial=transitions > 2 * len(a), evaluations=transitions,
                classes=["scale %s" % ("< 1/4" if s < 0.25 else "> 100" if s > 100 else "near 1")]
                + ["exact"] * (differing == 0))


@st.composite
def crowd_case(draw, tracer):
    """Many solids along a line, or one inside the other, listed in any order."""
    many = 100 if tracer == "engine" else 24
    surface = draw(st.sampled_from(["null", "null", "fresnel"]))
    index = lambda: draw(st.sampled_from([1.0, 1.0, 1.01])) if surface == "fresnel" else draw(st.sampled_from(sc.INDICES))
    nested = draw(st.booleans())
    n = draw(st.integers(6, many))
    kinds = draw(st.sampled_from([["box"], ["sphere"], ["cylinder"], ["box", "sphere", "cylinder"]]))
    solid = lambda name, parent, at, shape: {
        "name": name, "parent": parent, "location": at, "rotations": [], "shape": shape, "n": index(),
        "surface": surface, "components": []}
    nodes, at = [], 0.0
    if nested:
        size = 1.0
        for i in range(n):
            kind = draw(st.sampled_from(kinds))
            # each fits in the one before it
            nodes.append({"box": {"type": "box", "size": [size * 2] * 3}, "sphere": {"type": "sphere", "radius": size},
                          "cylinder": {"type": "cylinder", "length": 2 * size, "radius": size}}[kind])
            size *= 0.97 * (0.57 if kind == "sphere" else 0.7 if kind == "cylinder" else 1.0) if len(kinds) > 1 else 0.97
        n = len(nodes) if len(kinds) == 1 else min(n, 30)
        nodes = [solid("n%d" % (i + 1), 0, [0.0, 0.0, 0.0], shape) for i, shape in enumerate(nodes[:n])]
        length = 3.0
    else:
        for i in range(n):
            kind = draw(st.sampled_from(kinds))
            h = draw(gen.num(0.05, 0.5))
            at += h + (0.0 if kind == "box" and draw(st.integers(0, 4)) == 0 else draw(gen.num(0.01, 0.4)))
            nodes.append(solid("n%d" % (i + 1), 0, [0.0, 0.0, at], {
                "box": {"type": "box", "size": [1.0, 1.0, 2 * h]}, "sphere": {"type": "sphere", "radius": h},
                "cylinder": {"type": "cylinder", "length": 2 * h, "radius": 0.5}}[kind]))
            at += h
        for node in nodes:
            node["location"][2] -= at / 2
        length = at + 2.0
    order = draw(st.sampled_from(["near first", "far first", "any"]))
    if order == "far first":
        nodes.reverse()
    elif order == "any":
        nodes = draw(st.permutations(nodes))
    world = solid("world", None, [0.0, 0.0, 0.0], {"type": "sphere", "radius": 2 * length})
    world["n"] = 1.0
    lights = [{"name": "L%d" % i, "parent": 0, "location": [draw(gen.num(-0.04, 0.04)), draw(gen.num(-0.04, 0.04)), z],
               "rotations": [[a, [1.0, 0.0, 0.0]]] + [draw(gen.axis_angle())] * turn, "shape": None, "components": [],
               "light": {"name": "light-%d" % i, "wavelength": None, "position": None,
                         "direction": {"cone": 0.02} if not turn else "isotropic"}}
              for i, (z, a, turn) in enumerate([(-length / 2 - 0.5, 0.0, 0), (length / 2 + 0.5, 3.14159, 0),
                                                (draw(gen.num(-0.5, 0.5)) * length, 0.0, 1)])]
    return {"scene": {"nodes": [world] + list(nodes) + lights, "flat": True}, "seed": draw(gen.seeds), "tracer": tracer,
            "order": order, "nested": nested}


def crowd_prop(case):
    model = sc.Model(case["scene"])
    if case["tracer"] == "engine":
        hs = list(trace.engine(case["scene"], 12, case["seed"], maxsteps=300, max_events=700).histories())
    else:
        hs = trace.python(case["scene"], 3, case["seed"], maxsteps=120)
    info = decide(model, hs)
    longest = max(len(h) for h in hs)
    return Info(nontrivial=longest > 20, evaluations=info.evaluations,
                classes=info.classes + [case["order"], "nested" if case["nested"] else "row"]
                + ["solids %s" % ("> 60" if len(case["scene"]["nodes"]) > 64 else "> 30" if len(case["scene"]["nodes"]) > 34
                                  else "few")])


PARTS = [
    Part("engine", engine_case, engine_prop, quick=480, thorough=20000, shards=8,
         rule="surface events in two containers or on two owners"),
    Part("python", python_case, python_prop, quick=240, thorough=8000, shards=8,
         rule="surface events in two containers or on two owners"),
    Part("scale", lambda: scale_case("engine"), scale_prop, quick=240, thorough=10000, shards=8,
         rule="more than two events a ray"),
    Part("scale-python", lambda: scale_case("python"), scale_prop, quick=96, thorough=4000, shards=8,
         rule="more than two events a ray"),
    Part("crowd", lambda: crowd_case("engine"), crowd_prop, quick=96, thorough=6000, shards=8,
         rule="a history of more than twenty events"),
    Part("crowd-python", lambda: crowd_case("python"), crowd_prop, quick=32, thorough=2000, shards=8,
         rule="a history of more than twenty events"),
]
