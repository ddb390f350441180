"""C13: spectra interpolate, sample and invert faithfully, or are refused."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Info, Part, require
from harness.gen import lognum, num, seeds

ID = "C13"
RULE = ("A case is a set of (x, y) data (even or uneven spacing, integers, zeros, spikes, wide ranges), given as lists, "
        "tuples, arrays of several types, columns of a table or callables, continuous or a histogram. distribution: "
        "evaluation, lookup and sampling are compared with a reference at generated arguments, scalar and in arrays; "
        "the caller's data must be as before and later changes to it must not matter. refused: the data is broken in "
        "one way, and construction must raise; arguments out of range must raise. components: the coefficients and "
        "emission of every component class built from the data in every documented way. Evaluations are queries "
        "compared. Non-trivial: three or more points with uneven spacing or zeros.")
ASSUMPTIONS = ["histograms are only specified at the given values of x",
               "between the points the cumulative distribution is only required to be increasing and inverted by sampling"]


@st.composite
def data(draw, positive=True):
    n = draw(st.integers(2, 9))
    kind = draw(st.sampled_from(["even", "uneven", "uneven", "wild", "int"]))
    x0 = draw(num(-50, 900))
    if kind == "int":
        x = [int(x0)]
        for _ in range(n - 1):
            x.append(x[-1] + draw(st.integers(1, 40)))
        y = [draw(st.integers(0, 5)) for _ in range(n)]
    else:
        step = draw(lognum(1e-3, 50))
        x = [x0]
        for _ in range(n - 1):
            d = step if kind == "even" else draw(num(0.1, 3)) * step if kind == "uneven" else draw(lognum(1e-3, 300))
            x.append(x[-1] + d)
        top = draw(lognum(1e-6, 1e6))
        y = [draw(st.one_of(num(0, 1), num(0, 1), st.just(0.0))) * top for _ in range(n)]
        if kind == "wild":
            y[draw(st.integers(0, n - 1))] = top * 1e3
    if positive and not sum(a + b for a, b in zip(y, y[1:])) > 0:
        y[0] = 1
    return {"x": x, "y": y, "kind": kind}


FORMS = ["list", "tuple", "array", "array", "float32", "strided", "readonly"]


def shaped(v, form):
    if form == "list":
        return list(v)
    if form == "tuple":
        return tuple(v)
    if form == "float32":
        a = np.array(v, dtype=np.float32)
        return a if np.all(np.diff(a) > 0) or True else np.array(v)
    if form == "strided":
        a = np.zeros((len(v), 3), dtype=np.array(v).dtype)
        a[:, 1] = v
        return a[:, 1]
    a = np.array(v)
    if form == "readonly":
        a.setflags(write=False)
    return a


@st.composite
def distribution_case(draw):
    d = draw(data())
    d["form_x"] = draw(st.sampled_from(FORMS))
    d["form_y"] = draw(st.sampled_from(FORMS))
    if np.any(np.diff(np.array(d["x"], np.float32)) <= 0) and d["form_x"] == "float32":
        d["form_x"] = "array"
    d["hist"] = draw(st.integers(0, 2)) == 0
    d["p"] = [draw(num(0, 1)) for _ in range(draw(st.integers(1, 6)))] + [0.0, 1.0]
    d["at"] = [draw(num(0, 1)) for _ in range(draw(st.integers(1, 6)))]
    d["build"] = draw(st.sampled_from(["direct", "direct", "functions"]))
    d["spoil"] = draw(st.booleans())
    d["seed"] = draw(seeds)
    return d


def reference(x, y):
    """Evaluation and cumulative integral of the piecewise linear data, in plain floats."""
    c = [0.0]
    for i in range(len(x) - 1):
        c.append(c[-1] + 0.5 * (y[i] + y[i + 1]) * (x[i + 1] - x[i]))
    return [v / c[-1] for v in c]


def value(x, y, t):
    for i in range(len(x) - 1):
        if x[i] <= t <= x[i + 1]:
            f = (t - x[i]) / (x[i + 1] - x[i])
            return y[i] * (1 - f) + y[i + 1] * f
    raise ValueError(t)


def same(a, b, scale, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * scale


def both(f, args, what, form=np.array):
    """f for scalars and for an array of them: the answers, which must agree."""
    one = [f(v) for v in args]
    for v, r in zip(args, one):
        require(np.ndim(r) == 0, "%s of the number %r is %r", what, v, r)
    many = f(form(args))
    require(np.shape(many) == (len(args),), "%s of %d values is %r", what, len(args), many)
    require(all(float(a) == float(b) for a, b in zip(one, many)), "%s of %s is %s, one at a time %s", what, args,
            np.asarray(many).tolist(), one)
    single = f(form([args[0]]))
    require(np.shape(single) == (1,) and float(single[0]) == float(one[0]), "%s of an array of one value is %r",
            what, single)
    return [float(v) for v in one]


def distribution_prop(case):
    from pvtrace import Distribution

    x, y, hist = case["x"], case["y"], case["hist"]
    tol = 1e-5 if "float32" in (case["form_x"], case["form_y"]) else 1e-9
    gx, gy = shaped(x, case["form_x"]), shaped(y, case["form_y"])
    x, y = [float(v) for v in gx], [float(v) for v in gy]
    before = [np.array(gx), np.array(gy)]
    held = []
    if case["build"] == "functions":
        parts = [np.array(y) * 0.25, np.array(y) * 0.75]
        parts[0][0] = parts[1][-1] = 0.0
        whole = parts[0] + parts[1]
        bad = len(y) > 2
        if bad:
            parts.append(np.full(len(y), np.nan))
            parts[2][1] = np.inf
            parts[2][2] = -np.inf
            parts[2][0] = [np.nan, -np.inf, np.inf][case["seed"] % 3]
        held = [v.copy() for v in parts]
        if not sum(whole[i] + whole[i + 1] for i in range(len(y) - 1)) > 0:
            return Info(nontrivial=False, evaluations=0)
        d = Distribution.from_functions(gx, [lambda a, v=v: v for v in parts], hist=hist)
        for v, h in zip(parts, held):
            require(np.array_equal(v, h, equal_nan=True), "from_functions changed the array a callable returned "
                    "from %s to %s", h.tolist(), v.tolist())
        y = [float(v) for v in whole]
    else:
        d = Distribution(gx, gy, hist=hist)
    if case["spoil"]:       # what the caller does with the arrays afterwards is their business
        for g in (gx, gy):
            if isinstance(g, np.ndarray) and g.flags.writeable:
                g *= 3
    else:
        require(np.array_equal(before[0], gx) and np.array_equal(before[1], gy), "construction changed the data")
    n = len(x)
    top = max(y)
    span = max(abs(x[0]), abs(x[-1]))
    queries = 0
    if hist:
        got = both(d, x, "value")
        require(all(same(a, b, top, tol) for a, b in zip(got, y)), "values at %s are %s, should be %s", x, got, y)
        c = np.cumsum(y) / np.sum(y)
        got = both(d.lookup, x, "lookup")
        require(all(same(a, b, 1, tol) for a, b in zip(got, c)), "lookup at %s is %s, should be %s", x, got, c.tolist())
        p = [v for v in case["p"] if v > 0 and np.abs(c - v).min() > tol]
        if p:
            got = both(d.sample, p, "sample")
            want = [x[int(np.sum(c < v))] for v in p]
            require(got == want, "samples at %s are %s, should be %s", p, got, want)
        rng = np.random.RandomState(case["seed"])
        drawn = np.asarray(d.sample(rng.uniform(0, 1, 300)))
        allowed = {a for a, b in zip(x, y) if b > 0}
        require(set(drawn.tolist()) <= allowed, "sampled %s from a histogram of %s",
                sorted(set(drawn.tolist()) - allowed), sorted(allowed))
        queries += 3 * n + len(p) + 300
    else:
        at = [x[0] + (x[-1] - x[0]) * v for v in case["at"]] + x
        at = [min(max(v, x[0]), x[-1]) for v in at]
        got = both(d, at, "value", form=list if case["seed"] % 2 else np.array)
        for t, g in zip(at, got):
            require(same(g, value(x, y, t), top, tol), "value at %r is %r, should be %r", t, g, value(x, y, t))
        c = reference(x, y)
        got = both(d.lookup, x, "lookup")
        require(got[0] == 0 and got[-1] == 1 and all(same(a, b, 1, tol) for a, b in zip(got, c)),
                "lookup at %s is %s, should be %s", x, got, c)
        order = sorted(at)
        got = both(d.lookup, order, "lookup", form=tuple if case["seed"] % 2 else np.array)
        require(all(a <= b + 1e-12 for a, b in zip(got, got[1:])), "lookup is not increasing: %s at %s", got, order)
        for t, g in zip(order, got):
            i = max(j for j in range(n) if x[j] <= t)
            lo, hi = c[i], c[min(i + 1, n - 1)]
            require(lo - tol <= g <= hi + tol, "lookup at %r is %r, outside %r to %r", t, g, lo, hi)
            density = (hi - lo) * span / max(1e-300, x[min(i + 1, n - 1)] - x[i])
            if density > 1e-3 and x[i] < t < x[min(i + 1, n - 1)]:
                back = d.sample(g)
                require(same(back, t, span * 1e-2, tol), "lookup of %r is %r, whose sample is %r", t, g, back)
        p = sorted(case["p"])
        got = both(d.sample, p, "sample", form=list if case["seed"] % 2 else np.array)
        require(all(x[0] <= v <= x[-1] for v in got) and all(a <= b for a, b in zip(got, got[1:])),
                "samples at %s are %s", p, got)
        for q, v in zip(p, got):
            require(same(d.lookup(v), q, 1, tol) or any(q in (0.0, 1.0) for _ in (0,)), "sample at %r is %r, whose "
                    "lookup is %r", q, v, d.lookup(v))
            for i in range(n - 1):
                if x[i] < v < x[i + 1]:
                    require(c[i + 1] > c[i], "sample at %r is %r, where the density is zero", q, v)
        queries += 4 * len(at) + 2 * len(p)
    for f, bad in ((d, [x[0] - 1e-3 * (1 + span), x[-1] + 1e-3 * (1 + span), math.nan]),
                   (d.lookup, [x[0] - 1e-3 * (1 + span), x[-1] + 1e-3 * (1 + span), math.nan]),
                   (d.sample, [-0.01, 1.01, math.nan])):
        ok = x[0] if f is not d.sample else 0.5
        for v in bad:
            for arg in (v, np.array([ok, v]), [v, ok]):
                try:
                    r = f(arg)
                except ValueError:
                    continue
                require(False, "%s of %s, out of range, is %s", getattr(f, "__name__", "value"), arg, r)
    gaps = np.diff(x)
    return Info(nontrivial=n > 2 and (gaps.max() > 1.1 * gaps.min() or 0 in y), evaluations=queries,
                classes=[case["kind"], "hist" if hist else "continuous", case["build"], case["form_x"]])


# -------------------------------------------------------------------- refused
@st.composite
def refused_case(draw):
    d = draw(data())
    n = len(d["x"])
    d["how"] = draw(st.sampled_from(["unsorted", "equal", "negative", "nan", "inf", "nan-x", "shorter", "longer",
                                     "single-y"]))
    d["i"] = draw(st.integers(0, n - 2))
    d["form"] = draw(st.sampled_from(["list", "tuple", "array"]))
    d["hist"] = draw(st.booleans())
    d["build"] = draw(st.sampled_from(["direct", "direct", "functions", "absorber", "scatterer", "luminophore",
                                       "emission"]))
    return d


def refused_prop(case):
    from pvtrace import Absorber, Distribution, Luminophore, Scatterer

    x, y, i, how = list(case["x"]), list(case["y"]), case["i"], case["how"]
    build = case["build"]
    if build != "direct" and how in ("shorter", "longer", "single-y"):
        build = "direct"
    if build == "functions" and how in ("nan", "inf"):
        build = "direct"        # callables may have gaps: they count as zero
    if how == "unsorted":
        x[i], x[i + 1] = x[i + 1], x[i]
    elif how == "equal":
        x[i + 1] = x[i]
    elif how == "negative":
        y[i] = -1e-3 - y[i]
    elif how == "nan":
        y[i] = math.nan
    elif how == "inf":
        y[i] = math.inf
    elif how == "nan-x":
        x[i] = math.nan
    elif how == "shorter":
        y.pop(i)
    elif how == "longer":
        y.append(1.0)
    elif how == "single-y":
        y = [1.0]
    form = {"list": list, "tuple": tuple, "array": np.array}[case["form"]]
    good = np.array([[400.0, 1.0], [500.0, 1.0]])
    try:
        if build == "direct":
            made = Distribution(form(x), form(y), hist=case["hist"])
        elif build == "functions":
            made = Distribution.from_functions(form(x), [lambda a: np.array(y, float)], hist=case["hist"])
        elif build == "absorber":
            made = Absorber(np.column_stack((x, y)), hist=case["hist"])
        elif build == "scatterer":
            made = Scatterer(np.column_stack((x, y)), hist=case["hist"])
        elif build == "luminophore":
            made = Luminophore(np.column_stack((x, y)), emission=good, hist=case["hist"])
        else:
            made = Luminophore(good, emission=np.column_stack((x, y)), hist=case["hist"])
    except ValueError:
        made = None
    require(made is None, "%s data is accepted by %s: x=%s y=%s", how, build, x, y)
    return Info(nontrivial=True, evaluations=1, classes=[how, build])


# ----------------------------------------------------------------- components
@st.composite
def component_case(draw):
    d = draw(data())
    d["class"] = draw(st.sampled_from(["absorber", "reactor", "scatterer", "luminophore"]))
    d["coefficient"] = draw(st.sampled_from(["constant", "integer", "table", "list", "tuple", "callables"]))
    d["value"] = draw(st.one_of(num(0, 10), st.just(0.0)))
    e = draw(data())
    d["emission"] = {"x": e["x"], "y": e["y"],
                     "form": draw(st.sampled_from(["table", "none", "list", "callables"]))}
    d["at"] = [draw(num(0, 1)) for _ in range(4)]
    d["p"] = [draw(num(0, 1)) for _ in range(4)]
    d["qy"] = draw(st.one_of(st.none(), num(0, 1)))
    d["tau"] = draw(st.one_of(st.none(), st.tuples(lognum(1e-12, 1e-3), lognum(1e-12, 1e-3)).map(list)))
    return d


def component_prop(case):
    from pvtrace import Absorber, Luminophore, Reactor, Scatterer

    x, y = [float(v) for v in case["x"]], [float(v) for v in case["y"]]
    form = case["coefficient"]
    kw = {"name": "thing"}
    if form == "constant":
        coefficient = case["value"]
    elif form == "integer":
        coefficient = int(case["value"])
    elif form == "table":
        coefficient = np.column_stack((x, y))
    elif form in ("list", "tuple"):
        coefficient = list(y) if form == "list" else tuple(y)
        kw["x"] = x if case["value"] > 5 else np.array(x)
    else:
        half = 0.5 * np.array(y)
        coefficient = [lambda a: half, lambda a: half.copy()]
        kw["x"] = np.array(x)
    cls = {"absorber": Absorber, "reactor": Reactor, "scatterer": Scatterer, "luminophore": Luminophore}[case["class"]]
    spectral = form not in ("constant", "integer")
    E = case["emission"]
    if case["class"] in ("scatterer", "luminophore"):
        if case["tau"]:
            kw["tau_rad"], kw["tau_nr"] = case["tau"]
        elif case["qy"] is not None:
            kw["quantum_yield"] = case["qy"]
    ex, ey = [float(v) for v in E["x"]], [float(v) for v in E["y"]]
    if case["class"] == "luminophore":
        if E["form"] == "table":
            kw["emission"] = np.column_stack((ex, ey))
        elif E["form"] in ("list", "callables"):
            if not spectral or form == "table":
                kw["x"] = ex
            else:
                ex, ey = x, y
            kw["emission"] = list(ey) if E["form"] == "list" else [lambda a: np.array(ey)]
    c = cls(coefficient, **kw)
    require(c.name == "thing", "name is %r", c.name)
    if spectral:
        at = [min(max(x[0] + (x[-1] - x[0]) * v, x[0]), x[-1]) for v in case["at"]] + x
        want = [value(x, y, t) for t in at]
    else:
        at = [300.0, 555.0] + [300 + 600 * v for v in case["at"]]
        want = [float(coefficient)] * len(at)
    got = both(c.coefficient, at, "coefficient of %s from %s" % (case["class"], form))
    for t, g, w in zip(at, got, want):
        require(same(g, w, max(want) + 1e-300), "coefficient at %r is %r, should be %r", t, g, w)
    if case["class"] in ("absorber", "reactor"):
        require(c.quantum_yield == 0 and c.is_radiative(None) is False, "quantum yield is %r", c.quantum_yield)
    elif case["tau"]:
        a, b = case["tau"]
        require(same(c.quantum_yield, b / (a + b), 1), "quantum yield is %r for lifetimes %s", c.quantum_yield, (a, b))
    else:
        want = 1.0 if case["qy"] is None else case["qy"]
        require(c.quantum_yield == want, "quantum yield is %r, should be %r", c.quantum_yield, want)
    if case["class"] == "luminophore":
        from pvtrace import Ray

        ray = Ray((0, 0, 0), (0, 0, 1), 555.0)
        p = case["p"]
        drawn = []
        np.random.seed(3)
        for _ in range(60):
            r = c.emit(ray, method="full")
            require(r.source == "thing" and abs(np.linalg.norm(r.direction) - 1) < 1e-9, "emitted %r", r)
            drawn.append(float(r.wavelength))
        if E["form"] == "none":
            if "x" not in kw:       # a Gaussian of width 40 about 600
                u = sorted(0.5 + 0.5 * math.erf((v - 600) / 40) for v in drawn)
                D = max(max((i + 1) / 60 - v, v - i / 60) for i, v in enumerate(u))
                require(D * math.sqrt(60) < 2.6, "default emission %s is not the Gaussian", sorted(drawn))
        else:
            require(all(ex[0] <= v <= ex[-1] for v in drawn), "emitted %s from %s", drawn, (ex, ey))
            rc = reference(ex, ey)
            u = sorted(float(np.interp(v, ex, rc)) for v in drawn)
            D = max(max((i + 1) / 60 - v, v - i / 60) for i, v in enumerate(u))
            require(D * math.sqrt(60) < 2.6 or max(np.diff(rc)) > 0.999, "emission %s does not follow %s",
                    sorted(drawn), (ex, ey))
    return Info(nontrivial=spectral and len(x) > 2, evaluations=len(at),
                classes=[case["class"], form] + ["emission=" + E["form"]] * (case["class"] == "luminophore"))


PARTS = [
    Part("distribution", distribution_case, distribution_prop, quick=6000, thorough=300000, shards=8,
         rule="three or more points, uneven spacing or zeros"),
    Part("refused", refused_case, refused_prop, quick=1600, thorough=40000, shards=8, rule="every case"),
    Part("components", component_case, component_prop, quick=2400, thorough=80000, shards=8,
         rule="a spectrum of three or more points"),
]
