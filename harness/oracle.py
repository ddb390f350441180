"""The history oracle: is this set of photon histories one that the scene's
physics allows, and do the random outcomes have the right probabilities?

Everything here is computed from the scene *specification* with the reference
geometry in geom.py and textbook formulas; nothing of pvtrace is called.
"""
import math

import numpy as np

from harness import scenes as sc
from harness.core import Violation, require

C_CM = 299792458.0 * 100.0
KB_EV = 1.380649e-23 / 1.602176634e-19
TERMINAL = {"EXIT", "NONRADIATIVE", "REACT", "KILL"}
SURFACE = {"REFLECT", "TRANSMIT", "EXIT"}
OUTCOME = {"EMIT", "SCATTER", "NONRADIATIVE", "REACT"}


class Flat:
    """Histories flattened to arrays; row k>0 of a history is a transition."""

    def __init__(self, histories):
        kind, pos, dir_, wav, trav, dur, src = [], [], [], [], [], [], []
        meta, ray_id, step = [], [], []
        self.lengths = []
        for r, h in enumerate(histories):
            self.lengths.append(len(h))
            for k, (ray, event, m) in enumerate(h):
                kind.append(event.name)
                pos.append(ray.position)
                dir_.append(ray.direction)
                wav.append(ray.wavelength)
                trav.append(ray.travelled)
                dur.append(ray.duration)
                src.append(ray.source)
                meta.append(m or {})
                ray_id.append(r)
                step.append(k)
        self.kind = np.array(kind, dtype=object)
        self.pos = np.array(pos, float).reshape(-1, 3)
        self.dir = np.array(dir_, float).reshape(-1, 3)
        self.wav = np.array(wav, float)
        self.trav = np.array(trav, float)
        self.dur = np.array(dur, float)
        self.src = src
        self.meta = meta
        self.ray = np.array(ray_id)
        self.step = np.array(step)

    def where(self, i):
        return "ray %d step %d (%s)" % (self.ray[i], self.step[i], self.kind[i])


# ---------------------------------------------------------------- bookkeeping
def check_grammar(model, histories, maxsteps=1000, maxpathlength=None, max_events=None):
    """Event grammar of whole histories."""
    comp = model.comp
    for r, h in enumerate(histories):
        names = [e.name for _, e, _ in h]
        where = "ray %d %s" % (r, names if len(names) < 40 else names[:20] + ["..."] + names[-20:])
        require(len(names) >= 2, "history without any outcome: %s", where)
        require(names[0] == "GENERATE", "history does not begin with GENERATE: %s", where)
        require("GENERATE" not in names[1:], "GENERATE again later: %s", where)
        require(names[-1] in TERMINAL, "history ends without a terminal event: %s", where)
        for k, nm in enumerate(names[:-1]):
            require(nm not in TERMINAL, "history goes on after %s: %s", nm, where)
        for k in range(1, len(h)):
            m = h[k][2] or {}
            if names[k] == "ABSORB":
                require(k + 1 < len(h), "ABSORB without outcome: %s", where)
                require(names[k + 1] in OUTCOME, "ABSORB followed by %s: %s", names[k + 1], where)
                m2 = h[k + 1][2] or {}
                require(m.get("component") is not None and m.get("component") == m2.get("component"),
                        "ABSORB by %s but outcome by %s: %s", m.get("component"),
                        m2.get("component"), where)
                require(m.get("container") == m2.get("container"),
                        "ABSORB in %s but outcome in %s: %s", m.get("container"),
                        m2.get("container"), where)
                require(m["component"] in comp, "unknown component %r: %s", m["component"], where)
                kind = comp[m["component"]]["type"]
                allowed = {"absorber": ("NONRADIATIVE",), "reactor": ("REACT",),
                           "scatterer": ("SCATTER", "NONRADIATIVE"),
                           "luminophore": ("EMIT", "NONRADIATIVE")}[kind]
                require(names[k + 1] in allowed, "%s absorbed, but outcome %s: %s", kind,
                        names[k + 1], where)
            elif names[k] in OUTCOME:
                require(names[k - 1] == "ABSORB", "%s without ABSORB: %s", names[k], where)
        # budgets
        steps = sum(n in ("REFLECT", "TRANSMIT", "EMIT", "SCATTER") for n in names)
        require(steps <= maxsteps, "%d interactions with maxsteps=%d: %s", steps, maxsteps, where)
        killed = names[-1] == "KILL"
        last = h[-1][0]
        over = maxpathlength is not None and last.travelled > maxpathlength
        full = max_events is not None and len(names) >= max_events - 2
        require(not killed or steps == maxsteps or over or full,
                "KILL after %d interactions and %g travelled with maxsteps=%s "
                "maxpathlength=%s max_events=%s: %s", steps, last.travelled, maxsteps,
                maxpathlength, max_events, where)
        if max_events is not None:
            require(len(names) <= max_events, "more events than max_events=%d: %s",
                    max_events, where)
        require(killed or steps < maxsteps, "%d interactions without KILL with maxsteps=%d: %s",
                steps, maxsteps, where)
        if maxpathlength is not None:
            # at most one interaction beyond the limit
            for k in range(1, len(h) - 1):
                if h[k][0].travelled > maxpathlength * (1 + 1e-12) and names[k] in (
                        "REFLECT", "TRANSMIT", "EMIT", "SCATTER"):
                    require(k == len(h) - 2 and killed,
                            "travels on beyond maxpathlength=%g: %s", maxpathlength, where)


# -------------------------------------------------------------- exact physics
class Steps:
    """Reference facts about every transition (row i-1 -> row i)."""

    def __init__(self, model, flat):
        self.model = model
        self.flat = flat
        rows = np.where(flat.step > 0)[0]
        self.rows = rows
        prev = rows - 1
        moving = np.array([k in ("REFLECT", "TRANSMIT", "EXIT", "ABSORB") for k in flat.kind[rows]])
        self.moving = moving
        o = flat.pos[prev]
        d = flat.dir[prev]
        n = len(rows)
        nearest = np.full(n, np.inf)
        all_t, all_node, all_edge = [], [], []
        amb = np.zeros(n, bool)
        for i in model.solids:
            t, edge = model.shapes[i].hits(model.local(i, o), model.local_vec(i, d))
            all_t.append(t)
            all_edge.append(edge)
            all_node.append(np.full(t.shape, i))
        T = np.concatenate(all_t, axis=1)
        E = np.concatenate(all_edge, axis=1)
        N = np.concatenate(all_node, axis=1)
        with np.errstate(invalid="ignore"):
            amb |= ((np.abs(T) > 1e-11) & (np.abs(T) < 1e-6)).any(axis=1)
            F = np.where(T > 1e-6, T, np.inf)
        first = F.min(axis=1)
        # hits coincident with the first (touching solids)
        same = np.abs(F - first[:, None]) < 1e-9
        with np.errstate(invalid="ignore"):
            gap = np.where(~same & np.isfinite(F), F - first[:, None], np.inf).min(axis=1)
        amb |= gap < 1e-6
        second = first + gap
        # ill-conditioned edges at or before the second hit
        with np.errstate(invalid="ignore"):
            amb |= (E < 1e-7).any(axis=1)
        self.first, self.second, self.same, self.N = first, second, same, N
        ok = np.isfinite(first)
        self.lost = ~ok
        mid = o + d * np.where(ok, 0.5 * first, 0.0)[:, None]
        self.container, m1 = model.innermost(mid)
        beyond = np.where(np.isfinite(second), first + 0.5 * np.where(np.isfinite(gap), gap, 0), first + 1e-3)
        beyond = np.where(ok, beyond, 0.0)
        self.adjacent, m2 = model.innermost(o + d * beyond[:, None])
        amb |= (m1 < 1e-10) | (m2 < 1e-10)
        # Leaving a surface, rounding can make the same surface be met again
        # at once. The photon has not moved, so nothing can be said.
        moved = flat.trav[rows] - flat.trav[prev]
        onsurf = np.array([k in ("REFLECT", "TRANSMIT", "EXIT") for k in flat.kind[rows]], bool)
        self.rehit = onsurf & (moved < 1e-9)
        amb |= self.rehit
        self.ambiguous = amb


def _scale(model):
    return max(1.0, max(sh.scale for sh in model.shapes.values()))


def check_book(model, flat, tol=1e-9):
    """Bookkeeping that needs no geometry: what each kind of event may change."""
    f = flat
    nodes = model.spec["nodes"]
    atol = tol * _scale(model)
    norm = np.linalg.norm(f.dir, axis=1)
    bad = np.where(~(np.abs(norm - 1) < 1e-6))[0]
    if len(bad):
        raise Violation("direction is not a unit vector (|d|=%r) at %s" % (norm[bad[0]], f.where(bad[0])))
    for arr, nm in ((f.pos, "position"), (f.wav[:, None], "wavelength"),
                    (f.trav[:, None], "travelled"), (f.dur[:, None], "duration")):
        bad = np.where(~np.isfinite(arr).all(axis=1))[0]
        if len(bad):
            raise Violation("%s is not finite at %s" % (nm, f.where(bad[0])))
    kinds = {}
    for i in range(len(f.kind)):
        kind = f.kind[i]
        kinds[kind] = kinds.get(kind, 0) + 1
        where = f.where(i)
        if f.step[i] == 0:
            if f.trav[i] != 0.0 or f.dur[i] != 0.0:
                raise Violation("GENERATE with travelled=%r duration=%r" % (f.trav[i], f.dur[i]))
            continue
        j = i - 1
        m = f.meta[i]
        dt = f.trav[i] - f.trav[j]
        if kind != "EMIT" and f.wav[i] != f.wav[j]:
            raise Violation("wavelength changes from %r to %r at %s" % (f.wav[j], f.wav[i], where))
        if kind in ("EMIT", "SCATTER"):
            if f.src[i] != m.get("component"):
                raise Violation("source is %r after %s by %r at %s" % (f.src[i], kind, m.get("component"), where))
        elif f.src[i] != f.src[j]:
            raise Violation("source changes from %r to %r at %s" % (f.src[j], f.src[i], where))
        if kind not in ("EMIT", "SCATTER", "REFLECT", "TRANSMIT"):
            if np.abs(f.dir[i] - f.dir[j]).max() > 1e-9:
                raise Violation("direction changes at %s" % where)
        if kind in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT", "KILL"):
            if dt != 0.0 or np.abs(f.pos[i] - f.pos[j]).max() > atol:
                raise Violation("photon moves by %r during %s" % (dt, where))
            delay = f.dur[i] - f.dur[j]
            tau = None
            if kind != "KILL":
                c = model.comp[m["component"]]
                if kind == "EMIT":
                    tau = c.get("tau_rad")
                elif kind in ("NONRADIATIVE", "REACT"):
                    tau = c.get("tau_nr")
            if tau:
                if not delay >= 0:
                    raise Violation("negative delay %r at %s" % (delay, where))
            elif delay != 0.0:
                raise Violation("duration grows by %r at %s, which has no lifetime" % (delay, where))
        else:
            if not dt >= 0:
                raise Violation("travelled shrinks by %r at %s" % (-dt, where))
            if np.abs(f.pos[j] + f.dir[j] * dt - f.pos[i]).max() > atol:
                raise Violation("moved to %s, but %r along the direction from %s is %s (%s)" % (
                    f.pos[i].tolist(), dt, f.pos[j].tolist(),
                    (f.pos[j] + f.dir[j] * dt).tolist(), where))
            n_c = nodes[model.index[m["container"]]]["n"]
            want = dt * n_c / C_CM
            got = f.dur[i] - f.dur[j]
            if abs(got - want) > 1e-9 * abs(want) + 1e-12 * f.dur[i] + 1e-24:
                raise Violation("duration grows by %r over %r cm at index %r, expected %r (%s)" % (
                    got, dt, n_c, want, where))
    return kinds


def check_exact(model, flat, steps, tol=1e-7):
    """Every transition happens where, and at what, the scene says."""
    f, s = flat, steps
    spec_nodes = model.spec["nodes"]
    atol = tol * _scale(model)
    used = skipped = 0
    kinds = {}
    require(s.rehit.sum() <= 2 + 1e-3 * len(s.rows),
            "%d of %d transitions meet the surface just left again, at no distance",
            int(s.rehit.sum()), len(s.rows))
    for q, i in enumerate(s.rows):
        j = i - 1
        kind = f.kind[i]
        kinds[kind] = kinds.get(kind, 0) + 1
        m = f.meta[i]
        dt = f.trav[i] - f.trav[j]
        where = f.where(i)
        if kind in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            # the outcome of an absorption happens where the absorption did
            if m.get("container") != f.meta[j].get("container"):
                raise Violation("container is %r, the absorption was in %r (%s)" % (
                    m.get("container"), f.meta[j].get("container"), where))
            continue
        if s.ambiguous[q]:
            skipped += 1
            continue
        used += 1
        if s.lost[q]:
            raise Violation("photon outside every solid at %s" % where)
        cont = int(s.container[q])
        cname = model.names[cont]
        if m.get("container") != cname and not (kind == "KILL" and m.get("container") is None):
            raise Violation("container is %r, photon is in %r (%s)" % (m.get("container"), cname, where))
        t1 = s.first[q]
        if kind == "ABSORB":
            if dt > t1 + atol:
                raise Violation("absorbed after %r, beyond the surface at %r (%s)" % (dt, t1, where))
            own = [c["name"] for c in spec_nodes[cont]["components"]]
            if m.get("component") not in own:
                raise Violation("absorbed in %r by %r, which it does not have (%s)" % (cname, m.get("component"), where))
        elif kind in SURFACE:
            if abs(dt - t1) > atol:
                raise Violation("%s after %r, but the nearest surface ahead is at %r (of %s) from %s along %s (%s)" % (
                    kind, dt, t1, sorted({model.names[k] for k in s.N[q][s.same[q]]}),
                    f.pos[j].tolist(), f.dir[j].tolist(), where))
            cands = sorted({model.names[k] for k in s.N[q][s.same[q]]})
            if m.get("hit") not in cands:
                raise Violation("hit is %r, but the surface there belongs to %s (%s)" % (m.get("hit"), cands, where))
            adj = int(s.adjacent[q])
            aname = model.names[adj] if adj >= 0 else None
            if m.get("adjacent") != aname:
                raise Violation("adjacent is %r, but beyond the surface of %r is %r (%s)" % (
                    m.get("adjacent"), m.get("hit"), aname, where))
            if (kind == "EXIT") != (m.get("hit") == model.names[0]):
                raise Violation("%s at the surface of %r (%s)" % (kind, m.get("hit"), where))
    return used, skipped, kinds


def check_surfaces(model, flat, steps, obs=None, tol=1e-6, surface_at=None):
    """Normals, reflection and refraction directions; collects reflect trials.

    surface_at(name, local normal) gives the surface of a facet where it is not that of the node."""
    f, s = flat, steps
    nodes = model.spec["nodes"]
    sel = [q for q, i in enumerate(s.rows)
           if f.kind[i] in ("REFLECT", "TRANSMIT") and not s.ambiguous[q]]
    if not sel:
        return 0
    by_hit = {}
    for q in sel:
        by_hit.setdefault(f.meta[s.rows[q]]["hit"], []).append(q)
    count = 0
    for hit, qs in by_hit.items():
        h = model.index[hit]
        rows = s.rows[qs]
        d = f.dir[rows - 1]
        e = f.dir[rows]
        p = model.local(h, f.pos[rows])
        nl, margin = model.shapes[h].normals(p)
        nw = model.world_vec(h, nl)
        surf = nodes[h]["surface"]
        for k, (q, i) in enumerate(zip(qs, rows)):
            if margin[k] < 1e-6:
                continue
            count += 1
            m = f.meta[i]
            where = f.where(i)
            got_n = np.asarray(m["normal"], float)
            if np.abs(got_n - nw[k]).max() > 1e-6:
                raise Violation("normal is %s, the outward normal of %r at %s is %s (%s)" % (
                    got_n.tolist(), hit, f.pos[i].tolist(), nw[k].tolist(), where))
            cosi = float(d[k] @ nw[k])
            face = nw[k] if cosi > 0 else -nw[k]     # along the ray
            c = abs(cosi)
            n1 = nodes[int(s.container[q])]["n"]
            n2 = nodes[int(s.adjacent[q])]["n"]
            kind = f.kind[i]
            if surface_at is not None:
                surf = surface_at(hit, nl[k]) or nodes[h]["surface"]
            if surf == "lambertian":
                if kind != "REFLECT":
                    raise Violation("transmitted by a perfect reflector (%s)" % where)
                out = -float(e[k] @ face)
                if not out >= 0:
                    raise Violation("reflected to the far side, along %s (%s)" % (e[k].tolist(), where))
                if obs is not None:
                    obs.uniform(("lambertian",), [min(1.0, out * out)])
                continue
            R = reflectivity(surf, c, n1, n2)
            near = surf == "fresnel" and (abs((n1 / n2) ** 2 * (1 - c * c) - 1) < 1e-6 or c < 1e-6)
            if kind == "REFLECT":
                want = d[k] - 2 * float(d[k] @ face) * face
                if np.abs(e[k] - want).max() > tol:
                    raise Violation("reflected along %s, the mirror direction of %s about %s is %s (%s)" % (
                        e[k].tolist(), d[k].tolist(), face.tolist(), want.tolist(), where))
                if R == 0.0 and not near:
                    raise Violation("reflected where the reflectivity is zero (%s)" % where)
            else:
                if R >= 1.0 and not near:
                    raise Violation("transmitted beyond the critical angle: n1=%r n2=%r cos=%r (%s)" % (n1, n2, c, where))
                if surf == "fresnel":
                    if not near:
                        r = n1 / n2
                        ct = math.sqrt(max(0.0, 1 - r * r * (1 - c * c)))
                        want = r * d[k] + (ct - r * c) * face
                        # conditioning near the critical angle
                        t = tol / max(ct, 1e-3)
                        if np.abs(e[k] - want).max() > t:
                            raise Violation("refracted along %s, Snell's law with n1=%r n2=%r gives %s (%s)" % (
                                e[k].tolist(), n1, n2, want.tolist(), where))
                elif np.abs(e[k] - d[k]).max() > tol:
                    raise Violation("direction changes on an undeviating surface (%s)" % where)
            if obs is not None and not near and 0.0 < R < 1.0:
                key = ("reflect", surf if isinstance(surf, str) else "constant",
                       "in" if hit == m["adjacent"] else "out",
                       "up" if n2 > n1 else "down", min(4, int(5 * (1 - c))))
                obs.bernoulli(key, kind == "REFLECT", R)
    return count


def reflectivity(surf, c, n1, n2):
    """Unpolarised Fresnel reflectivity at cosine of incidence c."""
    if surf == "null":
        return 0.0
    if isinstance(surf, dict):
        return surf["constant"]
    s2 = (n1 / n2) ** 2 * (1 - c * c)
    if s2 >= 1.0:
        return 1.0
    ct = math.sqrt(1 - s2)
    rs = (n1 * c - n2 * ct) / (n1 * c + n2 * ct)
    rp = (n1 * ct - n2 * c) / (n1 * ct + n2 * c)
    return 0.5 * (rs * rs + rp * rp)


# ------------------------------------------------------------------ statistics
class Observations:
    """Bernoulli trials with known probability and values with known law."""

    def __init__(self):
        self.b = {}     # key -> [n, sum x, sum p, sum p(1-p)]
        self.u = {}     # key -> list of values uniform on [0, 1]

    def bernoulli(self, key, x, p):
        r = self.b.setdefault(key, [0, 0, 0.0, 0.0])
        r[0] += 1
        r[1] += int(x)
        r[2] += p
        r[3] += p * (1 - p)

    def uniform(self, key, values):
        self.u.setdefault(key, []).extend(values)

    def suspicious(self, z=6.0, ks=3.3):
        """Keys whose observations do not look like their law."""
        out = []
        for key, (n, x, p, v) in self.b.items():
            if v >= 8.0:
                score = (x - p) / math.sqrt(v)
                if abs(score) > z:
                    out.append((key, "%d of %d, expected %.2f +- %.2f (z=%.1f)" % (
                        x, n, p, math.sqrt(v), score)))
            elif p < 0.5 and v < 8 and x >= 14 + 6 * p:
                out.append((key, "%d of %d, expected %.3f" % (x, n, p)))
            elif n - p < 0.5 and (n - x) >= 14 + 6 * (n - p):
                out.append((key, "%d of %d, expected %.3f" % (x, n, p)))
        for key, vals in self.u.items():
            u = np.sort(np.asarray(vals, float))
            n = len(u)
            if n < 30:
                continue
            grid = np.arange(1, n + 1) / n
            D = max((grid - u).max(), (u - grid + 1 / n).max())
            score = math.sqrt(n) * D
            mz = (u.mean() - 0.5) * math.sqrt(12 * n)
            vz = (((u - 0.5) ** 2).mean() - 1 / 12) * math.sqrt(180 * n)
            if score > ks:
                out.append((key, "KS sqrt(n)D=%.2f over %d values, mean %.4f" % (score, n, u.mean())))
            elif abs(mz) > z:
                out.append((key, "mean of %d uniform values is %.4f (z=%.1f)" % (n, u.mean(), mz)))
            elif abs(vz) > z:
                out.append((key, "spread of %d uniform values is off (z=%.1f)" % (n, vz)))
        return out

    def counts(self):
        return {**{k: v[0] for k, v in self.b.items()}, **{k: len(v) for k, v in self.u.items()}}


def confirmed(run, z=6.0, ks=3.3, factor=4):
    """Two-stage test. run(stage, n_factor) -> Observations. Raises Violation if
    a key is suspicious in a first sample and again in an independent, larger one."""
    first = run(0, 1)
    sus = first.suspicious(z, ks)
    if not sus:
        return first
    again = run(1, factor)
    keys = {k for k, _ in sus}
    for key, text in again.suspicious(z - 0.5, ks - 0.3):
        if key in keys:
            raise Violation("%s does not follow its law: %s (first sample: %s)" % (
                "/".join(map(str, key)), text, dict(sus)[key]))
    return first


def observe_volume(model, flat, steps, obs):
    """Beer-Lambert, component selection, quantum yield, delays."""
    f, s = flat, steps
    nodes = model.spec["nodes"]
    for q, i in enumerate(s.rows):
        kind = f.kind[i]
        j = i - 1
        if kind in ("ABSORB", "REFLECT", "TRANSMIT", "EXIT"):
            if s.ambiguous[q]:
                continue
            cont = int(s.container[q])
            comps = nodes[cont]["components"]
            lam = f.wav[j]
            coefs = [float(sc.coefficient(c, lam)) for c in comps]
            alpha = sum(coefs)
            if alpha < 2e-8:        # the tracers take less than 1e-8 for none
                if kind == "ABSORB" and alpha < 1e-9:
                    raise Violation("absorbed where the attenuation is %g (%s)" % (alpha, f.where(i)))
                continue
            t1 = s.first[q]
            P = -math.expm1(-alpha * t1)
            obs.bernoulli(("absorbed", len([c for c in coefs if c > 0])), kind == "ABSORB", P)
            if kind == "ABSORB":
                dt = f.trav[i] - f.trav[j]
                if P > 1e-6:
                    obs.uniform(("depth",), [min(1.0, -math.expm1(-alpha * dt) / P)])
                name = f.meta[i]["component"]
                if len(comps) > 1:
                    for k, c in enumerate(comps):
                        if coefs[k] < alpha:
                            obs.bernoulli(("selected", c["type"], "first" if k == 0 else
                                           "last" if k == len(comps) - 1 else "middle"),
                                          c["name"] == name, coefs[k] / alpha)
        elif kind in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            c = model.comp[f.meta[i]["component"]]
            qy = sc.quantum_yield(c)
            radiative = kind in ("EMIT", "SCATTER")
            if radiative and qy <= 0:
                raise Violation("%s with quantum yield 0 (%s)" % (kind, f.where(i)))
            if not radiative and qy >= 1:
                raise Violation("%s with quantum yield 1 (%s)" % (kind, f.where(i)))
            if 0 < qy < 1:
                obs.bernoulli(("yield", c["type"]), radiative, qy)
            delay = f.dur[i] - f.dur[j]
            tau = c.get("tau_rad") if kind == "EMIT" else c.get("tau_nr") if not radiative else None
            if tau and f.dur[j] * 1e-13 < tau * 1e-3:
                obs.uniform(("delay", kind), [-math.expm1(-delay / tau)])


def observe_emission(model, flat, obs, method):
    """Wavelength law and direction law of EMIT and SCATTER."""
    f = flat
    cdfs = {}
    for i in np.where(f.step > 0)[0]:
        kind = f.kind[i]
        if kind not in ("EMIT", "SCATTER"):
            continue
        m = f.meta[i]
        c = model.comp[m["component"]]
        cont = model.index[m["container"]]
        u = model.local_vec(cont, f.dir[i][None, :])[0]
        observe_direction(c.get("phase"), u, obs, (kind,), f.where(i))
        if kind == "EMIT":
            if c["name"] not in cdfs:
                cdfs[c["name"]] = sc.emission_cdf(c)
            x, cdf = cdfs[c["name"]]
            lam, new = f.wav[i - 1], f.wav[i]
            if not (x[0] - 1e-9 <= new <= x[-1] + 1e-9):
                raise Violation("emitted at %r nm, outside the emission spectrum (%s)" % (new, f.where(i)))
            if method == "full":
                p1 = 0.0
            else:
                lo = lam
                if method == "kT":
                    lo = 1240.0 / (1240.0 / lam + 1.5 * KB_EV * 300.0)
                if new < max(lo, x[0]) - 1e-6:
                    raise Violation("%s emission at %r nm after absorption at %r nm, below the limit %r (%s)" % (
                        method, new, lam, lo, f.where(i)))
                p1 = float(np.interp(lo, x, cdf))
            if p1 < 1 - 1e-6:
                obs.uniform(("wavelength", method), [min(1.0, max(0.0, (float(np.interp(new, x, cdf)) - p1) / (1 - p1)))])


def observe_direction(phase, u, obs, key, where=""):
    """u: unit vector in the frame of the phase function (axis +z)."""
    z = min(1.0, max(-1.0, float(u[2])))
    az = (math.atan2(u[1], u[0]) / (2 * math.pi)) % 1.0
    if phase is None or phase == "isotropic":
        obs.uniform(key + ("isotropic", "polar"), [(z + 1) / 2])
    elif phase == "lambertian":
        if z < -1e-9:
            raise Violation("lambertian direction %s points backwards (%s)" % (list(u), where))
        obs.uniform(key + ("lambertian", "polar"), [1 - z * z])
    elif "cone" in phase:
        smax = math.sin(phase["cone"])
        s2 = 1 - z * z
        if z < -1e-9 or z < math.cos(phase["cone"]) - 1e-9:
            raise Violation("direction %s is outside the cone of half angle %r (%s)" % (list(u), phase["cone"], where))
        obs.uniform(key + ("cone", "polar"), [min(1.0, s2 / smax ** 2)])
    else:
        g = phase["hg"]
        if abs(g) < 1e-6:
            obs.uniform(key + ("hg", "polar"), [(z + 1) / 2])
        else:
            cdf = (1 - g * g) / (2 * g) * (1 / math.sqrt(max(1e-300, 1 + g * g - 2 * g * z)) - 1 / (1 + g))
            obs.uniform(key + ("hg", "polar"), [min(1.0, max(0.0, cdf))])
    if 1 - z * z > 1e-12:
        name = phase if isinstance(phase, str) else "isotropic" if phase is None else list(phase)[0]
        obs.uniform(key + (name, "azimuth"), [az])


def compare_histories(model, a, b, point, vector, note="", tol=1e-6):
    """(rays that differ, transitions, an example): b as seen through the maps is a.

    A ray is not followed beyond an edge of the scene `model` that it hits."""
    require(len(a) == len(b), "%d and %d histories", len(a), len(b))
    differing = transitions = 0
    message = shown = None
    labels = ("hit", "container", "adjacent", "component")
    for r, (x, y) in enumerate(zip(a, b)):
        transitions += len(x) - 1
        for k in range(min(15, max(len(x), len(y)))):    # curved surfaces amplify rounding
            if k >= len(x) or k >= len(y):
                message = "ray %d has %d events, %s %d" % (r, len(x), note, len(y))
            else:
                (p, e, m), (q, f, o) = x[k], y[k]
                qp, qd = point(np.array(q.position, float)), vector(np.array(q.direction, float))
                what = [(z or {}).get(w) for z in (m, o) for w in labels]
                gap = np.abs(qp - np.array(p.position, float)).max()
                turn = np.abs(qd - np.array(p.direction, float)).max()
                n0, n1 = ((z or {}).get("normal") for z in (m, o))
                same_normal = (n0 is None) == (n1 is None) and (
                    n0 is None or np.abs(vector(np.array(n1, float)) - np.array(n0, float)).max() < tol)
                if (e is f and what[:4] == what[4:] and gap < tol and turn < tol and same_normal
                        and p.wavelength == q.wavelength and p.source == q.source):
                    continue
                message = ("ray %d step %d: %s at %s towards %s (%s); %s %s at %s towards %s (%s)" % (
                    r, k, e.name, tuple(p.position), tuple(p.direction), what[:4], note, f.name,
                    tuple(qp), tuple(qd), what[4:]))
                if gap < tol and what[0] is not None and what[0] in model.index:
                    i = model.index[what[0]]
                    _, margin = model.shapes[i].normals(model.local(i, np.array([p.position], float)))
                    if margin[0] < 1e-7 * model.shapes[i].scale:
                        break
            differing += 1
            shown = message
            break
    return differing, transitions, shown
