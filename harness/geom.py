"""Reference geometry, independent of pvtrace: vectorised analytic shapes.

A shape is a dict: {"type": "box", "size": [a,b,c]}, {"type": "sphere",
"radius": r}, {"type": "cylinder", "length": l, "radius": r} or {"type":
"mesh", "vertices": [...], "faces": [...]} (vertices as handed to pvtrace; they
are re-centred on the volume centroid, which is what a Mesh is documented to do).
"""
import math

import numpy as np


def rodrigues(angle, axis):
    a = np.asarray(axis, float)
    a = a / math.sqrt(float(a @ a))
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * (K @ K)


def rigid(location, rotations):
    """4x4 matrix: rotations applied first to last about the origin, then moved."""
    R = np.eye(3)
    for angle, axis in rotations:
        R = rodrigues(angle, axis) @ R
    # keep it orthonormal to rounding
    u, _, vt = np.linalg.svd(R)
    R = u @ vt
    M = np.eye(4)
    M[:3, :3] = R
    M[:3, 3] = location
    return M


def rigid_inverse(M):
    R = M[:3, :3].T
    out = np.eye(4)
    out[:3, :3] = R
    out[:3, 3] = -R @ M[:3, 3]
    return out


def mesh_centroid(V, F):
    V = np.asarray(V, float)
    F = np.asarray(F, int)
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    vol = np.einsum("ij,ij->i", a, np.cross(b, c)) / 6.0
    cen = (a + b + c) / 4.0
    return (cen * vol[:, None]).sum(0) / vol.sum()


class Shape:
    """Signed clearance and ray intersection in the local frame."""

    def __init__(self, spec):
        self.spec = spec
        self.type = spec["type"]
        if self.type == "box":
            self.half = 0.5 * np.asarray(spec["size"], float)
            self.scale = float(self.half.max())
        elif self.type == "sphere":
            self.radius = float(spec["radius"])
            self.scale = self.radius
        elif self.type == "cylinder":
            self.half_length = 0.5 * float(spec["length"])
            self.radius = float(spec["radius"])
            self.scale = max(self.half_length, self.radius)
        elif self.type == "mesh":
            V = np.asarray(spec["vertices"], float)
            F = np.asarray(spec["faces"], int)
            V = V - mesh_centroid(V, F)
            self.V, self.F = V, F
            self.A = V[F[:, 0]]
            self.B = V[F[:, 1]]
            self.C = V[F[:, 2]]
            n = np.cross(self.B - self.A, self.C - self.A)
            self.N = n / np.linalg.norm(n, axis=1)[:, None]
            self.scale = float(np.abs(V).max())
        else:
            raise ValueError(self.type)

    # -- forward/backward intersections -------------------------------
    def hits(self, o, d):
        """All intersection parameters t of the lines o + t d with the surface.

        Returns (t, edge): arrays (N, k) with NaN padding; edge is how close the
        hit is to an edge or to tangency (small = ill-conditioned).
        """
        o = np.asarray(o, float)
        d = np.asarray(d, float)
        return getattr(self, "_hits_" + self.type)(o, d)

    def _hits_box(self, o, d):
        n = len(o)
        t = np.full((n, 6), np.nan)
        edge = np.full((n, 6), np.inf)
        for ax in range(3):
            others = [i for i in range(3) if i != ax]
            for k, s in enumerate((-1.0, 1.0)):
                with np.errstate(divide="ignore", invalid="ignore"):
                    tt = (s * self.half[ax] - o[:, ax]) / d[:, ax]
                    p = o + tt[:, None] * d
                margin = np.minimum(*(self.half[i] - np.abs(p[:, i]) for i in others))
                ok = np.isfinite(tt) & (margin >= 0)
                col = 2 * ax + k
                t[ok, col] = tt[ok]
                edge[ok, col] = margin[ok]
                # a near miss is as ill-conditioned as a near-edge hit
                near = np.isfinite(tt) & (margin < 0) & (margin > -1e-6)
                edge[near, col] = np.abs(margin[near])
        return t, edge

    def _hits_sphere(self, o, d):
        b = np.einsum("ij,ij->i", o, d)
        # squared distance of the line from the centre, computed from the foot
        foot = o - b[:, None] * d
        h2 = np.einsum("ij,ij->i", foot, foot)
        q = self.radius ** 2 - h2
        ok = q > 0
        s = np.sqrt(np.where(ok, q, 0.0))
        t = np.full((len(o), 2), np.nan)
        t[ok, 0] = -b[ok] - s[ok]
        t[ok, 1] = -b[ok] + s[ok]
        edge = np.full((len(o), 2), np.inf)
        edge[:, 0] = edge[:, 1] = np.abs(q) / self.radius
        return t, edge

    def _hits_cylinder(self, o, d):
        n = len(o)
        t = np.full((n, 4), np.nan)
        edge = np.full((n, 4), np.inf)
        a2 = d[:, 0] ** 2 + d[:, 1] ** 2
        a = np.sqrt(a2)
        with np.errstate(divide="ignore", invalid="ignore"):
            b = (o[:, 0] * d[:, 0] + o[:, 1] * d[:, 1]) / a2
            fx = o[:, 0] - b * d[:, 0]
            fy = o[:, 1] - b * d[:, 1]
            q = self.radius ** 2 - (fx * fx + fy * fy)
            side = (a > 1e-14) & (q > 0)
            s = np.sqrt(np.where(side, q, 0.0)) / a
        for k, sg in enumerate((-1.0, 1.0)):
            tt = np.where(side, -b + sg * s, np.nan)
            z = o[:, 2] + tt * d[:, 2]
            m = self.half_length - np.abs(z)
            ok = side & (m >= 0)
            t[ok, k] = tt[ok]
            with np.errstate(invalid="ignore"):
                edge[:, k] = np.where(a > 1e-14, np.minimum(
                    np.where(side, np.abs(m), np.inf), np.abs(q) / self.radius), np.inf)
        for k, sg in enumerate((-1.0, 1.0)):
            with np.errstate(divide="ignore", invalid="ignore"):
                tt = (sg * self.half_length - o[:, 2]) / d[:, 2]
                x = o[:, 0] + tt * d[:, 0]
                y = o[:, 1] + tt * d[:, 1]
                m = self.radius - np.sqrt(x * x + y * y)
            ok = np.isfinite(tt) & (m >= 0)
            t[ok, 2 + k] = tt[ok]
            fin = np.isfinite(tt)
            edge[fin, 2 + k] = np.abs(m[fin])
        return t, edge

    def _hits_mesh(self, o, d):
        n, m = len(o), len(self.F)
        e1 = self.B - self.A
        e2 = self.C - self.A
        p = np.cross(d[:, None, :], e2[None, :, :])
        det = np.einsum("mk,nmk->nm", e1, p)
        with np.errstate(divide="ignore", invalid="ignore"):
            inv = 1.0 / det
            s = o[:, None, :] - self.A[None, :, :]
            u = np.einsum("nmk,nmk->nm", s, p) * inv
            qv = np.cross(s, e1[None, :, :])
            v = np.einsum("nk,nmk->nm", d, qv) * inv
            t = np.einsum("mk,nmk->nm", e2, qv) * inv
        margin = np.minimum(np.minimum(u, v), 1 - u - v)
        ok = (np.abs(det) > 1e-14) & (margin >= 0)
        t = np.where(ok, t, np.nan)
        edge = np.where((np.abs(det) > 1e-14) & (margin > -1e-6), np.abs(margin), np.inf)
        edge = np.where(np.abs(det) <= 1e-14, np.inf, edge)
        # shared edges of coplanar faces do not matter for convexity but do for
        # counting; duplicates at the same t are merged by the caller
        return t, edge * self.scale

    # -- clearance ------------------------------------------------------
    def clearance(self, p):
        """Positive inside, negative outside, size = distance-like margin."""
        p = np.asarray(p, float)
        if self.type == "box":
            q = self.half - np.abs(p)
            inside = q.min(axis=1)
            out = np.linalg.norm(np.minimum(q, 0.0), axis=1)
            return np.where(inside >= 0, inside, -out)
        if self.type == "sphere":
            return self.radius - np.linalg.norm(p, axis=1)
        if self.type == "cylinder":
            r = np.hypot(p[:, 0], p[:, 1])
            q = np.column_stack([self.radius - r, self.half_length - np.abs(p[:, 2])])
            inside = q.min(axis=1)
            out = np.linalg.norm(np.minimum(q, 0.0), axis=1)
            return np.where(inside >= 0, inside, -out)
        # mesh: winding-number sign times distance to the nearest triangle
        return np.array([self._mesh_clearance(x) for x in p])

    def _mesh_clearance(self, x):
        a, b, c = self.A - x, self.B - x, self.C - x
        la, lb, lc = (np.linalg.norm(v, axis=1) for v in (a, b, c))
        num = np.einsum("ij,ij->i", a, np.cross(b, c))
        den = (la * lb * lc + np.einsum("ij,ij->i", a, b) * lc
               + np.einsum("ij,ij->i", b, c) * la + np.einsum("ij,ij->i", c, a) * lb)
        w = np.arctan2(num, den).sum() / (2 * math.pi)
        dist = self._mesh_distance(x)
        return dist if abs(w) > 0.5 else -dist

    def _mesh_distance(self, x):
        best = math.inf
        for A, B, C, N in zip(self.A, self.B, self.C, self.N):
            h = float((x - A) @ N)
            p = x - h * N
            inside = True
            for P, Q in ((A, B), (B, C), (C, A)):
                e = Q - P
                if float(np.cross(e, p - P) @ N) < 0:
                    inside = False
                s = min(1.0, max(0.0, float((x - P) @ e) / float(e @ e)))
                dd = x - (P + s * e)
                if math.sqrt(float(dd @ dd)) < best:
                    best = math.sqrt(float(dd @ dd))
            if inside and abs(h) < best:
                best = abs(h)
        return best

    def normals(self, p):
        """Outward unit normal of the nearest face and a margin to the next one."""
        p = np.asarray(p, float)
        n = len(p)
        out = np.zeros((n, 3))
        margin = np.full(n, np.inf)
        if self.type == "sphere":
            return p / np.linalg.norm(p, axis=1)[:, None], margin
        if self.type == "box":
            q = np.abs(self.half - np.abs(p))
            ax = q.argmin(axis=1)
            out[np.arange(n), ax] = np.sign(p[np.arange(n), ax])
            srt = np.sort(q, axis=1)
            return out, srt[:, 1] - srt[:, 0]
        if self.type == "cylinder":
            r = np.hypot(p[:, 0], p[:, 1])
            cap = np.abs(self.half_length - np.abs(p[:, 2]))
            side = np.abs(self.radius - r)
            is_cap = cap < side
            out[is_cap, 2] = np.sign(p[is_cap, 2])
            ns = ~is_cap
            out[ns, 0] = p[ns, 0] / r[ns]
            out[ns, 1] = p[ns, 1] / r[ns]
            return out, np.abs(cap - side)
        for i, x in enumerate(p):
            h = np.abs(np.einsum("ij,ij->i", x - self.A, self.N))
            # restrict to triangles that contain the foot point
            inside = np.ones(len(self.F), bool)
            for P, Q in ((self.A, self.B), (self.B, self.C), (self.C, self.A)):
                e = Q - P
                inside &= np.einsum("ij,ij->i", np.cross(e, x - P), self.N) >= -1e-9
            hh = np.where(inside, h, np.inf)
            k = int(hh.argmin())
            out[i] = self.N[k]
            other = hh[np.abs(self.N @ self.N[k] - 1) > 1e-9]
            margin[i] = (other.min() if len(other) else np.inf) - hh[k]
        return out, margin
