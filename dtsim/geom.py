"""Reference geometry: independent of the code under test, brute force over all facets."""
import numpy as np


class Degenerate(Exception):
    """The path meets a vertex, an edge or a facet plane too closely for the reference to be
    sure; the run stops there without a verdict (counted by a probe)."""


EPS = 1e-9


class Geometry:
    def __init__(self, mesh):
        import dolfin as df
        self.d = d = mesh.topology().dim()
        self.X = np.array(mesh.coordinates(), dtype=float)
        mesh.init(d - 1)
        mesh.init(d - 1, d)
        mesh.init(d, d - 1)
        self.cells = np.array(mesh.cells(), dtype=int)
        conn = mesh.topology()(d - 1, 0) if d > 1 else None
        nf = mesh.num_entities(d - 1)
        if d == 1:
            # facets are vertices
            self.facets = np.arange(nf).reshape(-1, 1)
        else:
            self.facets = np.array([conn(i) for i in range(nf)], dtype=int)
        fc = mesh.topology()(d - 1, d)
        self.facet_cells = [tuple(int(c) for c in fc(i)) for i in range(nf)]
        self.exterior = np.array([len(c) == 1 for c in self.facet_cells])
        self.P = self.X[self.facets]                     # nf x d x d
        self.scale = float(np.max(self.X.max(0) - self.X.min(0)))
        # cell barycentric matrices
        V = self.X[self.cells]                           # nc x (d+1) x d
        self.V0 = V[:, 0, :]
        T = np.transpose(V[:, 1:, :] - V[:, :1, :], (0, 2, 1))
        self.Tinv = np.linalg.inv(T)
        self.vol = np.abs(np.linalg.det(T)) / {1: 1, 2: 2, 3: 6}[d]
        # outward size of a cell, for tolerances
        # facet normals (unit, arbitrary sign)
        if d == 1:
            self.N = np.ones((nf, 1))
        elif d == 2:
            e = self.P[:, 1] - self.P[:, 0]
            n = np.stack([e[:, 1], -e[:, 0]], 1)
            self.N = n / np.linalg.norm(n, axis=1)[:, None]
        else:
            n = np.cross(self.P[:, 1] - self.P[:, 0], self.P[:, 2] - self.P[:, 0])
            self.N = n / np.linalg.norm(n, axis=1)[:, None]

    def bary(self, c, x):
        b = self.Tinv[c] @ (np.asarray(x, float) - self.V0[c])
        return np.concatenate([[1.0 - b.sum()], b])

    def all_bary(self, x):
        b = np.einsum('cij,cj->ci', self.Tinv, np.asarray(x, float) - self.V0)
        return np.concatenate([1.0 - b.sum(1, keepdims=True), b], 1)

    def find_cells(self, x, tol=0.0):
        return [int(i) for i in np.nonzero((self.all_bary(x) >= -tol).all(1))[0]]

    def contains(self, c, x, tol=1e-8):
        return bool((self.bary(c, x) >= -tol).all())

    def hits(self, a, b, exclude=-1):
        """Facets crossed by the segment a->b, ordered: list of (t, facet).
        Raises Degenerate when the answer is not clear-cut."""
        d = self.d
        a = np.asarray(a, float)
        b = np.asarray(b, float)
        dx = b - a
        ln = np.linalg.norm(dx)
        if ln == 0.0:
            return []
        s = np.einsum('fi,fi->f', self.N, a - self.P[:, 0])       # signed distances
        e = np.einsum('fi,fi->f', self.N, b - self.P[:, 0])
        tol = EPS * self.scale
        den = s - e
        out = []
        cand = np.nonzero((np.minimum(s, e) <= tol) & (np.maximum(s, e) >= -tol))[0]
        for f in cand:
            if f == exclude:
                continue
            if abs(den[f]) < 1e-14 * self.scale:
                t = 0.0 if abs(s[f]) > tol else 0.5
                # moving in the facet's plane: only a problem when it touches the facet
                if self._near(f, a, b):
                    raise Degenerate('path in a facet plane')
                continue
            t = s[f] / den[f]
            p = a + t * dx
            lam = self._in_facet(f, p)
            if lam < -1e-7:
                continue
            if lam < 1e-7 and -1e-9 < t < 1 + 1e-9:
                raise Degenerate('path through a vertex or edge')
            if abs(s[f]) < tol or abs(e[f]) < tol:
                # starts or ends on the facet
                raise Degenerate('path starts or ends on a facet')
            if 0.0 < t < 1.0:
                out.append((float(t), int(f)))
        out.sort()
        for (t0, _), (t1, _) in zip(out, out[1:]):
            if (t1 - t0) * ln < tol:
                raise Degenerate('two facets at once')
        return out

    def _in_facet(self, f, p):
        """Smallest barycentric coordinate of p (assumed in the plane) in facet f."""
        d = self.d
        if d == 1:
            return 1.0
        P = self.P[f]
        if d == 2:
            e = P[1] - P[0]
            t = np.dot(p - P[0], e) / np.dot(e, e)
            return min(t, 1 - t)
        u, v, w = P[1] - P[0], P[2] - P[0], p - P[0]
        uu, uv, vv, wu, wv = u @ u, u @ v, v @ v, w @ u, w @ v
        D = uv * uv - uu * vv
        s = (uv * wv - vv * wu) / D
        t = (uv * wu - uu * wv) / D
        return min(s, t, 1 - s - t)

    def _near(self, f, a, b):
        lo = np.minimum(a, b) - EPS * self.scale
        hi = np.maximum(a, b) + EPS * self.scale
        P = self.P[f]
        return bool((P.max(0) >= lo).all() and (P.min(0) <= hi).all())
