"""Reference model of rational B-spline curves and surfaces: nothing but the definition, in numpy."""
import math

import numpy as np


def basis_ders(U, p, n, t, d=0):
    """All n+1 basis functions and their derivatives up to d at t, by the recursive definition. Returns (d+1, n+1)."""
    U = [float(x) for x in U]
    m = len(U)
    # the half-open span that holds t (the last non-empty one at the end of the domain)
    if t >= U[n + 1]:
        span = max(i for i in range(p, n + 1) if U[i] < U[i + 1]) if any(U[i] < U[i + 1] for i in range(p, n + 1)) else n
    else:
        span = max([i for i in range(p, n + 1) if U[i] <= t] or [p])
        while span < n and U[span] == U[span + 1]:
            span += 1
    table = [[0.0] * (m - 1)]
    table[0][span] = 1.0
    for k in range(1, p + 1):
        row = [0.0] * (m - 1 - k)
        prev = table[-1]
        for i in range(m - 1 - k):
            v = 0.0
            if prev[i] != 0.0:
                v += (t - U[i]) / (U[i + k] - U[i]) * prev[i]
            if prev[i + 1] != 0.0:
                v += (U[i + k + 1] - t) / (U[i + k + 1] - U[i + 1]) * prev[i + 1]
            row[i] = v
        table.append(row)
    out = np.zeros((d + 1, n + 1))
    out[0] = table[p][: n + 1]
    for k in range(1, min(d, p) + 1):
        cur = list(table[p - k])
        for r in range(k):
            q = p - k + r + 1
            nxt = [0.0] * (len(cur) - 1)
            for i in range(len(nxt)):
                v = 0.0
                if U[i + q] > U[i]:
                    v += q * cur[i] / (U[i + q] - U[i])
                if U[i + q + 1] > U[i + 1]:
                    v -= q * cur[i + 1] / (U[i + q + 1] - U[i + 1])
                nxt[i] = v
            cur = nxt
        out[k] = cur[: n + 1]
    return out


def rational(Aw, d):
    out = np.zeros((d + 1, 3))
    for k in range(d + 1):
        v = Aw[k, :3].copy()
        for i in range(1, k + 1):
            v -= math.comb(k, i) * Aw[i, 3] * out[k - i]
        out[k] = v / Aw[0, 3]
    return out


class RefCurve:
    def __init__(self, cpts, degree, knots):
        cpts = np.asarray(cpts, dtype=float)
        if cpts.shape[1] == 3:
            cpts = np.column_stack([cpts, np.ones(len(cpts))])
        self.P = cpts.copy()
        self.p = int(degree)
        n = len(cpts)
        self.U = np.array(knots, dtype=float) if knots is not None else default_knots(n, self.p)

    def copy(self):
        return RefCurve(self.P, self.p, self.U)

    def domain(self):
        return float(self.U[self.p]), float(self.U[len(self.P)])

    def ders(self, t, d=0):
        B = basis_ders(self.U, self.p, len(self.P) - 1, t, d)
        Pw = self.P.copy()
        Pw[:, :3] *= Pw[:, 3:]
        return rational(B @ Pw, d)

    def point(self, t):
        return self.ders(t)[0]

    def scale(self):
        return float(np.abs(self.P[:, :3]).max()) + 1.0


class RefSurface:
    """Control points homogeneous (xw, yw, zw, w), as the surfaces of the library store them."""

    def __init__(self, cpts, degree, ku=None, kv=None):
        cpts = np.asarray(cpts, dtype=float)
        if cpts.shape[2] == 3:
            cpts = np.concatenate([cpts, np.ones(cpts.shape[:2] + (1,))], axis=2)
        self.P = cpts.copy()
        self.p, self.q = int(degree[0]), int(degree[1])
        self.U = np.array(ku, dtype=float) if ku is not None else default_knots(cpts.shape[0], self.p)
        self.V = np.array(kv, dtype=float) if kv is not None else default_knots(cpts.shape[1], self.q)

    def copy(self):
        return RefSurface(self.P, (self.p, self.q), self.U, self.V)

    def domain(self):
        n, m = self.P.shape[:2]
        return (float(self.U[self.p]), float(self.U[n])), (float(self.V[self.q]), float(self.V[m]))

    def point(self, u, v):
        n, m = self.P.shape[:2]
        a = basis_ders(self.U, self.p, n - 1, u)[0]
        b = basis_ders(self.V, self.q, m - 1, v)[0]
        h = np.einsum("i,j,ijk->k", a, b, self.P)
        return h[:3] / h[3]

    def scale(self):
        return float(np.abs(self.P[..., :3] / self.P[..., 3:]).max()) + 1.0


def default_knots(n, p):
    return np.concatenate([np.zeros(p + 1), np.arange(1, n - p), np.full(p + 1, n - p)]).astype(float)


def random_knots(rng, n, p, style=None):
    """A clamped knot vector with possibly repeated interior knots, shifted and scaled domain."""
    style = style or rng.choice(["default", "uniform", "random", "repeated", "shifted", "near"])
    if style == "default":
        return None
    k = n - p - 1
    a, b = 0.0, 1.0
    if style in ("shifted", "repeated"):
        a = rng.choice([-2.0, 0.0, 5.0, -0.5])
        b = a + rng.choice([1.0, 3.0, 0.25, 10.0])
    if style == "repeated":
        inner = []
        while len(inner) < k:
            v = round(a + (b - a) * rng.choice([0.25, 0.5, 0.75, round(rng.uniform(0.05, 0.95), 3)]), 6)
            r = min(rng.randrange(1, p + 1), k - len(inner), p - inner.count(v))
            inner += [v] * max(0, r)
        inner.sort()
    elif style == "near":  # knots close to each other without being equal
        inner = []
        while len(inner) < k:
            v = round(rng.uniform(0.05, 0.9), 3)
            d = rng.choice([1e-3, 1e-4, 3e-5])
            if all(abs(v - x) > 5e-3 for x in inner):
                inner += [v, v + d, v + 2 * d][: min(rng.randrange(1, 4), k - len(inner))]
        inner = sorted(round(a + (b - a) * x, 7) for x in inner)
    elif style == "random":
        inner = sorted({round(a + (b - a) * rng.uniform(0.03, 0.97), 4) for _ in range(k)})
        while len(inner) < k:
            inner = sorted(set(inner) | {round(a + (b - a) * rng.uniform(0.03, 0.97), 4)})
    else:
        inner = [round(a + (b - a) * (i + 1) / (k + 1), 9) for i in range(k)]
    return [a] * (p + 1) + [float(x) for x in inner] + [b] * (p + 1)


def random_points(rng, n, weighted, span=10.0):
    out = []
    for _ in range(n):
        q = [round(rng.uniform(-span, span), 3) for _ in range(3)]
        if weighted:
            q.append(rng.choice([1.0, 1.0, 0.5, 2.0, round(rng.uniform(0.2, 5), 3)]))
        out.append(q)
    return out


def close(a, b, scale, rel=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= rel * scale))
