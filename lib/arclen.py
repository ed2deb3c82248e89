"""Arc-length parametrised reference geometry (Gauss tables), independent of pyx"""
import math
import numpy as np
from . import refpath as R

_x, _w = np.polynomial.legendre.leggauss(10)


class SegTab:
    def __init__(self, seg):
        self.seg = seg
        self.simple = not isinstance(seg, R.Cubic)
        if self.simple:
            self.len = seg.length()
            return
        edges, lens = [0.0], []
        n = 24
        stack = [(i / n, (i + 1) / n, None, 0) for i in reversed(range(n))]
        while stack:
            a, b, l, depth = stack.pop()
            if l is None:
                l = self.piece(a, b)
            m = 0.5 * (a + b)
            l1, l2 = self.piece(a, m), self.piece(m, b)
            if depth < 40 and abs(l1 + l2 - l) > 1e-10:
                stack += [(m, b, l2, depth + 1), (a, m, l1, depth + 1)]
            else:
                edges += [m, b]
                lens += [l1, l2]
        self.cum = np.concatenate([[0], np.cumsum(lens)])
        self.e = np.array(edges)
        self.len = float(self.cum[-1])

    def piece(self, a, b):
        d = self.seg.deriv(a + (b - a) * 0.5 * (_x + 1))
        return float((np.hypot(d[:, 0], d[:, 1]) * _w).sum() * (b - a) * 0.5)

    def t(self, s):
        if self.simple:
            return s / self.len if self.len else 0.0
        i = int(np.searchsorted(self.cum, s, side="right")) - 1
        i = min(max(i, 0), len(self.e) - 2)
        a, b = self.e[i], self.e[i + 1]
        lo, hi, want = a, b, s - self.cum[i]
        for _ in range(40):
            m = 0.5 * (lo + hi)
            u = a + (m - a) * 0.5 * (_x + 1)
            d = self.seg.deriv(u)
            l = float((np.hypot(d[:, 0], d[:, 1]) * _w).sum() * (m - a) * 0.5)
            if l < want:
                lo = m
            else:
                hi = m
        return 0.5 * (lo + hi)


def dirs(seg, t):
    "unit tangent, speed and curvature"
    if isinstance(seg, R.Line):
        d = np.array([seg.q[0] - seg.p[0], seg.q[1] - seg.p[1]])
        n = np.hypot(*d)
        return (d / n if n else d), n, 0.0
    if isinstance(seg, R.Arc):
        s = 1 if seg.a2 >= seg.a1 else -1
        a = math.radians(seg.a1 + (seg.a2 - seg.a1) * t)
        return np.array([-math.sin(a), math.cos(a)]) * s, seg.length(), s / seg.r
    d = seg.deriv([t])[0]
    dd = seg.deriv2([t])[0]
    n = np.hypot(*d)
    k = float((d[0] * dd[1] - d[1] * dd[0]) / n ** 3) if n > 1e-12 else float("inf")
    return (d / n if n > 1e-12 else d), n, k


class Sub:
    "one subpath"
    def __init__(self, sp):
        self.sp = sp
        self.closed = sp.closed
        self.tabs = [t for t in (SegTab(s) for s in sp.segs) if t.len > 0]
        self.cum = np.concatenate([[0], np.cumsum([t.len for t in self.tabs])]) if self.tabs else np.array([0.0])
        self.len = float(self.cum[-1])

    def locate(self, s):
        i = int(np.searchsorted(self.cum, s, side="right")) - 1
        i = min(max(i, 0), len(self.tabs) - 1)
        t = self.tabs[i]
        return t.seg, t.t(min(max(s - self.cum[i], 0), t.len)), i

    def point(self, s):
        seg, t, i = self.locate(s)
        return tuple(float(v) for v in seg.eval([t])[0])

    def points(self, ss):
        return np.array([self.point(s) for s in ss])

    def knotdist(self, s):
        "distance (arc length) to the next junction of segments"
        return float(np.abs(self.cum - s).min())

    def total(self):
        return self.len


class Path:
    def __init__(self, subs, eps=1e-3):
        self.subs = [x for x in (Sub(s) for s in subs) if x.len > eps]
        self.cum = np.concatenate([[0], np.cumsum([s.len for s in self.subs])])
        self.len = float(self.cum[-1])

    def locate(self, s):
        "(index, s in subpath)"
        i = int(np.searchsorted(self.cum, s, side="right")) - 1
        i = min(max(i, 0), len(self.subs) - 1)
        return i, min(max(s - float(self.cum[i]), 0), self.subs[i].len)

    def candidates(self, s, tol):
        "the points a length s may denote (two at the boundary of two subpaths)"
        out = []
        for i, sp in enumerate(self.subs):
            l = s - float(self.cum[i])
            if -tol <= l <= sp.len + tol:
                out.append(sp.point(min(max(l, 0), sp.len)))
        return out
