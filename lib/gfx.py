"""Display lists shared by the PostScript, PDF and SVG interpreters.

A display list is a list of dicts
  kind: stroke | fill | image | shading | text
  subs: list of refpath.Subpath in page coordinates (pt, y up)      (stroke, fill)
  evenodd, color, alpha, lw (user), ctm, cap, join, miter, dash
  clips: list of (subs, evenodd)
"""
import math
import numpy as np
from . import refpath as R

ID = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)          # PS order: a b c d e f


def mul(m, n):
    "first m then n (PS row vector convention)"
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D, e * A + f * C + E, e * B + f * D + F)


def app(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def inv(m):
    a, b, c, d, e, f = m
    det = a * d - b * c
    return (d / det, -b / det, -c / det, a / det, (c * f - d * e) / det, (b * e - a * f) / det)


class TSeg:
    "a segment under an affine map"
    def __init__(self, seg, m):
        self.seg, self.m = seg, m

    def start(self): return app(self.m, self.seg.start())
    def end(self): return app(self.m, self.seg.end())
    def n(self): return self.seg.n()

    def eval(self, t):
        p = self.seg.eval(t)
        m = self.m
        return np.stack([m[0] * p[:, 0] + m[2] * p[:, 1] + m[4], m[1] * p[:, 0] + m[3] * p[:, 1] + m[5]], axis=1)

    def length(self):
        p = self.eval(np.linspace(0, 1, max(2, self.n())))
        return float(np.hypot(*np.diff(p, axis=0).T).sum())


def tseg(seg, m):
    if isinstance(seg, R.Line):
        return R.Line(app(m, seg.p), app(m, seg.q))
    if isinstance(seg, R.Cubic):
        return R.Cubic(*[app(m, p) for p in seg.p])
    return TSeg(seg, m)


def tsubs(subs, m):
    out = []
    for s in subs:
        r = R.Subpath(app(m, s.first))
        r.segs = [tseg(g, m) for g in s.segs]
        r.closed = s.closed
        out.append(r)
    return out


class PathBuilder:
    "path construction under a changing transformation"
    def __init__(self):
        self.reset()

    def reset(self):
        self.subs = []
        self.cur = None      # device
        self.sp = None

    def copy(self):
        o = PathBuilder()
        o.cur = self.cur
        for s in self.subs:
            r = R.Subpath(s.first)
            r.segs = list(s.segs)
            r.closed = s.closed
            o.subs.append(r)
            if s is self.sp:
                o.sp = r
        return o

    def user(self, m):
        if self.cur is None:
            raise ValueError("nocurrentpoint")
        return app(inv(m), self.cur)

    def moveto(self, m, x, y):
        self.cur = app(m, (x, y))
        self.sp = R.Subpath(self.cur)
        self.subs.append(self.sp)

    def _need(self):
        if self.cur is None:
            raise ValueError("nocurrentpoint")
        if self.sp is None:
            self.sp = R.Subpath(self.cur)
            self.subs.append(self.sp)

    def lineto(self, m, x, y):
        self._need()
        q = app(m, (x, y))
        self.sp.segs.append(R.Line(self.cur, q))
        self.cur = q

    def curveto(self, m, *c):
        self._need()
        a, b, q = [app(m, c[i:i + 2]) for i in (0, 2, 4)]
        self.sp.segs.append(R.Cubic(self.cur, a, b, q))
        self.cur = q

    def arcseg(self, m, x, y, r, a1, a2):
        s = R.Arc(x, y, r, a1, a2)
        if self.cur is None:
            self.moveto(m, *s.start())
        else:
            self.lineto(m, *s.start())
        self.sp.segs.append(tseg(s, m))
        self.cur = app(m, s.end())

    def arc(self, m, x, y, r, a1, a2, ccw=True):
        self.arcseg(m, x, y, r, a1, R.arc_sweep(a1, a2, ccw))

    def arct(self, m, x1, y1, x2, y2, r):
        g = R.arct_geometry(self.user(m), (x1, y1), (x2, y2), r) if r else None
        if g is None:
            self.lineto(m, x1, y1)
        else:
            t1, t2, c, a1, a2, d = g
            self.arcseg(m, float(c[0]), float(c[1]), r, a1, a2)

    def closepath(self):
        if self.sp is not None:
            if self.cur != self.sp.first:
                self.sp.segs.append(R.Line(self.cur, self.sp.first))
            self.sp.closed = True
            self.cur = self.sp.first
            self.sp = None


class Error(Exception):
    "the file does not follow its format"
