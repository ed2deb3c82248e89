"""PDF path construction operators"""
import re
from .gfx import ID, PathBuilder, Error

NUM = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)\Z")


def pathops(txt, m=ID):
    b = PathBuilder()
    st = []
    for t in txt.split():
        if NUM.match(t):
            st.append(float(t))
            continue
        n = {"m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "re": 4, "h": 0}.get(t)
        if n is None or len(st) != n:
            raise Error("PDF path operator %r with operands %r" % (t, st))
        if t == "m":
            b.moveto(m, *st)
        elif t == "l":
            b.lineto(m, *st)
        elif t == "c":
            b.curveto(m, *st)
        elif t == "h":
            b.closepath()
        else:
            raise Error(t)
        st = []
    if st:
        raise Error("operands left: %r" % st)
    return b.subs
