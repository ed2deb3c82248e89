"""Page geometry stated in the headers of PostScript files"""
import re
from .core import ensure


def dsc(data):
    "list of (keyword, value) of all %% comments outside of resources"
    out = []
    for l in data.split(b"\n"):
        if l.startswith(b"%%"):
            k, _, v = l[2:].decode("latin-1").partition(":")
            out.append((k, v.strip()))
    return out


def numbers(s, n):
    v = [float(x) for x in s.split()]
    ensure(len(v) == n, "%r does not hold %d numbers", s, n)
    return v


def epsbox(data):
    d = dict(reversed(dsc(data)))
    return numbers(d["BoundingBox"], 4), numbers(d["HiResBoundingBox"], 4)


def document(data, eps):
    "structure of a PostScript file following the document structuring conventions"
    lines = data.decode("latin-1").split("\n")
    ensure(lines[0] == ("%!PS-Adobe-3.0 EPSF-3.0" if eps else "%!PS-Adobe-3.0"), "first line %r", lines[0])
    ensure(lines[-1] == "" and lines[-2] == "%%EOF", "last lines %r", lines[-2:])
    ensure(all(len(l) <= 255 for l in lines), "a line has more than 255 characters")
    ks = [(i, k, v) for i, l in enumerate(lines) if l.startswith("%%") for k, _, v in [l[2:].partition(":")]]
    at = {}
    for i, k, v in ks:
        at.setdefault(k.split()[0] if k else "", []).append(i)
    for k in ("EndComments", "BeginProlog", "EndProlog", "Trailer", "EOF"):
        ensure(len(at.get(k, [])) == 1, "%d times %%%%%s", len(at.get(k, [])), k)
    ensure(at["EndComments"] < at["BeginProlog"] < at["EndProlog"] < at["Trailer"] < at["EOF"], "order of sections")
    ensure(all(l.startswith("%") for l in lines[:at["EndComments"][0]]), "header with other lines than comments")
    stack = []
    for i, k, v in ks:
        k = k.split()[0] if k else ""
        if k.startswith("Begin"):
            stack.append(k[5:])
        elif k.startswith("End") and k != "EndComments":
            ensure(stack and stack[-1] == k[3:], "%%%%%s without %%%%Begin%s", k, k[3:])
            stack.pop()
    ensure(not stack, "sections %r are not closed", stack)
    for k in ("Title", "Creator", "CreationDate", "Pages", "BoundingBox", "HiResBoundingBox"):
        ensure(len([i for i in at.get(k, []) if i < at["EndComments"][0]]) <= 1, "%%%%%s given twice", k)
    return {k: v.strip() for i, k, v in reversed(ks) if i < at["EndComments"][0]}
