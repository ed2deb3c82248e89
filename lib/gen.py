"""Hypothesis strategies for plain (JSON) cases"""
from hypothesis import strategies as st

# numbers: a small grid (so that coincidences, shared points and degenerate shapes happen) and rounded reals
small = st.integers(-8, 8)
grid = st.integers(-40, 40).map(lambda i: i / 4)


def real(lo, hi, nd=3):
    k = 10 ** nd
    return st.integers(int(lo * k), int(hi * k)).map(lambda i: i / k)


def num(lo=-10, hi=10, nd=3):
    return st.one_of(st.integers(lo, hi), real(lo, hi, 1), real(lo, hi, nd))


def posnum(hi=10, nd=3):
    return st.one_of(st.integers(1, hi), real(0.1, hi, 1), real(10 ** -nd, hi, nd))


angle = st.one_of(st.integers(-8, 8).map(lambda i: i * 45), st.integers(-12, 12).map(lambda i: i * 30),
                  st.integers(-720, 720), real(-400, 400, 2))

UNITS = ["m", "cm", "mm", "inch", "pt"]
METRE = {"m": 1.0, "cm": 0.01, "mm": 0.001, "inch": 0.0254, "pt": 0.0254 / 72}
PT = {k: v / METRE["pt"] for k, v in METRE.items()}


def lists(s, lo=0, hi=6):
    return st.lists(s, min_size=lo, max_size=hi)
