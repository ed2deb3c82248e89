"""DVI, VF and TFM files: writers for generated files and an own interpreter (written from the DVI standard, VF and TFM specifications)."""
import struct
from .gfx import mul


class Error(Exception):
    pass


def sint(v, n):
    return int(v).to_bytes(n, "big", signed=True)


def uint(v, n):
    return int(v).to_bytes(n, "big")


def need(v):
    "bytes needed for the signed v"
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return n


# ---------------------------------------------------------------- TFM

def tfm(chars, ds, checksum=0, lh=2, coding="VERIF", extra=(0, 0, 0)):
    "chars: code -> (width, height, depth, italic) as fix_words; extra: numbers of lig_kern, kern and param words"
    def table(i, limit):
        vals = [0] + sorted({c[i] for c in chars.values()} - ({0} if i else set()))
        if len(vals) > limit:
            raise Error("too many values")
        return vals
    # a width index of zero means a missing character
    W, H, D, I = table(0, 256), table(1, 16), table(2, 16), table(3, 64)
    bc, ec = (min(chars), max(chars)) if chars else (1, 0)
    ci = b""
    for c in range(bc, ec + 1):
        if c in chars:
            w, h, d, i = chars[c]
            ci += bytes([W.index(w, 1), H.index(h) << 4 | D.index(d), I.index(i) << 2, 0])
        else:
            ci += bytes(4)
    head = sint(checksum, 4) + sint(ds, 4)
    if lh > 2:
        head += bytes([len(coding)]) + coding.encode().ljust(39, b"\0")
    if lh > 12:
        head += bytes([5]) + b"VERIF".ljust(19, b"\0")
    if lh > 17:
        head += bytes([0, 0, 0, 2])
    head += bytes(4 * lh - len(head))
    nl, nk, np = extra
    n = [lh, bc, ec, len(W), len(H), len(D), len(I), nl, nk, 0, np]
    lf = 6 + lh + (ec - bc + 1) + len(W) + len(H) + len(D) + len(I) + nl + nk + np
    return struct.pack(">12H", lf, *n) + head + ci + b"".join(sint(v, 4) for v in W + H + D + I) + bytes(4 * (nl + nk + np))


class TFM:
    def __init__(self, data):
        lf, lh, bc, ec, nw, nh, nd, ni = struct.unpack(">8H", data[:16])
        self.checksum, self.ds = struct.unpack(">ll", data[24:32])
        p = 24 + 4 * lh
        info = data[p:p + 4 * (ec - bc + 1)]
        p += len(info)

        def words(n):
            nonlocal p
            r = struct.unpack(">%dl" % n, data[p:p + 4 * n])
            p += 4 * n
            return r
        W, H, D, I = words(nw), words(nh), words(nd), words(ni)
        self.chars = {}
        for k in range(ec - bc + 1):
            a, b, c, d = info[4 * k:4 * k + 4]
            if a:
                self.chars[bc + k] = (W[a], H[b >> 4], D[b & 15], I[c >> 2])


def scaled(fix, z):
    "width in DVI units of a fix_word in a font at size z (DVI units), as computed by TeX and DVItype"
    z = int(round(z))
    zz, alpha = z, 16
    while zz >= 1 << 23:
        zz //= 2
        alpha += alpha
    beta = 256 // alpha
    alpha *= zz
    b = struct.pack(">l", fix)
    r = (((b[3] * zz) // 256 + b[2] * zz) // 256 + b[1] * zz) // beta
    if b[0] == 255:
        r -= alpha
    elif b[0] != 0:
        raise Error("width out of range")
    return r


# ---------------------------------------------------------------- VF

def vf(fonts, chars, ds, checksum=0, comment=b"", long_=()):
    "fonts: [(number, form, scale, ds, name)], chars: [(code, width, packet)]"
    o = bytes([247, 202, len(comment)]) + comment + sint(checksum, 4) + sint(ds, 4)
    for num, form, s, d, name in fonts:
        o += fntdef(num, form, 0, s, d, name)
    for code, w, pk in chars:
        if len(pk) < 242 and code < 256 and code not in long_:
            o += bytes([len(pk), code]) + uint(w, 3) + pk
        else:
            o += bytes([242]) + uint(len(pk), 4) + uint(code, 4) + sint(w, 4) + pk
    o += b"\xf8"
    return o + b"\xf8" * (-len(o) % 4)


def fntdef(num, form, c, s, d, name):
    n = form
    return bytes([242 + n]) + (sint(num, 4) if n == 4 else uint(num, n)) + sint(c, 4) + sint(s, 4) + sint(d, 4) + bytes([0, len(name)]) + name.encode()


class VF:
    def __init__(self, data):
        self.fonts, self.first, self.chars = {}, None, {}
        p = 3 + data[2]
        self.ds = struct.unpack(">l", data[p + 4:p + 8])[0]
        p += 8
        while True:
            c = data[p]
            p += 1
            if 243 <= c <= 246:
                num, n = rdfnt(data, p, c - 242)
                p += n
                if self.first is None:
                    self.first = num[0]
                self.fonts[num[0]] = num[1:]
            elif c == 242:
                pl, cc, w = struct.unpack(">LLl", data[p:p + 12])
                self.chars[cc] = data[p + 12:p + 12 + pl]
                p += 12 + pl
            elif c < 242:
                self.chars[data[p]] = data[p + 4:p + 4 + c]
                p += 4 + c
            else:
                return


def rdfnt(data, p, n):
    num = int.from_bytes(data[p:p + n], "big", signed=n == 4)
    c, s, d, a, l = struct.unpack(">lllBB", data[p + n:p + n + 14])
    return (num, c, s, d, data[p + n + 14:p + n + 14 + a + l].decode()), n + 14 + a + l


# ---------------------------------------------------------------- interpreter

class Font:
    "a font at a size (in DVI units)"

    def __init__(self, m, name, z):
        self.name, self.z = name, z
        self.tfm = m.tfm(name)
        self.vf = m.vf(name)
        if self.vf is not None:
            # VF: lengths are relative to the size of the virtual font
            self.local = {num: Font(m, nm, z * s / 2 ** 20) for num, (c, s, d, nm) in self.vf.fonts.items()}

    def width(self, c):
        return scaled(self.tfm.chars[c][0], self.z)


class Machine:
    "items are dictionaries with the box, the matrix M of the specials and the color col (None without a special)"

    def __init__(self, data, tfms, vfs, special):
        self.data, self.special = data, special
        self._t, self._v, self._tc, self._vc = tfms, vfs, {}, {}
        if data[:2] != b"\xf7\x02":
            raise Error("preamble")
        num, den, mag = struct.unpack(">LLL", data[2:14])
        self.unit = mag / 1000 * num / den * 72 / 254000       # PostScript points
        self.p = 15 + data[14]
        self.fonts = {}

    def tfm(self, name):
        if name not in self._tc:
            self._tc[name] = TFM(self._t(name))
        return self._tc[name]

    def vf(self, name):
        if name not in self._vc:
            d = self._v(name)
            self._vc[name] = VF(d) if d is not None else None
        return self._vc[name]

    def page(self):
        "items of the next page, or None"
        d = self.data
        while d[self.p] == 138 or 243 <= d[self.p] <= 246:
            if d[self.p] == 138:
                self.p += 1
            else:
                r, n = rdfnt(d, self.p + 1, d[self.p] - 242)
                self.fonts[r[0]] = Font(self, r[4], r[2])
                self.p += 1 + n
        if d[self.p] == 248:
            return None
        if d[self.p] != 139:
            raise Error("no bop")
        self.p += 45
        self.items, self.h, self.v = [], 0.0, 0.0
        self.gs = [((1, 0, 0, 1, 0, 0), None)]
        self.markers = {}
        self.p = self.run(d, self.p, self.fonts, None, 1.0, 0)
        return self.items

    def run(self, d, p, fonts, f, scale, depth):
        if depth > 8:
            raise Error("recursion")
        w = x = y = z = 0.0
        stack = []

        def arg(n, signed=True):
            nonlocal p
            v = int.from_bytes(d[p:p + n], "big", signed=signed)
            p += n
            return v
        while True:
            if p >= len(d):
                if depth and p == len(d):
                    return p
                raise Error("end of data")
            c = d[p]
            p += 1
            if c <= 131 or 133 <= c <= 136:
                adv = c < 132
                ch = c if c < 128 else arg(c - 127 if adv else c - 132, False)
                self.char(f, ch, depth)
                if adv:
                    self.h += f.width(ch)
            elif c in (132, 137):
                a, b = arg(4) * scale, arg(4) * scale
                if a > 0 and b > 0:
                    u = self.unit
                    M, col = self.gs[-1]
                    X, Y = self.h * u, -self.v * u
                    self.items.append(dict(k="rule", box=(X, Y, X + b * u, Y + a * u), M=M, col=col))
                if c == 132:
                    self.h += b
            elif c == 138:
                pass
            elif c == 140:
                if depth:
                    raise Error("eop in a packet")
                return p
            elif c == 141:
                stack.append((self.h, self.v, w, x, y, z))
            elif c == 142:
                self.h, self.v, w, x, y, z = stack.pop()
            elif 143 <= c <= 146:
                self.h += arg(c - 142) * scale
            elif 147 <= c <= 151:
                if c > 147:
                    w = arg(c - 147) * scale
                self.h += w
            elif 152 <= c <= 156:
                if c > 152:
                    x = arg(c - 152) * scale
                self.h += x
            elif 157 <= c <= 160:
                self.v += arg(c - 156) * scale
            elif 161 <= c <= 165:
                if c > 161:
                    y = arg(c - 161) * scale
                self.v += y
            elif 166 <= c <= 170:
                if c > 166:
                    z = arg(c - 166) * scale
                self.v += z
            elif 171 <= c <= 234:
                f = fonts[c - 171]
            elif 235 <= c <= 238:
                f = fonts[arg(c - 234, c == 238)]
            elif 239 <= c <= 242:
                n = arg(c - 238, False)
                self.special(self, d[p:p + n].decode("latin-1"))
                p += n
            elif 243 <= c <= 246:
                r, n = rdfnt(d, p, c - 242)
                p += n
                fonts[r[0]] = Font(self, r[4], r[2])
            else:
                raise Error("command %d" % c)

    def char(self, f, ch, depth):
        u = self.unit
        wd, ht, dp, it = f.tfm.chars[ch]
        if f.vf is None:
            M, col = self.gs[-1]
            s = f.z * u
            X, Y = self.h * u, -self.v * u
            self.items.append(dict(k="glyph", name=f.name, ch=ch, size=s, x=X, y=Y, M=M, col=col, depth=depth,
                                   box=(X, Y - dp * s / 2 ** 20, X + wd * s / 2 ** 20, Y + ht * s / 2 ** 20)))
        else:
            keep = self.h, self.v
            # VF: h and v are those of the character, w = x = y = z = 0, the font is the first one defined
            self.run(f.vf.chars[ch], 0, f.local, f.local.get(f.vf.first), f.z / 2 ** 20, depth + 1)
            self.h, self.v = keep


def pyxspecial(m, s):
    "the PyX: specials for colors (rgb and gray only), rotations, scalings and markers"
    import math
    if not s.startswith("PyX:"):
        return
    cmd, *a = s[4:].split()
    X, Y = m.h * m.unit, -m.v * m.unit
    M, col = m.gs[-1]
    if cmd == "color_begin":
        m.gs.append((M, COLORS(a)))
    elif cmd == "rotate_begin":
        t = math.radians(float(a[0]))
        c, s_ = math.cos(t), math.sin(t)
        m.gs.append((mul(mul((1, 0, 0, 1, -X, -Y), (c, s_, -s_, c, X, Y)), M), col))
    elif cmd == "scale_begin":
        sx, sy = float(a[0]), float(a[1])
        m.gs.append((mul((sx, 0, 0, sy, X - sx * X, Y - sy * Y), M), col))
    elif cmd in ("color_end", "rotate_end", "scale_end"):
        m.gs.pop()
    elif cmd == "marker":
        m.markers[a[0]] = (M[0] * X + M[2] * Y + M[4], M[1] * X + M[3] * Y + M[5])
    else:
        raise Error("special %s" % s)


def COLORS(a):
    import colorsys
    v = [float(t) for t in a[1:]] if a[0] not in ("texnamed", "pyxcolor") else None
    if a[0] == "rgb":
        return tuple(v)
    if a[0] == "gray":
        return (v[0],) * 3
    if a[0] == "RGB":
        return tuple(t / 255 for t in v)
    if a[0] == "hsb":
        return colorsys.hsv_to_rgb(*v)
    if a[0] == "cmyk":
        return tuple(1 - min(1, t + v[3]) for t in v[:3])
    if a[0] == "pyxcolor":
        t = " ".join(a[1:])
        for pre in ("pyx.", "color."):
            if t.startswith(pre):
                t = t[len(pre):]
        named = {"rgb.red": (1, 0, 0), "rgb.blue": (0, 0, 1), "cmyk.Black": (0, 0, 0), "gray.black": (0, 0, 0), "cmyk.Cyan": (0, 1, 1)}
        if t in named:
            return named[t]
        if t.startswith("cmyk."):
            return COLORS(["texnamed", t[5:]])
        model, nums = t.rstrip(")").split("(")
        return COLORS([model] + nums.replace(",", " ").split())
    if a[0] == "texnamed":
        from lib import dvipsnames
        return COLORS(["cmyk"] + list(dvipsnames.NAMES[a[1]]))
    raise Error("color %r" % (a,))
