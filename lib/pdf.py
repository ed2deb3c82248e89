"""Strict reader of PDF files (xref, objects, streams, references) and content stream interpreter (display lists of gfx.py)"""
import re, zlib
from .gfx import ID, mul, app, PathBuilder, Error, tsubs


class Name(str):
    def __repr__(self): return "/" + str.__str__(self)


class Ref:
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Ref) and o.n == self.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return "%d 0 R" % self.n


class Op(str):
    pass


WS = b"\0\t\n\x0c\r "
DELIM = b"()<>[]{}/%"
REAL = re.compile(rb"[-+]?(\d+\.?\d*|\.\d+)\Z")


class Lexer:
    def __init__(self, data, i=0):
        self.d, self.i = data, i

    def skip(self):
        d = self.d
        while self.i < len(d):
            c = d[self.i:self.i + 1]
            if c in (b"%",):
                while self.i < len(d) and d[self.i:self.i + 1] not in (b"\n", b"\r"):
                    self.i += 1
            elif c in WS:
                self.i += 1
            else:
                return

    def token(self):
        "next token: number, Name, bytes, Op or one of the strings [ ] << >>; None at the end"
        self.skip()
        d, i = self.d, self.i
        if i >= len(d):
            return None
        c = d[i:i + 1]
        if c == b"(":
            return self.string()
        if d[i:i + 2] in (b"<<", b">>"):
            self.i += 2
            return Op(d[i:i + 2].decode())
        if c == b"<":
            j = d.index(b">", i)
            self.i = j + 1
            h = re.sub(rb"\s", b"", d[i + 1:j])
            if not re.match(rb"[0-9a-fA-F]*\Z", h):
                raise Error("hex string %r" % h)
            return bytes.fromhex((h + b"0" * (len(h) % 2)).decode())
        if c in b"[]":
            self.i += 1
            return Op(c.decode())
        if c == b"/":
            j = i + 1
            while j < len(d) and d[j:j + 1] not in WS and d[j:j + 1] not in DELIM:
                j += 1
            self.i = j
            n = d[i + 1:j]
            if any(b < 33 or b > 126 for b in n):
                raise Error("character in name %r" % n)
            return Name(re.sub(r"#([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), n.decode("latin-1")))
        if c in b"){}>":
            raise Error("unexpected %r at %d" % (c, i))
        j = i
        while j < len(d) and d[j:j + 1] not in WS and d[j:j + 1] not in DELIM:
            j += 1
        self.i = j
        t = d[i:j]
        if REAL.match(t):
            return float(t) if b"." in t else int(t)
        if re.match(rb"[-+.\d]", t):
            raise Error("%r is not a PDF number" % t)
        return Op(t.decode("latin-1"))

    def string(self):
        d = self.d
        i = self.i + 1
        depth = 1
        out = bytearray()
        while True:
            if i >= len(d):
                raise Error("unterminated string")
            c = d[i]
            if c == 0x5c:
                i += 1
                e = d[i:i + 1]
                m = re.compile(rb"[0-7]{1,3}").match(d, i)
                if m:
                    v = int(m.group(), 8)
                    if v > 255:
                        raise Error("octal escape %r" % m.group())
                    out.append(v)
                    i = m.end()
                    continue
                if e in b"nrtbf":
                    out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f"}[e]
                elif e == b"\n":
                    pass
                else:
                    out += e
                i += 1
                continue
            if c == 0x28:
                depth += 1
            elif c == 0x29:
                depth -= 1
                if not depth:
                    self.i = i + 1
                    return bytes(out)
            out.append(c)
            i += 1

    def obj(self):
        t = self.token()
        return self.rest(t)

    def rest(self, t):
        if t is None:
            raise Error("end of data")
        if isinstance(t, int) and not isinstance(t, bool):
            m = re.compile(rb"[\0\t\n\x0c\r ]+(\d+)[\0\t\n\x0c\r ]+R(?![A-Za-z0-9])").match(self.d, self.i)
            if m:
                self.i = m.end()
                if int(m.group(1)) != 0:
                    raise Error("generation %r" % m.group(1))
                return Ref(t)
            return t
        if isinstance(t, Op):
            if t == "[":
                r = []
                while True:
                    u = self.token()
                    if isinstance(u, Op) and u == "]":
                        return r
                    r.append(self.rest(u))
            if t == "<<":
                r = {}
                while True:
                    k = self.token()
                    if isinstance(k, Op) and k == ">>":
                        return r
                    if not isinstance(k, Name):
                        raise Error("dictionary key %r" % (k,))
                    if str(k) in r:
                        raise Error("duplicate dictionary key %r" % (k,))
                    r[str(k)] = self.obj()
            if t in ("true", "false"):
                return t == "true"
            if t == "null":
                return None
            raise Error("unexpected operator %r" % str(t))
        return t


class Stream:
    def __init__(self, dic, raw):
        self.dic, self.raw = dic, raw

    def data(self):
        f = self.dic.get("Filter")
        if f is None:
            return self.raw
        f = f if isinstance(f, list) else [f]
        d = self.raw
        for n in f:
            if n == "FlateDecode":
                d = zlib.decompress(d)
            elif n == "ASCIIHexDecode":
                d = bytes.fromhex(re.sub(rb"\s", b"", d).rstrip(b">").decode())
            elif n == "ASCII85Decode":
                import base64
                d = base64.a85decode(re.sub(rb"\s", b"", d)[:-2])
            else:
                return (str(n), d)
        return d


class PDF:
    "parses a complete file; every deviation from the format raises Error"
    def __init__(self, data):
        self.raw = data
        m = re.match(rb"%PDF-1\.\d[\r\n]", data)
        if not m:
            raise Error("header %r" % data[:10])
        m = re.search(rb"startxref\s+(\d+)\s+%%EOF\s*\Z", data)
        if not m:
            raise Error("no startxref at the end")
        pos = int(m.group(1))
        x = re.compile(rb"xref\n0 (\d+)\n").match(data, pos)
        if not x:
            raise Error("no xref table at %d" % pos)
        n = int(x.group(1))
        off = {}
        i = x.end()
        for k in range(n):
            e = data[i:i + 20]
            g = re.match(rb"(\d{10}) (\d{5}) ([nf])( \n|\r\n| \r)\Z", e)
            if not g:
                raise Error("xref entry %d: %r" % (k, e))
            if k == 0:
                if g.group(3) != b"f" or g.group(2) != b"65535":
                    raise Error("first xref entry %r" % e)
            elif g.group(3) == b"n":
                off[k] = int(g.group(1))
            i += 20
        lx = Lexer(data, i)
        if lx.token() != "trailer":
            raise Error("no trailer after %d xref entries" % n)
        self.trailer = lx.obj()
        if self.trailer.get("Size") != n:
            raise Error("Size %r of %d entries" % (self.trailer.get("Size"), n))
        self.objs = {}
        ends = []
        for k, o in off.items():
            g = re.compile(rb"(\d+) 0 obj[\s]").match(data, o)
            if not g or int(g.group(1)) != k:
                raise Error("object %d is not at its offset %d: %r" % (k, o, data[o:o + 20]))
            l = Lexer(data, g.end())
            v = l.obj()
            t = l.token()
            if t == "stream":
                if data[l.i:l.i + 2] == b"\r\n":
                    s = l.i + 2
                elif data[l.i:l.i + 1] == b"\n":
                    s = l.i + 1
                else:
                    raise Error("stream keyword of object %d" % k)
                ln = v.get("Length")
                if isinstance(ln, Ref):
                    raise Error("indirect length")
                if not isinstance(ln, int):
                    raise Error("stream %d without length" % k)
                body = data[s:s + ln]
                r = re.compile(rb"(\r\n|\n|\r)?endstream\s").match(data, s + ln)
                if not r:
                    raise Error("stream %d: no endstream after %d bytes: %r" % (k, ln, data[s + ln:s + ln + 20]))
                l.i = r.end()
                v = Stream(v, body)
                t = l.token()
            if t != "endobj":
                raise Error("object %d ends with %r" % (k, t))
            self.objs[k] = v
            ends.append((o, l.i))
        ends.sort()
        # the body consists of the objects and nothing else
        last = data.index(b"\n", data.index(b"\n") + 1) + 1
        for a, b in ends:
            if data[last:a].strip():
                raise Error("data between objects: %r" % data[last:a][:40])
            last = b
        if data[last:pos].strip():
            raise Error("data after the objects: %r" % data[last:pos][:40])
        for k, v in self.objs.items():
            self.checkrefs(v.dic if isinstance(v, Stream) else v, k)
        self.checkrefs(self.trailer, "trailer")
        self.root = self.get(self.trailer["Root"])
        if self.root.get("Type") != "Catalog":
            raise Error("catalog %r" % self.root)
        self.info = self.get(self.trailer.get("Info")) if "Info" in self.trailer else {}
        self.pages = []
        self._pages(self.root["Pages"], None)

    def checkrefs(self, v, k):
        if isinstance(v, Ref):
            if v.n not in self.objs:
                raise Error("object %s refers to the missing object %d" % (k, v.n))
        elif isinstance(v, list):
            for x in v:
                self.checkrefs(x, k)
        elif isinstance(v, dict):
            for x in v.values():
                self.checkrefs(x, k)

    def get(self, v):
        while isinstance(v, Ref):
            v = self.objs[v.n]
        return v

    def _pages(self, ref, parent):
        d = self.get(ref)
        if parent is not None and d.get("Parent") != parent:
            raise Error("parent of page %r is %r" % (ref, d.get("Parent")))
        if d.get("Type") == "Pages":
            n0 = len(self.pages)
            for k in d["Kids"]:
                self._pages(k, ref)
            if d.get("Count") != len(self.pages) - n0:
                raise Error("Count %r of %d pages" % (d.get("Count"), len(self.pages) - n0))
        elif d.get("Type") == "Page":
            mb = d.get("MediaBox")
            if not (isinstance(mb, list) and len(mb) == 4):
                raise Error("MediaBox %r" % (mb,))
            self.pages.append(d)
        else:
            raise Error("page tree node %r" % d)

    def content(self, page):
        s = self.get(page["Contents"])
        d = s.data()
        if not isinstance(d, bytes):
            raise Error("content filter %r" % (d[0],))
        return d

    def interpret(self, page, **kw):
        c = Content(self, self.get(page["Resources"]), **kw)
        c.run(self.content(page))
        return c


class GS:
    def __init__(self):
        self.ctm = ID
        self.clips = []
        self.fill = self.stroke = ("gray", 0.0)
        self.fillspace = self.strokespace = None
        self.ca = self.CA = 1.0
        self.lw, self.cap, self.join, self.miter, self.dash = 1.0, 0, 0, 10.0, ([], 0.0)
        self.font = None
        self.tc = self.tw = self.tl = self.ts = 0.0
        self.th = 100.0
        self.tr = 0

    def copy(self):
        g = GS.__new__(GS)
        g.__dict__.update(self.__dict__)
        g.clips = list(self.clips)
        return g


GENERAL = {"w": 1, "J": 1, "j": 1, "M": 1, "d": 2, "ri": 1, "i": 1, "gs": 1, "q": 0, "Q": 0, "cm": 6}
COLOR = {"CS": 1, "cs": 1, "SC": None, "SCN": None, "sc": None, "scn": None, "G": 1, "g": 1, "RG": 3, "rg": 3, "K": 4, "k": 4}
TSTATE = {"Tc": 1, "Tw": 1, "Tz": 1, "TL": 1, "Tf": 2, "Tr": 1, "Ts": 1}
PATH = {"m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "h": 0, "re": 4}
PAINT = {k: 0 for k in ("S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n")}
CLIP = {"W": 0, "W*": 0}
TEXT = {"Td": 2, "TD": 2, "Tm": 6, "T*": 0, "Tj": 1, "'": 1, '"': 3, "TJ": 1}
MISC = {"sh": 1, "Do": 1, "BT": 0, "ET": 0, "BI": 0, "MP": 1, "DP": 2, "BMC": 1, "BDC": 2, "EMC": 0}
COUNT = {}
for _d in (GENERAL, COLOR, TSTATE, PATH, PAINT, CLIP, TEXT, MISC):
    COUNT.update(_d)


class Content:
    def __init__(self, pdf, res, ctm=ID, clips=(), depth=0, gs=None):
        self.pdf, self.res, self.depth = pdf, res, depth
        self.gs = gs or GS()
        if gs is None:
            self.gs.ctm = ctm
            self.gs.clips = list(clips)
        self.base = self.gs.ctm
        self.stack = []
        self.out = []
        self.path = PathBuilder()
        self.pend = None       # pending clip
        self.mode = "page"     # page | path | clip | text
        self.tm = self.tlm = None

    def resource(self, kind, name):
        d = self.pdf.get(self.res.get(kind, {}))
        if str(name) not in d:
            raise Error("resource %s /%s is not in the resource dictionary" % (kind, name))
        return self.pdf.get(d[str(name)])

    def run(self, data):
        lx = Lexer(data)
        st = []
        while True:
            t = lx.token()
            if t is None:
                break
            if isinstance(t, Op) and t not in ("[", "<<", "true", "false", "null"):
                self.op(str(t), st, lx)
                st = []
            else:
                st.append(lx.rest(t))
        if st:
            raise Error("operands left at the end: %r" % st)
        if self.stack:
            raise Error("q without Q")
        if self.mode != "page":
            raise Error("content ends in %s" % self.mode)
        return self.out

    def paint(self, kind, **kw):
        g = self.gs
        self.out.append(dict(kind=kind, ctm=g.ctm, clips=list(g.clips), lw=g.lw, cap=g.cap, join=g.join, miter=g.miter, dash=g.dash,
                             color=g.stroke if kind == "stroke" else g.fill, alpha=g.CA if kind == "stroke" else g.ca, **kw))

    def op(self, o, a, lx):
        if o not in COUNT:
            raise Error("unknown operator %r" % o)
        n = COUNT[o]
        if n is not None and len(a) != n:
            raise Error("operator %s with operands %r" % (o, a))
        if o in PATH or o in PAINT or o in CLIP or o in GENERAL or o in ("G", "g", "RG", "rg", "K", "k", "Tm", "Td", "TD"):
            for v in a:
                if not isinstance(v, (int, float)) and not (o in ("d", "gs", "ri")):
                    raise Error("operand %r of %s" % (v, o))
        # graphics objects: which operators are allowed where (PDF reference, figure 4.1)
        m = self.mode
        if m == "path":
            ok = o in PATH or o in PAINT or o in CLIP
        elif m == "clip":
            ok = o in PAINT
        elif m == "text":
            ok = o in TEXT or o in TSTATE or o in COLOR or o == "ET" or (o in GENERAL and o not in ("q", "Q", "cm")) or o in ("MP", "DP", "BMC", "BDC", "EMC")
        else:
            ok = o in GENERAL or o in COLOR or o in TSTATE or o in MISC and o != "ET" or o in ("m", "re")
        if not ok:
            raise Error("operator %s is not allowed in a %s object" % (o, m))
        g = self.gs
        if o in PATH:
            self.mode = "path"
            b = self.path
            if o == "m": b.moveto(g.ctm, *a)
            elif o == "l": b.lineto(g.ctm, *a)
            elif o == "c": b.curveto(g.ctm, *a)
            elif o == "h": b.closepath()
            elif o == "re":
                x, y, w, h = a
                b.moveto(g.ctm, x, y); b.lineto(g.ctm, x + w, y); b.lineto(g.ctm, x + w, y + h); b.lineto(g.ctm, x, y + h); b.closepath()
            else:
                raise Error("operator %s not supported by this reader" % o)
        elif o in CLIP:
            self.mode = "clip"
            self.pend = o == "W*"
        elif o in PAINT:
            if o in ("s", "b", "b*"):
                self.path.closepath()
            subs = self.path.copy().subs
            if o in ("f", "F", "f*", "B", "B*", "b", "b*"):
                self.paint("fill", subs=subs, evenodd=o.endswith("*"))
            if o in ("S", "s", "B", "B*", "b", "b*"):
                self.paint("stroke", subs=subs)
            if self.pend is not None:
                g.clips.append((subs, self.pend))
                self.pend = None
            self.path.reset()
            self.mode = "page"
        elif o == "q":
            self.stack.append(g.copy())
        elif o == "Q":
            if not self.stack:
                raise Error("Q without q")
            self.gs = self.stack.pop()
        elif o == "cm":
            g.ctm = mul(tuple(a), g.ctm)
        elif o == "w": g.lw = a[0]
        elif o == "J": g.cap = a[0]
        elif o == "j": g.join = a[0]
        elif o == "M": g.miter = a[0]
        elif o == "d":
            if not isinstance(a[0], list):
                raise Error("dash %r" % a)
            g.dash = (a[0], a[1])
        elif o == "gs":
            d = self.resource("ExtGState", a[0])
            if "CA" in d: g.CA = d["CA"]
            if "ca" in d: g.ca = d["ca"]
        elif o == "G": g.strokespace, g.stroke = "DeviceGray", ("gray", a[0])
        elif o == "g": g.fillspace, g.fill = "DeviceGray", ("gray", a[0])
        elif o == "RG": g.strokespace, g.stroke = "DeviceRGB", ("rgb",) + tuple(a)
        elif o == "rg": g.fillspace, g.fill = "DeviceRGB", ("rgb",) + tuple(a)
        elif o == "K": g.strokespace, g.stroke = "DeviceCMYK", ("cmyk",) + tuple(a)
        elif o == "k": g.fillspace, g.fill = "DeviceCMYK", ("cmyk",) + tuple(a)
        elif o in ("cs", "CS"):
            if a[0] not in ("DeviceGray", "DeviceRGB", "DeviceCMYK", "Pattern"):
                self.resource("ColorSpace", a[0])
            if o == "cs": g.fillspace = str(a[0])
            else: g.strokespace = str(a[0])
        elif o in ("scn", "SCN", "sc", "SC"):
            sp = g.fillspace if o[0] == "s" else g.strokespace
            if sp == "Pattern":
                c = ("pattern", self.resource("Pattern", a[-1]), tuple(a[:-1]), self.base)
            else:
                c = ({"DeviceGray": "gray", "DeviceRGB": "rgb", "DeviceCMYK": "cmyk"}.get(sp, sp),) + tuple(a)
            if o[0] == "s": g.fill = c
            else: g.stroke = c
        elif o == "BT":
            self.mode = "text"
            self.tm = self.tlm = ID
        elif o == "ET":
            self.mode = "page"
        elif o == "Tf":
            g.font = (self.resource("Font", a[0]), a[1], str(a[0]))
        elif o == "Tc": g.tc = a[0]
        elif o == "Tw": g.tw = a[0]
        elif o == "Tz": g.th = a[0]
        elif o == "TL": g.tl = a[0]
        elif o == "Ts": g.ts = a[0]
        elif o == "Tr": g.tr = a[0]
        elif o in ("Td", "TD"):
            if o == "TD": g.tl = -a[1]
            self.tlm = mul((1, 0, 0, 1, a[0], a[1]), self.tlm)
            self.tm = self.tlm
        elif o == "Tm":
            self.tm = self.tlm = tuple(a)
        elif o in ("Tj", "TJ"):
            if g.font is None:
                raise Error("text without font")
            self.show(a[0] if o == "TJ" else [a[0]])
        elif o == "Do":
            x = self.resource("XObject", a[0])
            st = x.dic.get("Subtype")
            if st == "Image":
                self.paint("image", image=x)
            elif st == "Form":
                sub = Content(self.pdf, self.pdf.get(x.dic.get("Resources", {})), gs=g.copy(), depth=self.depth + 1)
                sub.gs.ctm = mul(tuple(x.dic.get("Matrix", ID)), g.ctm)
                sub.run(x.data())
                self.out += sub.out
            else:
                raise Error("XObject %r" % st)
        elif o == "sh":
            self.paint("shading", shading=self.resource("Shading", a[0]))
        elif o in ("ri", "i"):
            pass
        else:
            raise Error("operator %s not supported by this reader" % o)

    def show(self, items):
        g = self.gs
        font, size, name = g.font
        widths = self.pdf.get(font.get("Widths"))
        first = font.get("FirstChar")
        for it in items:
            if isinstance(it, (int, float)):
                self.tm = mul((1, 0, 0, 1, -it / 1000.0 * size * g.th / 100, 0), self.tm)
                continue
            if not isinstance(it, bytes):
                raise Error("text operand %r" % (it,))
            for c in it:
                m = mul(self.tm, g.ctm)
                self.paint("glyph", code=c, font=font, fontname=name, size=size, matrix=mul((size, 0, 0, size, 0, g.ts), m),
                           pos=app(m, (0, g.ts)))
                if widths is None or not (first <= c < first + len(widths)):
                    raise Error("no width for character %d of %r" % (c, name))
                w = widths[c - first] / 1000.0 * size + g.tc + (g.tw if c == 32 else 0)
                self.tm = mul((1, 0, 0, 1, w * g.th / 100, 0), self.tm)
