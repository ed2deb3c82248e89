"""A small PostScript interpreter producing display lists (see gfx)"""
import math, re, colorsys
from .gfx import ID, mul, app, inv, PathBuilder, Error

WS = b" \t\r\n\f\0"
DELIM = b"()<>[]{}/%"


class Name(str):
    pass


class Lit(str):
    "literal name"


class Proc(list):
    pass


class Arr(list):
    pass


class Mark:
    pass


class Op:
    def __init__(self, name):
        self.name = name


class GState:
    def __init__(self):
        self.ctm = ID
        self.color = ("gray", 0.0)
        self.lw = 1.0
        self.cap = 0
        self.join = 0
        self.miter = 10.0
        self.dash = ([], 0.0)
        self.alpha = 1.0
        self.path = PathBuilder()
        self.clips = []
        self.font = None

    def copy(self):
        g = GState()
        g.__dict__.update(self.__dict__)
        g.path = self.path.copy()
        g.clips = list(self.clips)
        return g


class Scanner:
    def __init__(self, data):
        self.d = data
        self.i = 0

    def skip(self):
        d = self.d
        while self.i < len(d):
            c = d[self.i:self.i + 1]
            if c in WS and c:
                self.i += 1
            elif c == b"%":
                while self.i < len(d) and d[self.i] not in b"\r\n":
                    self.i += 1
            else:
                return

    def token(self):
        self.skip()
        d = self.d
        if self.i >= len(d):
            return None
        c = d[self.i:self.i + 1]
        if c == b"(":
            return self.string()
        if c in b"[]{}":
            self.i += 1
            return Name(c.decode())
        if d[self.i:self.i + 2] in (b"<<", b">>"):
            self.i += 2
            return Name(d[self.i - 2:self.i].decode())
        if d[self.i:self.i + 2] == b"<~":
            import base64
            j = d.index(b"~>", self.i + 2)
            t = bytes(d[self.i + 2:j])
            self.i = j + 2
            return base64.a85decode(re.sub(rb"\s+", b"", t))
        if c == b"<":
            j = d.index(b">", self.i)
            t = bytes(d[self.i + 1:j])
            self.i = j + 1
            h = re.sub(rb"\s+", b"", t)
            if len(h) % 2:
                h += b"0"
            return bytes.fromhex(h.decode())
        if c == b">":
            raise Error("unexpected >")
        lit = False
        if c == b"/":
            lit = True
            self.i += 1
            if d[self.i:self.i + 1] == b"/":
                self.i += 1
        j = self.i
        while j < len(d) and d[j] not in WS and d[j] not in DELIM:
            j += 1
        t = d[self.i:j].decode("latin-1")
        self.i = j
        if lit:
            return Lit(t)
        try:
            return int(t)
        except ValueError:
            pass
        if re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", t):
            return float(t)
        m = re.fullmatch(r"(\d+)#([0-9a-zA-Z]+)", t)
        if m:
            return int(m.group(2), int(m.group(1)))
        return Name(t)

    def string(self):
        d = self.d
        self.i += 1
        out = bytearray()
        depth = 1
        while True:
            if self.i >= len(d):
                raise Error("unterminated string")
            c = d[self.i]
            self.i += 1
            if c == 0x28:
                depth += 1
            elif c == 0x29:
                depth -= 1
                if not depth:
                    return bytes(out)
            elif c == 0x5c:
                c = d[self.i:self.i + 1]
                self.i += 1
                if c in b"nrtbf":
                    out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f"}[c]
                elif c in b"01234567":
                    o = c
                    while len(o) < 3 and d[self.i:self.i + 1] in b"01234567" and self.i < len(d):
                        o += d[self.i:self.i + 1]
                        self.i += 1
                    out.append(int(o, 8) & 255)
                elif c == b"\n":
                    pass
                elif c == b"\r":
                    if d[self.i:self.i + 1] == b"\n":
                        self.i += 1
                else:
                    out += c
                continue
            out.append(c)


class PS:
    def __init__(self, data, fonts=True):
        if isinstance(data, str):
            data = data.encode("latin-1")
        self.sc = Scanner(data)
        self.st = []
        self.sys = {}
        self.user = {}
        self.ds = [self.sys, self.user]
        self.gs = GState()
        self.gstack = []
        self.out = []
        self.pages = []
        self.fonts = {}
        self.steps = 0
        self.saves = 0
        self.patterns = []
        for n in dir(self):
            if n.startswith("op_"):
                self.sys[n[3:]] = Op(n)
        self.sys["true"], self.sys["false"], self.sys["null"] = True, False, None
        self.sys["systemdict"] = self.sys
        self.sys["userdict"] = self.user
        self.sys["errordict"] = {}
        self.sys["statusdict"] = {}
        self.sys["$error"] = {}
        self.sys[".setshapealpha"] = Op("op_setalpha")
        self.sys[".setfillconstantalpha"] = Op("op_setalpha")
        self.sys[".setstrokeconstantalpha"] = Op("op_nop1")
        self.sys["<<"] = self.sys["["] = self.sys["mark"] = Op("op_mark")
        self.sys["="] = self.sys["=="] = Op("op_pop")
        self.fontdir = {}
        self.glyphs = False          # interpret the embedded Type 1 fonts when showing text
        self.t1cache = {}
        from .t1 import STANDARD
        self.sys["StandardEncoding"] = Arr([Lit(STANDARD.get(i, ".notdef")) for i in range(256)])

    # machine

    def run(self):
        while True:
            t = self.sc.token()
            if t is None:
                return self
            if isinstance(t, Name) and t == "{":
                t = self.procbody()
                self.st.append(t)
                continue
            self.exec(t, True)

    def procbody(self):
        p = Proc()
        while True:
            t = self.sc.token()
            if t is None:
                raise Error("unterminated procedure")
            if isinstance(t, Name) and t == "{":
                p.append(self.procbody())
            elif isinstance(t, Name) and t == "}":
                return p
            else:
                p.append(t)

    def lookup(self, n):
        for d in reversed(self.ds):
            if n in d:
                return d[n]
        raise Error("undefined: %s" % n)

    def exec(self, t, direct=False):
        self.steps += 1
        if self.steps > 3000000:
            raise Error("program does not end")
        if isinstance(t, Name):
            v = self.lookup(str(t))
            if isinstance(v, Op):
                getattr(self, v.name)()
            elif isinstance(v, Proc):
                self.call(v)
            else:
                self.st.append(v)
        elif isinstance(t, Op):
            getattr(self, t.name)()
        else:
            self.st.append(t)

    def call(self, p):
        if isinstance(p, (Op, Name)):
            self.exec(p)
            return
        for t in p:
            self.exec(t)

    def pop(self, kind=None):
        if not self.st:
            raise Error("stackunderflow")
        return self.st.pop()

    def num(self):
        v = self.pop()
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Error("typecheck: %r is not a number" % (v,))
        return v

    def nums(self, n):
        r = [self.num() for i in range(n)]
        r.reverse()
        return r

    # operators
    def op_mark(self): self.st.append(Mark)
    def op_nop1(self): self.pop()
    def op_setalpha(self): self.gs.alpha = self.num()

    def _tomark(self):
        r = []
        while True:
            v = self.pop()
            if v is Mark:
                r.reverse()
                return r
            r.append(v)

    def op_cleartomark(self): self._tomark()
    def op_counttomark(self):
        n = 0
        for v in reversed(self.st):
            if v is Mark:
                break
            n += 1
        self.st.append(n)

    def op_array(self): self.st.append(Arr([None] * self.num()))
    def op_string(self): self.st.append(bytearray(self.num()))
    def op_dict(self): self.num(); self.st.append({})
    def op_begin(self): self.ds.append(self.pop())
    def op_end(self):
        if len(self.ds) <= 2:
            raise Error("dictstackunderflow")
        self.ds.pop()
    def op_def(self):
        v, k = self.pop(), self.pop()
        self.ds[-1][str(k)] = v
    def op_store(self):
        v, k = self.pop(), str(self.pop())
        for d in reversed(self.ds):
            if k in d:
                d[k] = v
                return
        self.ds[-1][k] = v
    def op_load(self): self.st.append(self.lookup(str(self.pop())))
    def op_known(self):
        k, d = self.pop(), self.pop()
        self.st.append(str(k) in d)
    def op_where(self):
        k = str(self.pop())
        for d in reversed(self.ds):
            if k in d:
                self.st += [d, True]
                return
        self.st.append(False)
    def op_currentdict(self): self.st.append(self.ds[-1])
    def op_exch(self):
        a, b = self.pop(), self.pop()
        self.st += [a, b]
    def op_dup(self):
        a = self.pop()
        self.st += [a, a]
    def op_pop(self): self.pop()
    def op_copy(self):
        n = self.pop()
        if isinstance(n, int):
            if n:
                self.st += self.st[-n:]
        else:
            src = self.pop()
            n[:len(src)] = src
            self.st.append(n)
    def op_index(self):
        n = self.num()
        self.st.append(self.st[-1 - n])
    def op_roll(self):
        j, n = self.num(), self.num()
        if n < 0:
            n, j = j, n
        n_, j_ = n, j
        if n_:
            part = self.st[-n_:]
            j_ %= n_
            self.st[-n_:] = part[-j_:] + part[:-j_] if j_ else part
    def op_clear(self): self.st.clear()
    def op_count(self): self.st.append(len(self.st))
    def op_add(self): a, b = self.nums(2); self.st.append(a + b)
    def op_sub(self): a, b = self.nums(2); self.st.append(a - b)
    def op_mul(self): a, b = self.nums(2); self.st.append(a * b)
    def op_div(self): a, b = self.nums(2); self.st.append(a / b)
    def op_idiv(self): a, b = self.nums(2); self.st.append(int(a / b))
    def op_mod(self): a, b = self.nums(2); self.st.append(int(math.fmod(a, b)))
    def op_neg(self): self.st.append(-self.num())
    def op_abs(self): self.st.append(abs(self.num()))
    def op_sqrt(self): self.st.append(math.sqrt(self.num()))
    def op_sin(self): self.st.append(math.sin(math.radians(self.num())))
    def op_cos(self): self.st.append(math.cos(math.radians(self.num())))
    def op_floor(self): self.st.append(math.floor(self.num()))
    def op_cvi(self): self.st.append(int(self.pop()))
    def op_cvr(self): self.st.append(float(self.pop()))
    def op_cvx(self):
        v = self.pop()
        if isinstance(v, Lit):
            v = Name(v)
        elif isinstance(v, Arr):
            v = Proc(v)
        self.st.append(v)
    def op_cvn(self): self.st.append(Lit(bytes(self.pop()).decode("latin-1")))
    def op_eq(self): b, a = self.pop(), self.pop(); self.st.append(a == b)
    def op_ne(self): b, a = self.pop(), self.pop(); self.st.append(a != b)
    def op_lt(self): a, b = self.nums(2); self.st.append(a < b)
    def op_gt(self): a, b = self.nums(2); self.st.append(a > b)
    def op_le(self): a, b = self.nums(2); self.st.append(a <= b)
    def op_ge(self): a, b = self.nums(2); self.st.append(a >= b)
    def op_and(self): b, a = self.pop(), self.pop(); self.st.append(a & b)
    def op_or(self): b, a = self.pop(), self.pop(); self.st.append(a | b)
    def op_not(self):
        a = self.pop()
        self.st.append((not a) if isinstance(a, bool) else ~a)
    def op_maxlength(self): self.st.append(len(self.pop()))
    def op_length(self): self.st.append(len(self.pop()))
    def op_get(self):
        k, o = self.pop(), self.pop()
        if isinstance(o, dict):
            k = str(k) if isinstance(k, str) else k
        self.st.append(o[k])
    def op_put(self):
        v, k, o = self.pop(), self.pop(), self.pop()
        if isinstance(o, dict):
            k = str(k) if isinstance(k, str) else k
        o[k] = v
    def op_forall(self):
        p, o = self.pop(), self.pop()
        if isinstance(o, dict):
            for k, v in list(o.items()):
                self.st += [Lit(k), v]
                self.call(p)
        else:
            for v in list(o):
                self.st.append(v)
                self.call(p)
    def op_for(self):
        p = self.pop()
        a, s, l = self.nums(3)
        while (s > 0 and a <= l) or (s < 0 and a >= l):
            self.st.append(a)
            self.call(p)
            a += s
    def op_repeat(self):
        p, n = self.pop(), self.num()
        for i in range(n):
            self.call(p)
    def op_if(self):
        p, c = self.pop(), self.pop()
        if c:
            self.call(p)
    def op_ifelse(self):
        q, p, c = self.pop(), self.pop(), self.pop()
        self.call(p if c else q)
    def op_exec(self):
        v = self.pop()
        if isinstance(v, (Proc, Op, Name)):
            self.call(v)
        else:
            self.st.append(v)
    def op_bind(self): pass
    def op_readonly(self): pass
    def op_noaccess(self): pass
    def op_executeonly(self): pass
    def op_astore(self):
        a = self.pop()
        n = len(a)
        a[:] = self.st[-n:]
        del self.st[-n:]
        self.st.append(a)
    def op_aload(self):
        a = self.pop()
        self.st += list(a) + [a]
    def op_matrix(self): self.st.append(Arr(ID))
    def op_currentmatrix(self):
        m = self.pop()
        m[:] = self.gs.ctm
        self.st.append(m)
    def op_setmatrix(self): self.gs.ctm = tuple(self.pop())
    def op_save(self):
        self.saves += 1
        self.gstack.append(("save", self.gs.copy()))
        self.st.append(("save", self.saves, [(d, dict(d)) for d in self.ds[1:]], len(self.gstack)))
    def op_restore(self):
        o = self.pop()
        if not (isinstance(o, tuple) and o[0] == "save"):
            raise Error("restore of %r" % (o,))
        if len(self.gstack) < o[3]:
            raise Error("invalidrestore")
        if len(self.ds) > 1 + len(o[2]):
            raise Error("invalidrestore: dictionary stack")
        for d, old in o[2]:
            d.clear()
            d.update(old)
        self.gs = self.gstack[o[3] - 1][1]
        del self.gstack[o[3] - 1:]
    def op_countdictstack(self): self.st.append(len(self.ds))
    def op_languagelevel(self): self.st.append(2)
    def op_setstrokeadjust(self): self.pop()
    def op_setoverprint(self): self.pop()
    def op_gsave(self): self.gstack.append(("g", self.gs.copy()))
    def op_grestore(self):
        if not self.gstack:
            raise Error("grestore without gsave")
        kind, g = self.gstack.pop()
        if kind == "save":
            raise Error("grestore across save")
        self.gs = g
    def op_concat(self):
        m = self.pop()
        if len(m) != 6:
            raise Error("matrix %r" % (m,))
        self.gs.ctm = mul(tuple(m), self.gs.ctm)
    def op_translate(self):
        x, y = self.nums(2)
        self.gs.ctm = mul((1, 0, 0, 1, x, y), self.gs.ctm)
    def op_scale(self):
        x, y = self.nums(2)
        self.gs.ctm = mul((x, 0, 0, y, 0, 0), self.gs.ctm)
    def op_rotate(self):
        a = math.radians(self.num())
        self.gs.ctm = mul((math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0), self.gs.ctm)
    # state
    def op_setlinewidth(self): self.gs.lw = self.num()
    def op_setlinecap(self): self.gs.cap = self.num()
    def op_setlinejoin(self): self.gs.join = self.num()
    def op_setmiterlimit(self): self.gs.miter = self.num()
    def op_setdash(self):
        o = self.num()
        a = self.pop()
        self.gs.dash = (list(a), o)
    def op_setgray(self): self.gs.color = ("gray", self.num())
    def op_setrgbcolor(self): self.gs.color = ("rgb",) + tuple(self.nums(3))
    def op_setcmykcolor(self): self.gs.color = ("cmyk",) + tuple(self.nums(4))
    def op_sethsbcolor(self):
        self.gs.color = ("rgb",) + tuple(colorsys.hsv_to_rgb(*self.nums(3)))
    def op_setcolorspace(self): self.gs.color = ("space", self.pop())
    def op_setpattern(self): self.gs.color = ("pattern", self.pop())
    def op_makepattern(self):
        m, d = self.pop(), self.pop()
        d = dict(d)
        d["#matrix"] = tuple(m)
        d["#ctm"] = self.gs.ctm
        self.patterns.append(d)
        self.st.append(d)
    # paths
    def op_newpath(self): self.gs.path.reset()
    def op_moveto(self): self.gs.path.moveto(self.gs.ctm, *self.nums(2))
    def op_lineto(self): self.gs.path.lineto(self.gs.ctm, *self.nums(2))
    def op_curveto(self): self.gs.path.curveto(self.gs.ctm, *self.nums(6))
    def _rel(self, c):
        x, y = self.gs.path.user(self.gs.ctm)
        return [v + (y if i % 2 else x) for i, v in enumerate(c)]
    def op_rmoveto(self): self.gs.path.moveto(self.gs.ctm, *self._rel(self.nums(2)))
    def op_rlineto(self): self.gs.path.lineto(self.gs.ctm, *self._rel(self.nums(2)))
    def op_rcurveto(self): self.gs.path.curveto(self.gs.ctm, *self._rel(self.nums(6)))
    def op_arc(self): self.gs.path.arc(self.gs.ctm, *self.nums(5))
    def op_arcn(self): self.gs.path.arc(self.gs.ctm, *self.nums(5), ccw=False)
    def op_arct(self): self.gs.path.arct(self.gs.ctm, *self.nums(5))
    def op_closepath(self): self.gs.path.closepath()
    def op_currentpoint(self): self.st += list(self.gs.path.user(self.gs.ctm))
    def _paint(self, kind, **kw):
        g = self.gs
        self.out.append(dict(kind=kind, color=g.color, alpha=g.alpha, ctm=g.ctm, clips=list(g.clips), lw=g.lw, cap=g.cap,
                             join=g.join, miter=g.miter, dash=g.dash, **kw))
    def op_stroke(self):
        self._paint("stroke", subs=self.gs.path.copy().subs)
        self.gs.path.reset()
    def op_fill(self, eo=False):
        self._paint("fill", subs=self.gs.path.copy().subs, evenodd=eo)
        self.gs.path.reset()
    def op_eofill(self): self.op_fill(True)
    def op_clip(self, eo=False): self.gs.clips.append((self.gs.path.copy().subs, eo))
    def op_eoclip(self): self.op_clip(True)
    def op_rectclip(self):
        x, y, w, h = self.nums(4)
        b = PathBuilder()
        b.moveto(self.gs.ctm, x, y)
        b.lineto(self.gs.ctm, x + w, y)
        b.lineto(self.gs.ctm, x + w, y + h)
        b.lineto(self.gs.ctm, x, y + h)
        b.closepath()
        self.gs.clips.append((b.subs, False))
    def op_shfill(self):
        d = self.pop()
        self._paint("shading", shading=d, data=self.readsource(d["DataSource"], d))
    def op_showpage(self):
        self.pages.append(self.out)
        self.out = []
        self.gs = GState()
    # fonts
    def op_definefont(self):
        d, k = self.pop(), self.pop()
        self.fontdir[str(k)] = d
        self.st.append(d)
    def op_findfont(self):
        k = str(self.pop())
        if k not in self.fontdir:
            raise Error("font %s not defined" % k)
        self.st.append(self.fontdir[k])
    def op_selectfont(self):
        s, k = self.pop(), str(self.pop())
        if k not in self.fontdir:
            raise Error("font %s not defined" % k)
        if isinstance(s, (int, float)):
            s = (s, 0, 0, s, 0, 0)
        self.gs.font = (k, tuple(s))
    def op_show(self):
        s = bytes(self.pop())
        if self.gs.font is None:
            raise Error("show without font")
        self._paint("text", text=s, font=self.gs.font, pos=self.gs.path.user(self.gs.ctm), device=self.gs.path.cur)
        if self.glyphs:
            self.showglyphs(s)
    def showglyphs(self, s):
        from . import t1
        k, size = self.gs.font
        d = self.fontdir[k]
        if "#eexec" not in d:
            raise Error("font %s is not embedded" % k)
        if d["#eexec"] not in self.t1cache:
            try:
                self.t1cache[d["#eexec"]] = t1.Font.embedded(k, None, None, d["#eexec"])
            except t1.Error as e:
                raise Error("font %s: %s" % (k, e))
        f = self.t1cache[d["#eexec"]]
        m = mul(tuple(d["FontMatrix"]), size)
        x, y = self.gs.path.user(self.gs.ctm)
        for c in s:
            n = str(d["Encoding"][c])
            try:
                cs, w = f.glyph(n)
            except t1.Error as e:
                raise Error("font %s: %s" % (k, e))
            self._paint("glyph", name=n, code=c, contours=t1.transform(cs, mul(mul(m, (1, 0, 0, 1, x, y)), self.gs.ctm)))
            dx, dy = m[0] * w[0] + m[2] * w[1], m[1] * w[0] + m[3] * w[1]
            x, y = x + dx, y + dy
        self.gs.path.moveto(self.gs.ctm, x, y)
    def op_currentfile(self): self.st.append(("file",))
    def op_eexec(self):
        "skip the encrypted portion of a Type 1 font and register the font by the name defined before"
        self.pop()
        d = None
        for x in reversed(self.st):
            if isinstance(x, dict):
                d = x
                break
        if d is None and isinstance(self.ds[-1], dict):
            d = self.ds[-1]
        j = self.sc.d.index(b"cleartomark", self.sc.i)
        d = dict(d)
        d["#eexec"] = bytes(self.sc.d[self.sc.i:j])
        self.fontdir[str(d.get("FontName"))] = d
        self.sc.i = j + len(b"cleartomark")
    # images
    def op_filter(self):
        name = str(self.pop())
        p = None
        if self.st and isinstance(self.st[-1], dict):
            p = self.pop()
        src = self.pop()
        if name == "SubFileDecode":
            raise Error("SubFileDecode")
        self.st.append(("filter", name, p, src))
    def op_image(self):
        d = self.pop()
        if not isinstance(d, dict):
            raise Error("image without dictionary")
        i = d["DataDict"] if d.get("ImageType") == 3 else d
        self._need = i["Width"] * i["Height"] * (len(i["Decode"]) // 2 + (i is not d))
        self._paint("image", image={k: v for k, v in d.items()}, data=self.readsource(i["DataSource"], i))
    def readproc(self, proc, filter):
        "call the procedure until the filter or the image has enough data"
        import zlib
        data = b""
        o = zlib.decompressobj()
        while True:
            if filter == "FlateDecode" and o.eof:
                return data
            if filter is None and len(data) >= self._need:
                return data
            if filter == "DCTDecode" and data.endswith(b"\xff\xd9") and len(data) >= self.dctlen(data):
                return ("dct", data)
            n = len(self.st)
            self.call(proc)
            s = self.pop()
            if len(self.st) != n or not isinstance(s, (bytes, bytearray)):
                raise Error("data procedure")
            data += o.decompress(bytes(s)) if filter == "FlateDecode" else bytes(s)

    def dctlen(self, data):
        "length of the JPEG stream, infinite when incomplete"
        i = 2
        while i + 1 < len(data):
            if data[i] == 255 and data[i + 1] == 0xd9:
                return i + 2
            if data[i] == 255 and data[i + 1] not in (0, 255):
                i += 2 + (data[i + 2] * 256 + data[i + 3] if i + 3 < len(data) else 0)
            else:
                i += 1
        return float("inf")

    def readsource(self, src, d):
        if isinstance(src, (bytes, bytearray)):
            return bytes(src)
        if isinstance(src, tuple) and src[0] == "filter":
            name, p, under = src[1:]
            if name == "ASCIIHexDecode":
                j = self.sc.d.index(b">", self.sc.i)
                raw = self.sc.d[self.sc.i:j]
                self.sc.i = j + 1
                if under != ("file",):
                    raise Error("ASCIIHexDecode of %r" % (under,))
                return bytes.fromhex(re.sub(rb"\s+", b"", raw).decode())
            if name == "ASCII85Decode":
                import base64
                if under != ("file",):
                    raise Error("ASCII85Decode of %r" % (under,))
                j = self.sc.d.index(b"~>", self.sc.i)
                raw = self.sc.d[self.sc.i:j]
                self.sc.i = j + 2
                return base64.a85decode(re.sub(rb"\s+", b"", raw))
            if isinstance(under, Proc):
                return self.readproc(under, name)
            data = self.readsource(under, d)
            if name == "FlateDecode":
                import zlib
                return zlib.decompress(data)
            if name == "DCTDecode":
                return ("dct", data)
            if name == "LZWDecode":
                return ("lzw", data)
            raise Error("filter %s" % name)
        if src == ("file",):
            return ("file", self.sc.i)
        if isinstance(src, Proc):
            return self.readproc(src, None)
        raise Error("data source %r" % (src,))


PS.__dict__  # noqa


def _array(self):
    self.st.append(Arr(self._tomark()))


def _dict(self):
    r = self._tomark()
    if len(r) % 2:
        raise Error("odd number of dictionary entries")
    self.st.append({str(r[i]): r[i + 1] for i in range(0, len(r), 2)})


PS.op_closearray = _array
PS.op_closedict = _dict


def new(data):
    p = PS(data)
    p.sys["]"] = Op("op_closearray")
    p.sys[">>"] = Op("op_closedict")
    return p


def interpret(data):
    "display list of a complete file or fragment: (pages, rest)"
    p = new(data)
    p.run()
    return p
