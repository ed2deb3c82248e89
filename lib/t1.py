"""Adobe Type 1 fonts: a writer producing font programs from a description, and a reader (parser plus
charstring interpreter) written from the Type 1 specification; both independent of PyX.

Outlines are lists of contours; a contour is [(x, y), seg, seg...] with seg = (x, y) for a line or
(x1, y1, x2, y2, x, y) for a Bezier curve, in character space (before the FontMatrix is applied)."""

import re

STANDARD = {}
for _start, _names in (
        (32, "space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft parenright asterisk plus comma hyphen period slash"
             " zero one two three four five six seven eight nine colon semicolon less equal greater question at"),
        (91, "bracketleft backslash bracketright asciicircum underscore quoteleft"),
        (123, "braceleft bar braceright asciitilde"),
        (161, "exclamdown cent sterling fraction yen florin section currency quotesingle quotedblleft guillemotleft guilsinglleft guilsinglright fi fl"),
        (177, "endash dagger daggerdbl periodcentered"), (182, "paragraph bullet quotesinglbase quotedblbase quotedblright guillemotright ellipsis perthousand"),
        (191, "questiondown"), (193, "grave acute circumflex tilde macron breve dotaccent dieresis"), (202, "ring cedilla"), (205, "hungarumlaut ogonek caron emdash"),
        (225, "AE"), (227, "ordfeminine"), (232, "Lslash Oslash OE ordmasculine"), (241, "ae"), (245, "dotlessi"), (248, "lslash oslash oe germandbls")):
    for _i, _n in enumerate(_names.split()):
        STANDARD[_start + _i] = _n
for _c in range(26):
    STANDARD[65 + _c] = chr(65 + _c)
    STANDARD[97 + _c] = chr(97 + _c)
STDCODE = {n: c for c, n in STANDARD.items()}


class Error(Exception):
    pass


def decrypt(data, r, n):
    out = bytearray()
    for c in data:
        out.append(c ^ (r >> 8))
        r = ((c + r) * 52845 + 22719) & 0xffff
    return bytes(out[n:])


def encrypt(data, r, lead):
    out = bytearray()
    for p in lead + data:
        c = p ^ (r >> 8)
        out.append(c)
        r = ((c + r) * 52845 + 22719) & 0xffff
    return bytes(out)


# ---------------------------------------------------------------- reading

def sections(data):
    "(clear text, decrypted private part) of a pfa, a pfb or an embedded font (data of a PDF /FontFile)"
    if data[:1] == b"\x80":
        pos, parts = 0, []
        while pos < len(data):
            if data[pos] != 0x80:
                raise Error("bad pfb segment marker")
            kind = data[pos + 1]
            if kind == 3:
                break
            if kind not in (1, 2):
                raise Error("bad pfb segment type")
            n = int.from_bytes(data[pos + 2:pos + 6], "little")
            if pos + 6 + n > len(data):
                raise Error("pfb segment exceeds the file")
            parts.append((kind, data[pos + 6:pos + 6 + n]))
            pos += 6 + n
        else:
            raise Error("pfb without end marker")
        i = 0
        clear, enc, tail = b"", b"", b""
        while i < len(parts) and parts[i][0] == 1:
            clear += parts[i][1]
            i += 1
        while i < len(parts) and parts[i][0] == 2:
            enc += parts[i][1]
            i += 1
        while i < len(parts) and parts[i][0] == 1:
            tail += parts[i][1]
            i += 1
        if i != len(parts):
            raise Error("unexpected pfb segments")
        if len(re.findall(rb"0", tail)) < 512 or b"cleartomark" not in tail:
            raise Error("pfb trailer missing")
        if not clear.rstrip(b" \t\r\n").endswith(b"eexec"):
            raise Error("clear text part does not end in eexec")
    else:
        m = re.search(rb"currentfile\s+eexec[ \t]*(\r\n|\r|\n|[ \t])", data)
        if not m:
            raise Error("eexec not found")
        clear, enc = data[:m.end()], data[m.end():]
    head = enc[:4]
    if all(c in b"0123456789abcdefABCDEF \t\r\n" for c in head):
        enc = re.sub(rb"[ \t\r\n]", b"", enc)
        m = re.match(rb"[0-9a-fA-F]*", enc)
        h = m.group(0)
        enc = bytes.fromhex(h[:len(h) // 2 * 2].decode())
    return clear, decrypt(enc, 55665, 4)


class Font:

    def __init__(self, data):
        self.clear, self.private = sections(data)
        self.header(self.clear)
        self.parse(self.private)

    @classmethod
    def embedded(cls, name, matrix, encoding, eexec):
        "font in a PostScript program: name, FontMatrix and Encoding come from the font dictionary"
        f = cls.__new__(cls)
        f.name, f.matrix, f.encoding = name, matrix, encoding
        f.clear, f.private = sections(b"currentfile eexec\n" + eexec)
        f.parse(f.private)
        return f

    def header(self, c):
        m = re.search(rb"/FontName\s*/(\S+)\s+def", c)
        if not m:
            raise Error("no FontName")
        self.name = m.group(1).decode("latin-1")
        m = re.search(rb"/FontMatrix\s*\[([^\]]*)\]", c)
        if not m:
            raise Error("no FontMatrix")
        self.matrix = tuple(map(float, m.group(1).split()))
        if len(self.matrix) != 6:
            raise Error("bad FontMatrix")
        self.encoding = {}
        m = re.search(rb"/Encoding\s+StandardEncoding\s+def", c)
        if m:
            self.encoding = dict(STANDARD)
        else:
            m = re.search(rb"/Encoding\s+256\s+array(.*?)\b(readonly\s+)?def\b", c, re.S)
            if not m:
                raise Error("no Encoding")
            text = re.sub(rb"%[^\r\n]*", b"", c[m.start():])
            for mm in re.finditer(rb"\bdup\s+(\d+)\s*/(\S+)\s+put\b|\b(?:readonly\s+)?def\b", text):
                if mm.group(1) is None:
                    break
                self.encoding[int(mm.group(1))] = mm.group(2).decode("latin-1")

    def parse(self, p):
        m = re.search(rb"/lenIV\s+(-?\d+)\s+def", p)
        self.lenIV = int(m.group(1)) if m else 4
        self.subrs = {}
        # the positions of the binary strings have to be skipped when searching
        pos = 0
        m = re.search(rb"/CharStrings\s+(\d+)\s+dict\s+dup\s+begin", p)
        if not m:
            raise Error("no CharStrings")
        self.size = int(m.group(1))
        pos = m.end()
        self.chars, self.order = {}, []
        entry = re.compile(rb"\s*/(\S+)\s+(\d+)\s+(RD|-\||\S+) ")
        while True:
            mm = re.compile(rb"\s*end\b").match(p, pos)
            if mm:
                break
            mm = entry.match(p, pos)
            if not mm:
                raise Error("CharStrings entry expected at %r" % p[pos:pos + 30])
            n = int(mm.group(2))
            s = p[mm.end():mm.end() + n]
            if len(s) < n:
                raise Error("charstring exceeds the font")
            name = mm.group(1).decode("latin-1")
            self.chars[name] = s
            self.order.append(name)
            pos = mm.end() + n
            mm = re.compile(rb"\s*(ND|\|-|noaccess\s+def|\S+)").match(p, pos)
            pos = mm.end()
        if len(self.chars) > self.size:
            raise Error("more charstrings than the dictionary holds")
        m = re.search(rb"/Subrs\s+(\d+)\s+array", p)
        if m:
            self.nsubrs = int(m.group(1))
            pos = m.end()
            entry = re.compile(rb"\s*dup\s+(\d+)\s+(\d+)\s+(RD|-\||\S+) ")
            while True:
                mm = entry.match(p, pos)
                if not mm:
                    break
                i, n = int(mm.group(1)), int(mm.group(2))
                if i >= self.nsubrs:
                    raise Error("Subrs index out of range")
                self.subrs[i] = p[mm.end():mm.end() + n]
                pos = mm.end() + n
                mm = re.compile(rb"\s*(NP|\||noaccess\s+put|\S+)").match(p, pos)
                pos = mm.end()
        else:
            self.nsubrs = 0
        self.cache = {}

    def glyph(self, name):
        "(contours, (wx, wy)) of a glyph in character space"
        if name not in self.cache:
            if name not in self.chars:
                raise Error("glyph %s missing" % name)
            it = Interp(self)
            it.run(self.code(self.chars[name]))
            if not it.done:
                raise Error("charstring of %s does not end" % name)
            self.cache[name] = (it.contours(), it.width)
        return self.cache[name]

    def code(self, s):
        return decrypt(s, 4330, self.lenIV) if self.lenIV >= 0 else s

    def apply(self, contours, matrix=None):
        return transform(contours, matrix or self.matrix)


class Interp:

    def __init__(self, font, flex=True):
        self.font = font
        self.stack, self.ps = [], []
        self.x = self.y = 0
        self.lsb = (0, 0)
        self.width = None
        self.out = []
        self.cur = None
        self.flexing = None
        self.done = False
        self.depth = 0

    def contours(self):
        return [c for c in self.out if len(c) > 1]

    def args(self, n):
        if len(self.stack) != n:
            raise Error("%d arguments for a command taking %d" % (len(self.stack), n))
        a, self.stack = self.stack, []
        return a

    def moveto(self, dx, dy):
        self.x += dx
        self.y += dy
        if self.flexing is not None:
            self.flexing.append((self.x, self.y))
        else:
            self.cur = [(self.x, self.y)]
            self.out.append(self.cur)

    def need(self):
        if self.cur is None:
            raise Error("drawing without current point")

    def line(self, dx, dy):
        self.need()
        self.x += dx
        self.y += dy
        self.cur.append((self.x, self.y))

    def curve(self, dx1, dy1, dx2, dy2, dx3, dy3):
        self.need()
        x1, y1 = self.x + dx1, self.y + dy1
        x2, y2 = x1 + dx2, y1 + dy2
        self.x, self.y = x2 + dx3, y2 + dy3
        self.cur.append((x1, y1, x2, y2, self.x, self.y))

    def run(self, code):
        self.depth += 1
        if self.depth > 11:
            raise Error("subroutine calls nested too deep")
        i = 0
        while i < len(code) and not self.done:
            v = code[i]
            i += 1
            if v >= 32:
                if v <= 246:
                    self.stack.append(v - 139)
                elif v <= 250:
                    self.stack.append((v - 247) * 256 + code[i] + 108)
                    i += 1
                elif v <= 254:
                    self.stack.append(-(v - 251) * 256 - code[i] - 108)
                    i += 1
                else:
                    self.stack.append(int.from_bytes(code[i:i + 4], "big", signed=True))
                    i += 4
                if len(self.stack) > 24:
                    raise Error("operand stack overflow")
                continue
            if v == 12:
                v = (12, code[i])
                i += 1
            if v == 11:
                break
            self.op(v)
        self.depth -= 1

    def op(self, v):
        a = self.args
        if v == 13:
            sbx, wx = a(2)
            self.lsb, self.width = (sbx, 0), (wx, 0)
            self.x, self.y = sbx, 0
        elif v == (12, 7):
            sbx, sby, wx, wy = a(4)
            self.lsb, self.width = (sbx, sby), (wx, wy)
            self.x, self.y = sbx, sby
        elif v == 14:
            self.done = True
        elif v == 9:
            a(0)
            self.need()
            self.cur = None
        elif v == 5:
            self.line(*a(2))
        elif v == 6:
            self.line(a(1)[0], 0)
        elif v == 7:
            self.line(0, a(1)[0])
        elif v == 21:
            self.moveto(*a(2))
        elif v == 22:
            self.moveto(a(1)[0], 0)
        elif v == 4:
            self.moveto(0, a(1)[0])
        elif v == 8:
            self.curve(*a(6))
        elif v == 30:
            dy1, dx2, dy2, dx3 = a(4)
            self.curve(0, dy1, dx2, dy2, dx3, 0)
        elif v == 31:
            dx1, dx2, dy2, dy3 = a(4)
            self.curve(dx1, 0, dx2, dy2, 0, dy3)
        elif v in (1, 3):
            a(2)
        elif v in ((12, 1), (12, 2)):
            a(6)
        elif v == (12, 0):
            a(0)
        elif v == (12, 12):
            b = self.stack.pop()
            self.stack[-1] = self.stack[-1] / b
        elif v == 10:
            n = self.stack.pop()
            if n not in self.font.subrs:
                raise Error("subroutine %s missing" % n)
            self.run(self.font.code(self.font.subrs[n]))
        elif v == (12, 16):
            which, n = self.stack.pop(), self.stack.pop()
            if n > len(self.stack):
                raise Error("callothersubr with too few arguments")
            arg = self.stack[len(self.stack) - n:]
            del self.stack[len(self.stack) - n:]
            if which == 1 and n == 0:
                self.flexing = []
                self.need()
            elif which == 2 and n == 0:
                if self.flexing is None:
                    raise Error("flex point outside a flex")
            elif which == 0 and n == 3:
                f = self.flexing
                if f is None or len(f) != 7:
                    raise Error("flex needs 7 points")
                self.flexing = None
                self.cur.append(f[1] + f[2] + f[3])
                self.cur.append(f[4] + f[5] + f[6])
                self.ps = [arg[2], arg[1]]          # pops give x, then y
            elif which == 3 and n == 1:
                self.ps = [arg[0]]                   # hint replacement: returns the subroutine number
            else:
                self.ps = arg[::-1]
        elif v == (12, 17):
            if not self.ps:
                raise Error("pop from an empty PostScript stack")
            self.stack.append(self.ps.pop())
        elif v == (12, 33):
            x, y = a(2)
            if abs(x - self.x) > 1e-6 or abs(y - self.y) > 1e-6:
                raise Error("setcurrentpoint moves the point")
        elif v == (12, 6):
            asb, adx, ady, b, c = a(5)
            for code, (dx, dy) in ((b, (0, 0)), (c, (self.lsb[0] + adx - asb, self.lsb[1] + ady))):
                sub = Interp(self.font)
                n = STANDARD.get(code)
                if n not in self.font.chars:
                    raise Error("seac component %s missing" % n)
                sub.run(self.font.code(self.font.chars[n]))
                self.out += transform(sub.contours(), (1, 0, 0, 1, dx, dy))
            self.done = True
        else:
            raise Error("unknown charstring command %s" % (v,))


def transform(contours, m):
    a, b, c, d, e, f = m
    def pts(p):
        r = []
        for i in range(0, len(p), 2):
            r += [a * p[i] + c * p[i + 1] + e, b * p[i] + d * p[i + 1] + f]
        return tuple(r)
    return [[pts(p) for p in k] for k in contours]


# ---------------------------------------------------------------- writing

def num(v):
    "encode an integer"
    if -107 <= v <= 107:
        return bytes([v + 139])
    if 108 <= v <= 1131:
        v -= 108
        return bytes([247 + v // 256, v % 256])
    if -1131 <= v <= -108:
        v = -v - 108
        return bytes([251 + v // 256, v % 256])
    return b"\xff" + v.to_bytes(4, "big", signed=True)


OPS = {"hsbw": b"\x0d", "sbw": b"\x0c\x07", "endchar": b"\x0e", "closepath": b"\x09", "rlineto": b"\x05", "hlineto": b"\x06", "vlineto": b"\x07", "rmoveto": b"\x15",
       "hmoveto": b"\x16", "vmoveto": b"\x04", "rrcurveto": b"\x08", "vhcurveto": b"\x1e", "hvcurveto": b"\x1f", "hstem": b"\x01", "vstem": b"\x03", "hstem3": b"\x0c\x02",
       "vstem3": b"\x0c\x01", "dotsection": b"\x0c\x00", "div": b"\x0c\x0c", "callsubr": b"\x0a", "callothersubr": b"\x0c\x10", "pop": b"\x0c\x11", "return": b"\x0b",
       "setcurrentpoint": b"\x0c\x21", "seac": b"\x0c\x06"}


def asm(tokens):
    return b"".join(num(t) if isinstance(t, int) else OPS[t] for t in tokens)


FLEXSUBRS = [[3, 0, "callothersubr", "pop", "pop", "setcurrentpoint", "return"], [0, 1, "callothersubr", "return"], [0, 2, "callothersubr", "return"], ["return"],
             [1, 3, "callothersubr", "pop", "callsubr", "return"]]


def program(name, glyphs, subrs, matrix=(0.001, 0, 0, 0.001, 0, 0), encoding=None, lenIV=None, rd="RD", nd="ND", np="NP", nl="\n", uniqueid=None, subrsfirst=True,
            bbox=(0, -200, 1000, 800), comment=False, known=False):
    """(clear text, private text, trailer) as bytes; glyphs: list of (name, token list), subrs: list of token lists or None,
    encoding: None for StandardEncoding or a dict code -> glyph name"""
    enc = lambda toks: encrypt(asm(toks), 4330, b"\x51\x52\x53\x54"[:4 if lenIV is None else lenIV])
    L = ["%%!PS-AdobeFont-1.0: %s 001.001" % name]
    if known:
        L += ["FontDirectory/%s known{/%s findfont dup/UniqueID known{dup" % (name, name), "/UniqueID get %d eq exch/FontType get 1 eq and}{pop false}ifelse" % (uniqueid or 4000001),
              "{save true}{false}ifelse}{false}ifelse"]
    L += ["12 dict begin", "/FontInfo 3 dict dup begin", "/version (1.0) readonly def", "/FullName (%s) readonly def" % name, "end readonly def",
          "/FontName /%s def" % name, "/PaintType 0 def", "/FontType 1 def", "/FontMatrix [%s] readonly def" % " ".join("%.10g" % v for v in matrix)]
    if encoding is None:
        L.append("/Encoding StandardEncoding def")
    else:
        L += ["/Encoding 256 array", "0 1 255 {1 index exch /.notdef put} for"] + ["dup %d /%s put" % (c, n) for c, n in sorted(encoding.items())] + ["readonly def"]
    L.append("/FontBBox {%s} readonly def" % " ".join("%g" % v for v in bbox))
    if uniqueid:
        L.append("%s/UniqueID %d def" % ("%" if comment else "", uniqueid))
    L += ["currentdict end", "currentfile eexec", ""]
    clear = nl.join(L).encode()
    RD = {"RD": "/RD {string currentfile exch readstring pop} executeonly def", "-|": "/-| {string currentfile exch readstring pop} executeonly def"}[rd]
    P = ["dup /Private 12 dict dup begin", RD]
    P.append("/%s {noaccess def} executeonly def" % ("ND" if rd == "RD" else "|-"))
    P.append("/%s {noaccess put} executeonly def" % ("NP" if rd == "RD" else "|"))
    P += ["/BlueValues [-10 0 700 710] def", "/MinFeature {16 16} def", "/password 5839 def"]
    if lenIV is not None:
        P.append("/lenIV %d def" % lenIV)
    if uniqueid:
        P.append("%s/UniqueID %d def" % ("%" if comment else "", uniqueid))
    if comment:
        P.append("% a comment in the private part")
    n = nl.encode()
    pv = n.join(x.encode() for x in P) + n
    sub = b""
    if subrs is not None:
        sub = b"/Subrs %d array" % len(subrs) + n
        for i, s in enumerate(subrs):
            e = enc(s)
            sub += b"dup %d %d %s " % (i, len(e), rd.encode()) + e + b" " + np.encode() + n
        sub += nd.encode() + n if nd != "noaccess def" else b"noaccess def" + n
    ch = b"2 index /CharStrings %d dict dup begin" % len(glyphs) + n
    for g, s in glyphs:
        e = enc(s)
        ch += b"/%s %d %s " % (g.encode(), len(e), rd.encode()) + e + b" " + nd.encode() + n
    ch += b"end" + n
    if subrsfirst or subrs is None:
        pv += sub + ch
    else:
        # CharStrings written first: the font dictionary is still below Private on the stack
        pv += ch + sub
    pv += n.join([b"end", b"readonly put", b"noaccess put", b"dup /FontName get exch definefont pop", b"mark currentfile closefile", b""])
    trailer = (nl.join(["0" * 64] * 8 + ["cleartomark"] + (["{restore}if"] if known else []) + [""])).encode()
    return clear, pv, trailer


def pfb(clear, private, trailer, chunk=None):
    e = encrypt(private, 55665, b"\xf9\x83\xef\x00")
    seg = lambda k, d: b"\x80" + bytes([k]) + len(d).to_bytes(4, "little") + d
    parts = [e] if not chunk else [e[i:i + chunk] for i in range(0, len(e), chunk)]
    return seg(1, clear) + b"".join(seg(2, p) for p in parts) + seg(1, trailer) + b"\x80\x03"


def pfa(clear, private, trailer, width=64, upper=False, nl="\n"):
    h = encrypt(private, 55665, b"\xf9\x83\xef\x00").hex()
    if upper:
        h = h.upper()
    return clear + "".join(h[i:i + width] + nl for i in range(0, len(h), width)).encode() + trailer
