"""Independent BIFF 2..8 writer (from the published record layouts, not from xlrd's code)."""
from struct import pack

VERSIONS = (21, 30, 40, 45, 50, 70, 80)


def rec(code, data=b""):
    assert len(data) <= 0xFFFF, len(data)
    return pack("<HH", code, len(data)) + data


EOF = rec(0x000A)
CONTINUE = 0x003C

SHEET, CHART, MACRO, VB, GLOBALS, GLOBALS4W, WORKSPACE = 0x10, 0x20, 0x40, 0x06, 0x05, 0x100, 0x100


def bof(ver, typ=SHEET):
    if ver in (20, 21):
        return rec(0x0009, pack("<HH", 0x0002, typ))
    if ver == 30:
        return rec(0x0209, pack("<HHH", 0x0300, typ, 0))
    if ver in (40, 45):
        return rec(0x0409, pack("<HHH", 0x0400, typ, 0))
    if ver == 50:
        return rec(0x0809, pack("<HHHH", 0x0500, typ, 0x096C, 1993))
    if ver == 70:
        return rec(0x0809, pack("<HHHH", 0x0500, typ, 0x1234, 1996))
    if ver == 80:
        return rec(0x0809, pack("<HHHHII", 0x0600, typ, 0x0DBB, 1996, 0x41, 6))
    raise ValueError(ver)


# --- strings ---------------------------------------------------------------

def units(s):
    """UTF-16 code units of a str (lone surrogates allowed)."""
    b = s.encode("utf_16_le", "surrogatepass")
    return [b[i:i + 2] for i in range(0, len(b), 2)]


def can_narrow(s):
    return all(ord(ch) < 256 for ch in s)


def ustr(s, lenlen=2, wide=None, runs=None, phonetic=None, with_len=True):
    """BIFF8 unicode string: count, options, [rich count], [phonetic size], characters, [runs], [phonetic]."""
    if wide is None:
        wide = not can_narrow(s)
    n = len(units(s))
    opts = (1 if wide else 0) | (8 if runs is not None else 0) | (4 if phonetic is not None else 0)
    out = (pack("<B" if lenlen == 1 else "<H", n) if with_len else b"") + bytes([opts])
    if runs is not None:
        out += pack("<H", len(runs))
    if phonetic is not None:
        out += pack("<i", len(phonetic))
    out += b"".join(units(s)) if wide else s.encode("latin_1")
    if runs is not None:
        out += b"".join(pack("<HH", *r) for r in runs)
    if phonetic is not None:
        out += phonetic
    return out


def bstr(b, lenlen=1):
    """pre-BIFF8 byte string."""
    if isinstance(b, str):
        b = b.encode("latin_1")
    return pack("<B" if lenlen == 1 else "<H", len(b)) + b


def vstr(ver, s, lenlen=1, enc="latin_1"):
    return ustr(s, lenlen) if ver >= 80 else bstr(s.encode(enc), lenlen)


# --- cells -----------------------------------------------------------------

def attr2(xf=0, fmt=0, font=0, style=0, prot=0):
    """BIFF2 3-byte cell attributes."""
    return bytes([(xf & 0x3F) | prot, (fmt & 0x3F) | (font << 6), style])


def _hdr(ver, r, c, xf):
    if ver < 30:
        return pack("<HH", r, c) + (xf if isinstance(xf, bytes) else attr2(xf))
    return pack("<HHH", r, c, xf)


def number(ver, r, c, v, xf=0):
    return rec(0x0003 if ver < 30 else 0x0203, _hdr(ver, r, c, xf) + (v if isinstance(v, bytes) else pack("<d", v)))


def integer2(r, c, v, xf=0):
    return rec(0x0002, _hdr(21, r, c, xf) + pack("<H", v))


def label(ver, r, c, s, xf=0, enc="latin_1", wide=None):
    if ver < 30:
        return rec(0x0004, _hdr(ver, r, c, xf) + bstr(s.encode(enc), 1))
    if ver < 80:
        return rec(0x0204, _hdr(ver, r, c, xf) + bstr(s.encode(enc), 2))
    return rec(0x0204, _hdr(ver, r, c, xf) + ustr(s, 2, wide))


def rstring(ver, r, c, s, runs, xf=0, enc="latin_1"):
    if ver < 80:
        return rec(0x00D6, _hdr(ver, r, c, xf) + bstr(s.encode(enc), 2) + bytes([len(runs)]) +
                   b"".join(bytes(x) for x in runs))
    return rec(0x00D6, _hdr(ver, r, c, xf) + ustr(s, 2) + pack("<H", len(runs)) +
               b"".join(pack("<HH", *x) for x in runs))


def labelsst(r, c, idx, xf=0):
    return rec(0x00FD, pack("<HHHI", r, c, xf, idx))


def boolerr(ver, r, c, v, is_err, xf=0):
    return rec(0x0005 if ver < 30 else 0x0205, _hdr(ver, r, c, xf) + bytes([v, is_err]))


def blank(ver, r, c, xf=0):
    return rec(0x0001 if ver < 30 else 0x0201, _hdr(ver, r, c, xf))


def mulblank(r, c, xfs):
    return rec(0x00BE, pack("<HH", r, c) + b"".join(pack("<H", x) for x in xfs) + pack("<H", c + len(xfs) - 1))


def rk(r, c, rkbits, xf=0):
    return rec(0x027E, pack("<HHHI", r, c, xf, rkbits))


def mulrk(r, c, items):
    return rec(0x00BD, pack("<HH", r, c) + b"".join(pack("<HI", x, v) for x, v in items) + pack("<H", c + len(items) - 1))


def formula(ver, r, c, result, xf=0, flags=0, rpn=b""):
    """result: 8 bytes or float."""
    if not isinstance(result, bytes):
        result = pack("<d", result)
    assert len(result) == 8
    if ver < 30:
        return rec(0x0006, _hdr(ver, r, c, xf) + result + bytes([flags, len(rpn)]) + rpn)
    if ver < 50:
        return rec(0x0206 if ver == 30 else 0x0406, _hdr(ver, r, c, xf) + result + pack("<HH", flags, len(rpn)) + rpn)
    return rec(0x0006, _hdr(ver, r, c, xf) + result + pack("<HIH", flags, 0, len(rpn)) + rpn)


RES_STRING = b"\x00\0\0\0\0\0\xff\xff"
RES_EMPTY = b"\x03\0\0\0\0\0\xff\xff"


def res_bool(v):
    return bytes([1, 0, v, 0, 0, 0, 0xFF, 0xFF])


def res_err(v):
    return bytes([2, 0, v, 0, 0, 0, 0xFF, 0xFF])


def string_rec(ver, s, wide=None, enc="latin_1"):
    if ver < 30:
        return rec(0x0007, bstr(s.encode(enc), 1))
    if ver < 80:
        return rec(0x0207, bstr(s.encode(enc), 2))
    return rec(0x0207, ustr(s, 2, wide))


def dimensions(ver, r0, r1, c0, c1):
    if ver < 30:
        return rec(0x0000, pack("<HHHH", r0, r1, c0, c1))
    if ver < 80:
        return rec(0x0200, pack("<HHHHH", r0, r1, c0, c1, 0))
    return rec(0x0200, pack("<IIHHH", r0, r1, c0, c1, 0))


def merged(ranges):
    """ranges: inclusive (r1, r2, c1, c2)."""
    return rec(0x00E5, pack("<H", len(ranges)) + b"".join(pack("<HHHH", *x) for x in ranges))


def codepage(n):
    return rec(0x0042, pack("<H", n))


def datemode(n):
    return rec(0x0022, pack("<H", n))


# --- globals ---------------------------------------------------------------

def font(ver, name="Arial", height=200, flags=0, weight=400, colour=0x7FFF, enc="latin_1"):
    if ver < 30:
        return rec(0x0031, pack("<HH", height, flags) + bstr(name.encode(enc), 1))
    if ver < 50:
        return rec(0x0231, pack("<HHH", height, flags, colour) + bstr(name.encode(enc), 1))
    body = pack("<HHHHHBBBB", height, flags, colour, weight, 0, 0, 0, 0, 0)
    return rec(0x0031, body + vstr(ver, name, 1, enc))


def fmt(ver, key, s, enc="latin_1"):
    if ver < 40:
        return rec(0x001E, bstr(s.encode(enc), 1))
    if ver < 50:
        return rec(0x041E, pack("<H", key) + bstr(s.encode(enc), 1))
    if ver < 80:
        return rec(0x041E, pack("<H", key) + bstr(s.encode(enc), 1))
    return rec(0x041E, pack("<H", key) + ustr(s, 2))


def xf(ver, fmt_key=0, font_index=0, style=0, parent=0, used=0x3F):
    """Plain XF record: all other fields zero; `used` = the six attribute-usage flags (valid flags)."""
    if ver < 30:
        return rec(0x0043, bytes([font_index, 0, fmt_key & 0x3F, 0]))
    if ver == 30:
        return _xf3(fmt_key, font_index, style, parent, used)
    if ver in (40, 45):
        return _xf4(fmt_key, font_index, style, parent, used)
    if ver < 80:
        return rec(0x00E0, pack("<HHHBBHHHH", font_index, fmt_key, (style << 2) | (parent << 4), 0x20, (used << 2), 0, 0, 0, 0))
    return rec(0x00E0, pack("<HHHBBBBIIH", font_index, fmt_key, (style << 2) | (parent << 4), 0x20, 0, 0, (used << 2), 0, 0, 0))


def _xf3(fmt_key, font_index, style, parent, used):
    # font u8, format u8, type/protection u8 (b2 = style), attributes-used u8 (b7-2),
    # align/wrap/parent u16 (b15-4 parent), background u16, border u32
    return rec(0x0243, bytes([font_index, fmt_key, style << 2, used << 2]) + pack("<HHI", parent << 4, 0, 0))


def _xf4(fmt_key, font_index, style, parent, used):
    # font u8, format u8, type/prot/parent u16, align u8, used u8, background u16, border u32
    return rec(0x0443, bytes([font_index, fmt_key]) + pack("<H", (style << 2) | (parent << 4)) +
               bytes([0x20, used << 2]) + pack("<HI", 0, 0))


def boundsheet(ver, offset, name, typ=0, vis=0, enc="latin_1"):
    return rec(0x0085, pack("<IBB", offset, vis, typ) + vstr(ver, name, 1, enc))


def sst(strings, total=None):
    """One SST record without splits; strings: bytes already in ustr(lenlen=2) form or str."""
    body = b"".join(x if isinstance(x, bytes) else ustr(x, 2) for x in strings)
    return rec(0x00FC, pack("<II", total if total is not None else len(strings), len(strings)) + body)


class Sh(object):
    """One sheet substream: name, body (records between BOF and EOF), BOUNDSHEET type, visibility."""

    def __init__(self, name, body=b"", typ=0, vis=0, boftype=None, bofrec=None, tail=EOF):
        self.name, self.body, self.typ, self.vis, self.bofrec, self.tail = name, body, typ, vis, bofrec, tail
        self.boftype = boftype if boftype is not None else {0: SHEET, 1: MACRO, 2: CHART, 6: VB}.get(typ, SHEET)

    def stream(self, ver):
        return (self.bofrec or bof(ver, self.boftype)) + self.body + self.tail


def workbook(ver, sheets, pre=b"", post=b"", order=None, gap=b"", enc="latin_1", base=0):
    """Workbook stream for BIFF5/7/8: globals (pre, BOUNDSHEETs, post) then the sheets in physical `order`."""
    assert ver >= 50
    order = list(order) if order is not None else list(range(len(sheets)))

    def glob(offs):
        return (bof(ver, GLOBALS) + pre + b"".join(boundsheet(ver, o, s.name, s.typ, s.vis, enc)
                for o, s in zip(offs, sheets)) + post + EOF)
    size = len(glob([0] * len(sheets)))
    offs = [0] * len(sheets)
    body = b""
    for i in order:
        body += gap
        offs[i] = size + len(body)
        body += sheets[i].stream(ver)
    return glob(offs) + body


def single(ver, body, pre=b"", name="Sheet1"):
    """A one-sheet file of any version: `pre` = formatting/global records, `body` = cell records."""
    if ver <= 40:
        return bof(ver, SHEET) + pre + body + EOF
    if ver == 45:
        return workbook4w([(name, pre + body)])
    return workbook(ver, [Sh(name, body)], pre=pre)


def workbook4w(sheets, pre=b"", enc="latin_1"):
    """BIFF4W: globals with SHEETHDR-introduced embedded worksheet substreams."""
    head = bof(45, GLOBALS4W) + pre
    sheets = [(x + (SHEET, b"", b""))[:5] if len(x) == 2 else (tuple(x) + (b"", b""))[:5] for x in sheets]   # name, body, BOF type, padding, records before
    bsize = len(head) + sum(len(rec(0x0085, bstr(x[0].encode(enc), 1))) for x in sheets) + len(rec(0x008E, b"\0\0\0\0"))
    out = head + rec(0x008E, pack("<i", bsize)) + b"".join(rec(0x0085, bstr(x[0].encode(enc), 1)) for x in sheets)
    for n, b, typ, pad, before in sheets:
        sub = bof(40, typ) + b + EOF + pad
        out += before + rec(0x008F, pack("<i", len(sub)) + bstr(n.encode(enc), 1)) + sub
    return out + EOF


# --- sheet metadata --------------------------------------------------------

def row_rec(ver, r, height=255, def_height=0, xf=None, level=0, collapsed=0, hidden=0, mismatch=0, above=0, below=0, c0=0, c1=256):
    """ROW for BIFF3+; xf = default XF index of the row or None."""
    bits1 = (height & 0x7FFF) | (def_height << 15)
    bits2 = (level | collapsed << 4 | hidden << 5 | mismatch << 6 | (xf is not None) << 7 | 1 << 8 |
             ((xf or 0) & 0xFFF) << 16 | above << 28 | below << 29)
    return rec(0x0208, pack("<HHHHHHI", r, c0, c1, bits1, 0, 0, bits2))


def row_b2(r, height=255, def_height=0, attr=None, xfx=None, c0=0, c1=256):
    """BIFF2 ROW; attr = 3 byte default cell attributes; xfx = trailing true XF index."""
    d = pack("<HHHHHB", r, c0, c1, (height & 0x7FFF) | (def_height << 15), 0, attr is not None)
    d += pack("<H", 0)                      # offset
    if attr is not None:
        d += attr
        if xfx is not None:
            d += pack("<H", xfx)
    return rec(0x0008, d)


def colinfo(c0, c1, width=2048, xf=15, hidden=0, bit1=0, level=0, collapsed=0):
    return rec(0x007D, pack("<HHHHHH", c0, c1, width, xf, hidden | bit1 << 1 | level << 8 | collapsed << 12, 0))


def colwidth_b2(c0, c1, width):
    return rec(0x0024, pack("<BBH", c0, c1, width))


def columndefault_b2(c0, attrs):
    return rec(0x0020, pack("<HH", c0, c0 + len(attrs)) + b"".join(attrs) + b"\0\0")


def defcolwidth(n):
    return rec(0x0055, pack("<H", n))


def standardwidth(n):
    return rec(0x0099, pack("<H", n))


def gcw(cols):
    bits = 0
    for c in cols:
        bits |= 1 << c
    return rec(0x00AB, pack("<H", 32) + bits.to_bytes(32, "little"))


def window2(ver, opts, row=0, col=0, colour=0x40, rgb=(0, 0, 0), pbmag=0, nmag=0, short=False):
    if ver >= 80 and not short:
        return rec(0x023E, pack("<HHHHHHHI", opts, row, col, colour, 0, pbmag, nmag, 0))
    if ver >= 30:
        return rec(0x023E, pack("<HHH", opts, row, col) + (bytes(rgb) + b"\0"))
    return rec(0x003E, bytes((opts >> i) & 1 for i in range(5)) + pack("<HHB", row, col, (opts >> 5) & 1) + bytes(rgb) + b"\0")


def scl(num, den):
    return rec(0x00A0, pack("<HH", num, den))


def pane(ver, vpos, hpos, hfirst, vfirst, active):
    return rec(0x0041, pack("<HHHHB", vpos, hpos, hfirst, vfirst, active) + (b"\0" if ver >= 50 else b""))


def pagebreaks(ver, horz, items):
    """items: (index, lo, hi)."""
    code = 0x001B if horz else 0x001A
    if ver >= 80:
        return rec(code, pack("<H", len(items)) + b"".join(pack("<HHH", *x) for x in items))
    return rec(code, pack("<H", len(items)) + b"".join(pack("<H", x[0]) for x in items))


def labelranges(rows, cols):
    f = lambda rs: pack("<H", len(rs)) + b"".join(pack("<HHHH", *x) for x in rs)
    return rec(0x015F, f(rows) + f(cols))


def defaultrowheight(ver, height, flags=0):
    if ver < 30:
        return rec(0x0025, pack("<H", height))
    return rec(0x0225, pack("<HH", flags, height))


# --- hyperlinks ------------------------------------------------------------

GUID_STD = bytes.fromhex("D0C9EA79F9BACE118C8200AA004BA90B")
GUID_URL = bytes.fromhex("E0C9EA79F9BACE118C8200AA004BA90B")
GUID_FILE = bytes.fromhex("0303000000000000C000000000000046")


def zstr(s):
    b = (s + "\0").encode("utf_16_le")
    return pack("<I", len(b) // 2) + b


def url_moniker(url, extra=b""):
    b = (url + "\0").encode("utf_16_le") + extra
    return GUID_URL + pack("<I", len(b)) + b


def file_moniker(short, ext=None, up=0):
    out = GUID_FILE + pack("<Hi", up, len(short) + 1) + short + b"\0" + pack("<HH", 0xFFFF, 0xDEAD) + b"\0" * 20
    if ext is None:
        return out + pack("<i", 0)
    b = ext.encode("utf_16_le")
    return out + pack("<iiH", len(b) + 6, len(b), 3) + b


def hlink(r0, r1, c0, c1, opts, parts):
    return rec(0x01B8, pack("<HHHH", r0, r1, c0, c1) + GUID_STD + pack("<II", 2, opts) + parts)


def quicktip(r0, r1, c0, c1, s):
    return rec(0x0800, pack("<HHHHH", 0x0800, r0, r1, c0, c1) + (s + "\0").encode("utf_16_le"))


# --- notes -----------------------------------------------------------------

def obj(oid, typ=0x19, opts=0x4011, extra=None):
    """BIFF8 OBJ: ftCmo, optional other sub-records, end."""
    if extra is None:
        extra = rec(0x000D, b"\0" * 22) if typ == 0x19 else b""
    return rec(0x005D, rec(0x0015, pack("<HHH", typ, oid, opts) + b"\0" * 12) + extra + rec(0, b""))


def txo(text_parts, runs, nchars=None, opts=0x0212, run_parts=None):
    """text_parts: list of (text, wide); runs: list of (pos, font) without the end run (added here)."""
    if nchars is None:
        nchars = sum(len(units(t)) for t, w in text_parts)
    allruns = list(runs) + [(nchars, 0)] if nchars else []
    out = rec(0x01B6, pack("<HH6sHHH", opts, 0, b"\0" * 6, nchars, 8 * len(allruns), 0) + b"\0\0")
    for t, w in text_parts:
        out += rec(CONTINUE, bytes([w]) + (b"".join(units(t)) if w else t.encode("latin_1")))
    parts = run_parts or ([len(allruns)] if allruns else [])
    i = 0
    for n in parts:
        out += rec(CONTINUE, b"".join(pack("<HHI", p, f, 0) for p, f in allruns[i:i + n]))
        i += n
    assert i == len(allruns)
    return out


def note8(r, c, oid, author="", flags=0, wide=None, pad=b"\0"):
    return rec(0x001C, pack("<HHHH", r, c, flags, oid) + ustr(author, 2, wide) + pad)


def note_old(r, c, text, cuts=(), enc="latin_1"):
    """BIFF<8 NOTE chain."""
    b = text.encode(enc) if isinstance(text, str) else text
    pts = [0] + list(cuts) + [len(b)]
    out = b""
    for i, (a, z) in enumerate(zip(pts, pts[1:])):
        if i == 0:
            out += rec(0x001C, pack("<HHH", r, c, len(b)) + b[a:z])
        else:
            out += rec(0x001C, pack("<HHH", 0xFFFF, 0, z - a) + b[a:z])
    return out


# --- names, links, styles --------------------------------------------------

def name_rec(ver, name, rpn=b"", flags=0, sheet=0, extsheet=0, enc="latin_1", tail=b"", wide=None, cce=None):
    n = len(units(name)) if ver >= 80 else len(name.encode(enc))
    head = pack("<HBBHHHBBBB", flags, 0, n, len(rpn) if cce is None else cce, extsheet, sheet, 0, 0, 0, 0)
    if ver >= 80:
        body = ustr(name, 1, wide, with_len=False)
    else:
        body = name.encode(enc)
    return rec(0x0018, head + body + rpn + tail)


def supbook_internal(n):
    return rec(0x01AE, pack("<HH", n, 0x0401))


def supbook_addin():
    return rec(0x01AE, pack("<HH", 1, 0x3A01))


def supbook_external(url, sheets):
    return rec(0x01AE, pack("<H", len(sheets)) + ustr(url, 2) + b"".join(ustr(s, 2) for s in sheets))


def externsheet8(refs):
    return rec(0x0017, pack("<H", len(refs)) + b"".join(pack("<HHH", *r) for r in refs))


def externcount(n):
    return rec(0x0016, pack("<H", n))


def externsheet5(typ, name="", enc="latin_1"):
    b = name.encode(enc)
    if typ == 3:
        return rec(0x0017, pack("<BB", len(b), 3) + b)
    return rec(0x0017, pack("<BB", 1, typ) + b)


def externname8(name, flags=0):
    return rec(0x0023, pack("<HI", flags, 0) + ustr(name, 1) + b"\x02\0\x1c\x17")


def style_builtin(xf, bid, level=0xFF):
    return rec(0x0293, pack("<HBB", xf | 0x8000, bid, level))


def style_user(ver, xf, name, enc="latin_1"):
    return rec(0x0293, pack("<H", xf) + (ustr(name, 2) if ver >= 80 else bstr(name.encode(enc), 1)))


def palette(colours):
    return rec(0x0092, pack("<H", len(colours)) + b"".join(pack("<BBBB", r, g, b, 0) for r, g, b in colours))


def writeaccess(ver, s, enc="latin_1", pad=112):
    b = ustr(s, 2) if ver >= 80 else bstr(s.encode(enc), 1)
    return rec(0x005C, b + b" " * max(0, pad - len(b)))


def country(a, b):
    return rec(0x008C, pack("<HH", a, b))
