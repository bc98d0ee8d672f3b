"""Synthetic workbooks covering every record kind xlrd reads, in every version, for the cross-cutting checks."""
from struct import pack
import biff as B


def _pre(ver, fonts=6):
    out = b"".join(B.font(ver, "F%d" % i, 200 + i, i & 15, 400 if i & 1 else 700) for i in range(fonts))
    if ver >= 50:
        out += B.fmt(ver, 164, '"d" 0.0') + B.fmt(ver, 165, "yyyy-mm-dd")
        keys = [0] * 15 + [0, 14, 164, 165, 2]
    else:
        for i, s in enumerate(("General", "0.00", "d/m/yy", '"d"0')):
            out += B.fmt(ver, i, s)
        keys = [0] * 15 + [0, 2, 3, 2, 1] if ver >= 30 else [0, 1, 2, 3]
    n = len(keys)
    for i, k in enumerate(keys):
        style = 1 if (ver >= 30 and i < 15) else 0
        out += B.xf(ver, k, i % 4, style, 0xFFF if style else 0)
    return out, n


def cellblock(ver, r0=0, xf=15, date=16, sst=True):
    """One of every cell kind the version has."""
    a = lambda k: B.attr2(k) if ver < 30 else k
    xf, date = (a(0), a(2)) if ver < 30 else (xf, date)
    o = B.number(ver, r0, 0, 1.5, xf) + B.number(ver, r0, 1, 40000.25, date)
    o += B.label(ver, r0, 2, "t\xe9xt %d" % r0, xf) + B.boolerr(ver, r0, 3, 1, 0, xf) + B.boolerr(ver, r0, 4, 7, 1, xf)
    o += B.blank(ver, r0, 5, xf)
    o += B.formula(ver, r0 + 1, 0, 2.5, xf) + B.formula(ver, r0 + 1, 1, B.RES_STRING, xf) + B.string_rec(ver, "f\xe9" * 3)
    o += B.formula(ver, r0 + 1, 2, B.res_bool(1), xf) + B.formula(ver, r0 + 1, 3, B.res_err(42), xf)
    if ver >= 50:
        o += B.formula(ver, r0 + 1, 4, B.RES_EMPTY, xf)
        o += B.rk(r0 + 2, 0, (100 << 2) | 2, xf) + B.mulrk(r0 + 2, 1, [(xf, (7 << 2) | 3), (date, (9 << 2) | 2)])
        o += B.mulblank(r0 + 2, 4, [xf, date])
        o += B.rstring(ver, r0 + 3, 0, "rich %d" % r0, [(0, 1), (2, 3)], xf)
    if ver < 30:
        o += B.integer2(r0 + 2, 0, 77, xf)
    if ver >= 80 and sst:
        o += B.labelsst(r0 + 3, 1, 0, xf) + B.labelsst(r0 + 3, 2, 1, xf) + B.labelsst(r0 + 3, 3, 2, xf)
    return o


def meta(ver, n=0):
    """Sheet level records."""
    o = B.defaultrowheight(ver, 255 + n, 1) if ver >= 30 else b""
    if ver >= 50:
        o += B.pagebreaks(ver, True, [(3 + n, 0, 255), (9, 0, 3)]) + B.pagebreaks(ver, False, [(2, 0, 65535 if ver < 80 else 7)])
    o += B.defcolwidth(9 + n)
    if ver >= 30:
        o += B.colinfo(0, 1, 3000 + n, 16, 1, 1, 2, 1) + B.colinfo(3, 256, 1234)
    else:
        o += B.colwidth_b2(1, 3, 999) + B.columndefault_b2(2, [B.attr2(1), B.attr2(2)])
    if ver >= 40:
        o += B.standardwidth(2222)
    if ver in (40, 45, 50, 70):
        o += B.gcw([1, 7])
    o += B.dimensions(ver, 0, 4, 0, 6)
    if ver >= 30:
        o += B.row_rec(ver, 0, 300, 0, 17) + B.row_rec(ver, 1, 255, 1, None, 1, 0, 1)
    else:
        o += B.row_b2(0, 300, 0, B.attr2(1)) + B.row_b2(1, 255, 1)
    return o


def meta_tail(ver, n=0):
    o = B.window2(ver, 0x6BE if n == 0 else 0x03E, 1 + n, 2, 0x40, (255, 0, 0), 60, 90)
    if ver >= 40:
        o += B.scl(3, 4)
    o += B.pane(ver, 1, 2, 3, 1, 3)
    if ver >= 80:
        o += B.merged([(0, 1, 7, 8)]) + B.merged([(3, 5, 0, 0)])
        o += B.labelranges([(0, 1, 0, 2)], [(2, 2, 3, 4)])
        o += B.hlink(0, 1, 0, 1, 0x17, B.zstr("desc") + B.url_moniker("http://x/%d" % n)) + B.quicktip(0, 1, 0, 1, "tip")
        o += B.hlink(1, 2, 1, 1, 0x1C, B.zstr("here") + B.zstr("S2!A1"))
    return o


def notes(ver, n=0):
    if ver >= 80:
        return (B.obj(1) + B.txo([("note text", 0)], [(0, 1), (4, 2)]) + B.obj(2) + B.txo([("no\u0416e", 1), ("tail", 0)], [(0, 0)]) +
                B.note8(0, 0, 1, "me", 2) + B.note8(2, 3, 2, "\u0416", 0))
    return B.note_old(0, 0, "old note %d" % n) + B.note_old(1, 1, "chained note", [4, 8])


def chart(ver):
    """An embedded chart substream."""
    return B.bof(ver, B.CHART) + B.rec(0x1002, b"\0" * 16) + B.number(ver, 30, 30, 9.0) + B.EOF


SST = ["sst zero", "\u0416\u0434\u20ac", B.ustr("rich sst", 2, runs=[(0, 2), (5, 3)])]


def globals_pre(ver, nsheets):
    pre, nxf = _pre(ver)
    o = B.writeaccess(ver, "the user")
    if ver < 80:
        o += B.codepage(1252)
    else:
        o += B.codepage(1200)
    o += B.datemode(0) + pre
    if ver >= 30:
        o += B.style_builtin(0, 0) + B.style_builtin(1, 1, 2) + B.style_user(ver, 3, "mine")
    o += B.palette([(i, 255 - i, i * 3 & 255) for i in range(56 if ver >= 50 else 16)])
    return o


def names(ver, nsheets):
    if ver >= 80:
        o = B.supbook_internal(nsheets) + B.externsheet8([(0, 0, 0), (0, 0, 1)])
        o += B.name_rec(ver, "one", b"\x3a" + pack("<HHH", 0, 0, 0))
        o += B.name_rec(ver, "Area", b"\x3b" + pack("<HHHHH", 0, 0, 2, 0, 1))
        o += B.name_rec(ver, "Area", b"\x3b" + pack("<HHHHH", 1, 1, 2, 0, 1), sheet=1)
        o += B.name_rec(ver, "\x06", b"\x3b" + pack("<HHHHH", 0, 0, 9, 0, 1), flags=0x20, sheet=1)
        o += B.name_rec(ver, "konst", b"\x1e\x05\0\x1e\x07\0\x03")
        return o
    o = B.externcount(2) + B.externsheet5(3, "S0") + B.externsheet5(3, "S1")
    r = lambda sheet, row, col: b"\x3a" + pack("<h8xHHHB", -(sheet + 1), sheet, sheet, row, col)
    o += B.name_rec(ver, "one", r(0, 0, 0)) + B.name_rec(ver, "loc", r(1, 1, 1), extsheet=2, sheet=2)
    o += B.name_rec(ver, "konst", b"\x1e\x05\0\x1e\x07\0\x03")
    return o


def rich(ver, nsheets=3, extra_types=True, order=None, base_names=True):
    """A workbook exercising everything the version has. Returns bytes."""
    if ver < 50:
        pre = globals_pre(ver, 1)
        body = meta(ver) + cellblock(ver) + notes(ver) + meta_tail(ver)
        if ver == 45:
            return B.workbook4w([("S%d" % i, globals_pre(ver, 1) + meta(ver, i) + cellblock(ver, i) + meta_tail(ver, i))
                                 for i in range(nsheets)])
        return B.single(ver, body, pre)
    sheets = []
    for i in range(nsheets):
        body = meta(ver, i) + cellblock(ver, i) + notes(ver, i) + chart(ver) + meta_tail(ver, i)
        sheets.append(B.Sh("S%d" % i, body, vis=i % 3))
    if extra_types:
        sheets.insert(1, B.Sh("Chart1", B.rec(0x1002, b"\0" * 16), typ=2))
        sheets.append(B.Sh("Module1", b"", typ=6))
    post = (b"" if not base_names else names(ver, len(sheets))) + B.country(1, 61)
    if ver >= 80:
        post += B.sst(SST, 9)
    return B.workbook(ver, sheets, pre=globals_pre(ver, nsheets), post=post, order=order)


def small(ver, nsheets=1):
    """A minimal but complete workbook (for byte-by-byte damage)."""
    pre = B.font(ver) + (B.fmt(ver, 0, "General") if ver < 50 else b"") + B.xf(ver, 0)
    body = B.dimensions(ver, 0, 2, 0, 2) + B.number(ver, 0, 0, 1.5, 0 if ver >= 30 else B.attr2(0)) + \
        B.label(ver, 1, 1, "abc", 0 if ver >= 30 else B.attr2(0))
    if ver < 50:
        return B.workbook4w([("S%d" % i, pre + body) for i in range(nsheets)]) if ver == 45 else B.single(ver, body, pre)
    post = B.sst(["one", "tw\u0416"]) if ver >= 80 else b""
    if ver >= 80:
        body += B.labelsst(0, 1, 1)
    return B.workbook(ver, [B.Sh("S%d" % i, body) for i in range(nsheets)], pre=pre, post=post)


# --- workbooks that differ from a common base in one thing each -------------

TWINS = ("num rk mulrk text longtext sst sst2 sstrun fstr bool err fnum fmt fmt2 fmtkey fmttext xffmt xffont xfbits font font2 palette style sheetname order vis names namearea scope nflags nname "
         "nkonst extern supbook codepage datemode user country colinfo colxf rowh rowxf defcol stdcol merged ranges link tip note author panes window zoom breaks drh date noxf override blankxf rich place").split()


def twin(ver, on=(), same=False):
    """A small workbook of everything; each feature in `on` is written in its other form, of the same size.
    same: the two sheets are alike."""
    on = set(on)
    w = lambda name, a, b: b if name in on else a
    F = w("fmt", "0.00", "yyyy")            # same length, a date
    F2 = w("fmt2", "d/m", "#,0")
    if ver == 20:       # no XF records: the cells carry format and font
        a = lambda k: B.attr2(0, keys[k], w("xffont", k & 1, 1 - (k & 1)), w("xfbits", 0, 8))
    else:
        a = (lambda k: B.attr2(k)) if ver < 30 else (lambda k: k)
    pre = B.writeaccess(ver, w("user", "Somebody", "Sombody2"))
    pre += B.codepage(w("codepage", 1252, 1251) if ver < 80 else 1200) + B.datemode(w("datemode", 0, 1))
    pre += B.font(ver, w("font", "Ari\xe4l", "Cour\xe4"), 200) + B.font(ver, "Bold", w("font2", 300, 301), w("font2", 0, 2), w("font2", 400, 700))
    if ver >= 50:
        k = w("fmtkey", 170, 171)
        pre += B.fmt(ver, k, F) + B.fmt(ver, 169, F2) + B.fmt(ver, 172, w("fmttext", '"a"0', '"b"0'))
        keys = [0, w("xffmt", 170, 14), 169, 14, 2, 172]
    else:
        for s in ("General", F, F2, w("fmttext", '"a"0', '"b"0')):
            pre += B.fmt(ver, 0, s)
        keys = [0, w("xffmt", 1, 2), 2, 3, 1, 0]
    for i, k in enumerate(keys):
        x = bytearray(B.xf(ver, k, w("xffont", i & 1, 1 - (i & 1)), 0, 0))
        if "xfbits" in on:
            x[-1] ^= 0x04
        if ver != 20:
            pre += bytes(x)
    if ver >= 30:
        pre += B.style_user(ver, w("style", 0, 1), w("style", "mine", "your"))
    pre += B.palette([(i, w("palette", 255 - i, i), 7) for i in range(56 if ver >= 50 else 16)])

    def sheet(n):
        n = 0 if same else n
        m = n * 10
        o = B.defaultrowheight(ver, w("drh", 255, 256) + m, 1) if ver >= 30 else b""
        if ver >= 50:
            o += B.pagebreaks(ver, True, [(w("breaks", 3, 4), 0, 255)])
        o += B.defcolwidth(w("defcol", 9, 10) + n)
        if ver >= 30:
            o += B.colinfo(0, 1, w("colinfo", 3000, 3001) + m, w("colxf", 1, 2))
        else:
            o += B.colwidth_b2(1, 3, w("colinfo", 999, 998)) + B.columndefault_b2(2, [a(w("colxf", 1, 2))])
        if ver >= 40:
            o += B.standardwidth(w("stdcol", 2222, 2223))
        if ver in (40, 45, 50, 70):
            o += B.gcw([w("stdcol", 1, 2)])
        o += B.dimensions(ver, 0, 9, 0, 9)
        if ver >= 30:
            o += B.row_rec(ver, 0, w("rowh", 300, 301), 0, w("rowxf", 1, 2))
        else:
            o += B.row_b2(0, w("rowh", 300, 301), 0, a(w("rowxf", 1, 2)))
        p = w("place", 0, 1)
        o += B.number(ver, p, 0, w("num", 1.5, 1.75) + n, a(1)) + B.number(ver, 0, 1, w("date", 40000.25, 40000.5), a(w("noxf", 3, 0)))
        o += B.number(ver, p, 2, 5.0, a(2)) + B.number(ver, 0, 3, 6.0, a(w("override", 4, 1))) + B.number(ver, 0, 4, 7.0, a(5))
        o += B.label(ver, 1, 0, w("text", "t\xe9xt", "t\xe8xt"), a(0)) + B.label(ver, 1, 1, w("longtext", "x" * 100, "x" * 99 + "y"), a(0))
        o += B.boolerr(ver, 1, 2, w("bool", 1, 0), 0, a(0)) + B.boolerr(ver, 1, 3, w("err", 7, 42), 1, a(0)) + B.blank(ver, 1, 4, a(w("blankxf", 1, 2)))
        o += B.formula(ver, 2, 0, w("fnum", 2.5, 2.25), a(0)) + B.formula(ver, 2, 1, B.RES_STRING, a(0)) + B.string_rec(ver, w("fstr", "f\xe9f", "f\xe8f"))
        o += B.formula(ver, 2, 2, B.res_bool(w("bool", 1, 0)), a(0)) + B.formula(ver, 2, 3, B.res_err(w("err", 7, 42)), a(0))
        if ver >= 50:
            o += B.rk(3, 0, (w("rk", 100, 101) << 2) | 2, 0) + B.mulrk(3, 1, [(0, (w("mulrk", 7, 8) << 2) | 3), (3, (9 << 2) | 2)])
            o += B.rstring(ver, 3, 4, "rich", [(0, w("rich", 1, 0)), (2, 1)], 0)
        if ver < 30:
            o += B.integer2(3, 0, w("rk", 77, 78), a(0))
        if ver >= 80:
            o += B.labelsst(4, 0, 0) + B.labelsst(4, 1, w("sst2", 1, 2)) + B.labelsst(4, 2, 2)
            o += B.merged([(6, w("merged", 7, 8), 0, 1)]) + B.labelranges([(0, w("ranges", 1, 2), 0, 2)], [(2, w("ranges", 2, 3), 3, 4)])
            o += B.hlink(0, 1, 0, 1, 0x17, B.zstr(w("link", "desc", "desk")) + B.url_moniker(w("link", "http://x/", "http://y/"))) + B.quicktip(0, 1, 0, 1, w("tip", "tip", "top"))
            o += B.obj(1) + B.txo([(w("note", "note", "nope"), 0)], [(0, 1), (2, w("note", 0, 1))]) + B.note8(0, 0, 1, w("author", "me", "ye"), w("author", 2, 0))
        else:
            o += B.note_old(0, 0, w("note", "n\xf6te", "n\xf6pe"))
        o += B.window2(ver, w("window", 0x6BE, 0x6BC), 1, w("window", 2, 3), 0x40, (w("window", 255, 0), 0, 0), 60, 90)
        if ver >= 40:
            o += B.scl(w("zoom", 3, 2), 4)
        return o + B.pane(ver, w("panes", 1, 2), 2, 3, 1, 3)
    if ver < 50:
        if ver == 45:
            return B.workbook4w([(w("sheetname", "Aa", "Ab"), pre + sheet(0)), ("Bb", pre + sheet(1))])
        return B.single(ver, sheet(0), pre)
    nm = (w("sheetname", "Aa", "Ab"), "Bb")
    sheets = [B.Sh(nm[0], sheet(0), vis=w("vis", 0, 1)), B.Sh(nm[1], sheet(1), vis=w("vis", 1, 0))]
    post = b""
    row = w("names", 0, 1)
    if ver >= 80:
        post += (B.supbook_internal(2) + B.supbook_external("other", ["q", "r"]))
        ext = [(w("supbook", 0, 1), 0, 0), (0, 1, 1)]
        post += B.externsheet8(ext[::-1] if "extern" in on else ext)
        ref = lambda x, r, c: b"\x3a" + pack("<HHH", x, r, c)
        area = lambda x, r0, r1, c0, c1: b"\x3b" + pack("<HHHHH", x, r0, r1, c0, c1)
        scope = dict(sheet=w("scope", 1, 2))
        other = dict(sheet=2)
    else:
        e = [B.externsheet5(3, nm[0]), B.externsheet5(w("supbook", 3, 4), nm[1])]
        post += B.externcount(2) + b"".join(e[::-1] if "extern" in on else e)
        ref = lambda x, r, c: b"\x3a" + pack("<h8xHHHB", -(x + 1), x, x, r, c)
        area = lambda x, r0, r1, c0, c1: b"\x3b" + pack("<h8xHHHHBB", -(x + 1), x, x, r0, r1, c0, c1)
        scope = dict(sheet=w("scope", 1, 2), extsheet=w("scope", 1, 2))
        other = dict(sheet=2, extsheet=2)
    post += B.name_rec(ver, w("nname", "one", "two"), ref(0, row, 0)) + B.name_rec(ver, "Ar", area(1, 0, w("namearea", 2, 3), 0, 1), flags=w("nflags", 0, 1))
    post += B.name_rec(ver, "loc", ref(1, 1, 1), **scope) + B.name_rec(ver, "loc", ref(1, 1, row), **other)
    post += B.name_rec(ver, "konst", b"\x1e" + pack("<H", w("nkonst", 5, 6)) + b"\x1e\x07\0\x03")
    post += B.name_rec(ver, "use", b"\x23" + pack("<H", w("nkonst", 5, 1)) + bytes(2 if ver >= 80 else 12))
    post += B.name_rec(ver, "str", b"\x17" + (b"\x02\0" if ver >= 80 else b"\x02") + w("nkonst", b"ab", b"ac"))
    post += B.country(1, w("country", 61, 49))
    if ver >= 80:
        post += B.sst([w("sst", "zero", "nero"), "one", B.ustr("rich", 2, runs=[(0, w("sstrun", 1, 0)), (2, 1)])], 9)
    return B.workbook(ver, sheets, pre=pre, post=post, order=[1, 0] if "order" in on else None)
