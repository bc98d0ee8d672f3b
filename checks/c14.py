"""C14: text of pre-Unicode files is decoded with the declared or overriding code page."""
import codecs
from struct import pack
import biff as B
from mc import Space, Result
from xl import *

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of code page numbers, byte values and byte pairs, record orders and overrides, over every kind of text record of every version, compared with the platform codecs"
NOTE = ("All 65536 code page numbers (quick: all below 2200 and around every assigned number), every byte of every single-byte page and every pair of every double-byte page in every text-bearing record kind, "
        "every placement of CODEPAGE among the records before the text, all override combinations, BIFF2..8.")
RULE = "A case is one workbook; evaluations = texts compared. Every case is non-trivial."
ASSUMPTIONS = ["Python's codecs are the reference for what each byte means in a code page", "byte sequences the code page does not define are not stored",
               "code page 1200 (UTF-16) in a byte-string version is not legal and not judged"]

# code page number -> Python codec, from Microsoft's code page identifier list
PAGES = {367: "ascii", 437: "ibm437", 720: "cp720", 737: "cp737", 775: "ibm775", 850: "ibm850", 852: "ibm852", 855: "ibm855", 857: "ibm857", 858: "cp858", 860: "ibm860",
         861: "ibm861", 862: "ibm862", 863: "ibm863", 864: "ibm864", 865: "ibm865", 866: "ibm866", 869: "ibm869", 874: "cp874", 932: "ms932", 936: "gbk", 949: "uhc", 950: "cp950",
         1250: "windows-1250", 1251: "windows-1251", 1252: "windows-1252", 1253: "windows-1253", 1254: "windows-1254", 1255: "windows-1255", 1256: "windows-1256",
         1257: "windows-1257", 1258: "windows-1258", 1361: "johab", 10000: "macintosh", 10006: "macgreek", 10007: "maccyrillic", 10029: "maccentraleurope",
         10079: "maciceland", 10081: "macturkish", 32768: "macintosh", 32769: "windows-1252"}
WIDE = (932, 936, 949, 950, 1361)
UNUSABLE = [0, 1, 2, 42, 299, 300, 400, 999, 1300, 1999, 2000, 5000, 9999, 10082, 12000, 20000, 32767, 32770, 57002, 57011, 65000, 65001, 65535]
OVERRIDES = ["iso-8859-1", "cp1251", "utf_8", "shift_jis", "mac_roman", "ascii"]


def codec(cp):
    """The codec of a code page number, or None when there is none."""
    if cp in PAGES:
        return PAGES[cp]
    if 300 <= cp <= 1999 and cp != 1200:
        try:
            b"trial".decode("cp%d" % cp)
            return "cp%d" % cp
        except (LookupError, UnicodeError):
            pass
    return None


def make(ver, p, cp, order="first", kinds=None):
    """A workbook with the byte string p as text of every kind; order: where CODEPAGE stands."""
    s = p.decode("latin_1")
    xf = B.attr2(0) if ver < 30 else 0
    wa = B.writeaccess(ver, s[:100])
    c = B.codepage(cp) if cp is not None else b""
    f = B.font(ver, s[:120])
    head = {"first": c + wa + f, "after-user": wa + c + f, "twice": B.codepage(437) + c + wa + f}[order]
    head += B.fmt(ver, 0 if ver < 50 else 164, s[:120]) + B.fmt(ver, 1 if ver < 50 else 165, "General")
    head += B.xf(ver, 1 if ver < 50 else 0)
    if ver >= 30:
        head += B.style_user(ver, 0, s[:120])
    cells = B.label(ver, 0, 0, s, xf) + B.formula(ver, 0, 1, B.RES_STRING, xf) + B.string_rec(ver, s)
    if ver >= 50:
        cells += B.rstring(ver, 0, 2, s, [], xf)
    cells += B.number(ver, 0, 3, 7.0, xf)
    cells += B.note_old(0, 0, s)
    if ver <= 40:
        return B.single(ver, B.dimensions(ver, 0, 1, 0, 4) + cells, head)
    if ver == 45:
        return B.workbook4w([(s[:31], head + B.dimensions(ver, 0, 1, 0, 4) + cells), (s[:30] + "2", head + cells)], B.codepage(437) + c if order == "twice" else c)
    rpn = b"\x17" + B.bstr(p[:100], 1)
    post = B.externcount(1) + B.externsheet5(3, s[:31]) + B.name_rec(ver, s[:100], rpn) + B.name_rec(ver, "ref", b"\x3a" + pack("<h8xHHHB", -1, 0, 0, 0, 0))
    return B.workbook(ver, [B.Sh(s[:31], cells), B.Sh(s[:30] + "2", cells)], head, post)


def decodable(p, enc, n):
    """Longest prefix of p[:n] that is whole characters."""
    for k in range(min(n, len(p)), -1, -1):
        try:
            p[:k].decode(enc)
            return k
        except UnicodeError:
            pass


def check(ver, p, enc, bk, full):
    t = p.decode(enc)
    n = [0]

    def eq(what, got, want):
        n[0] += 1
        if got != want:
            return "%s: %.120r, stored %.120r" % (what, got, want)
    cut = lambda k: p[:k].decode(enc)
    out = [eq("user_name", bk.user_name, cut(100).rstrip())]
    for sh in bk.sheets():
        out += [eq("label", sh.cell_value(0, 0), t), eq("formula text", sh.cell_value(0, 1), t), eq("cell after", sh.cell_value(0, 3), 7.0),
                eq("note", sh.cell_note_map[0, 0].text, t), eq("type", sh.cell_type(0, 1), 1)]
        if ver >= 50:
            out.append(eq("rich label", sh.cell_value(0, 2), t))
    if ver >= 45:
        out.append(eq("sheet names", bk.sheet_names(), [cut(31), cut(30) + b"2".decode(enc)]))
    if ver >= 50:
        a, r = bk.name_obj_list
        out += [eq("name", a.name, cut(100)), eq("name map", sorted(bk.name_map), sorted([cut(100).lower(), b"ref".decode(enc).lower()])), eq("string constant", a.result.value, cut(100)),
                eq("reference sheet", r.cell().value, t)]
    out.append(eq("format", bk.format_map[0 if ver < 50 else 164].format_str, cut(120)))
    if full:
        out.append(eq("font", bk.font_list[0].name, cut(120)))
        if ver >= 30:
            out.append(eq("style", sorted(bk.style_name_map), [cut(120)]))
    return next((x for x in out if x), None), n[0]


def payloads(cp):
    """Byte strings that together hold every byte (and for double-byte pages every pair) the page defines."""
    enc = PAGES[cp]
    items = []
    for b in range(256):
        items.append(bytes([b]))
    if cp in WIDE:
        for a in range(0x81, 0xFF):
            for b in range(0x40, 0x100):
                items.append(bytes([a, b]))
    cur, out = b"", []
    for it in items:
        try:
            if len(it.decode(enc)) != 1 or it.decode(enc).encode(enc) not in (it,) and len(it) > 1:
                continue
        except UnicodeError:
            continue
        if len(cur) + len(it) > 26:       # so that every prefix used is made of whole characters
            out.append(cur)
            cur = b""
        cur += it
    out.append(cur)
    return out


class Bytes(Space):
    name = "all characters of all code pages"

    def __init__(self, q):
        self.q = q
        self.bound = "%d code pages, every defined byte (and byte pair), 7 versions, every text kind" % len(PAGES)

    def gen(self):
        for cp in sorted(PAGES):
            n = len(payloads(cp))
            step = 1 if n < 20 else 40
            for ver in (21, 30, 40, 45, 50, 70):
                if self.q and step > 1 and ver in (40, 70):
                    continue
                for i in range(0, n, step):
                    yield cp, ver, i, step

    def judge(self, case):
        cp, ver, i, step = case
        n = 0
        for k, p in enumerate(payloads(cp)[i:i + step]):
            for fi in (False, True) if step == 1 else (k % 2 == 0,):
                bk = open_bytes(make(ver, p, cp, "first" if fi else "after-user"), formatting_info=fi)
                if bk.codepage != cp or codecs.lookup(bk.encoding).name != codecs.lookup(PAGES[cp]).name:
                    return Result("codepage %r encoding %r for code page %d" % (bk.codepage, bk.encoding, cp), evals=n)
                f, m = check(ver, p, PAGES[cp], bk, fi)
                n += m
                if f:
                    return Result("BIFF%d code page %d: %s" % (ver, cp, f), evals=n)
        return Result(None, outcome=case, evals=n)


class Long(Space):
    name = "long byte strings"
    bound = "text lengths 0..255 (and 256..600 where the version allows), 6 versions, single- and multi-byte pages"

    def gen(self):
        for ver in (21, 30, 40, 45, 50, 70):
            for cp in (1252, 1251, 932, 10000):
                for i in range(0, 256 if ver < 30 else 600, 25):
                    yield ver, cp, i

    def judge(self, case):
        ver, cp, i = case
        enc = PAGES[cp]
        base = "a\u0451\u30a2\xe9 b\u30de".encode(enc, "ignore") * 200
        n = 0
        for ln in range(max(i, 1), min(i + 25, 256 if ver < 30 else 600)):
            p = base[:ln]
            try:
                for k in (26, 30, 31, 100, 120, ln):
                    p[:k].decode(enc)
            except UnicodeError:
                p = b"x" * ln
            bk = open_bytes(make(ver, p, cp), formatting_info=bool(ln & 1))
            f, m = check(ver, p, enc, bk, ln & 1)
            n += m
            if f:
                return Result("BIFF%d code page %d length %d: %s" % (ver, cp, ln, f), evals=n)
        return Result(None, outcome=case, evals=n)


class Numbers(Space):
    name = "code page numbers"

    def __init__(self, q):
        nums = set(range(0, 2200)) | set(UNUSABLE)
        for c in list(PAGES) + UNUSABLE + [57000, 20127, 28591, 12345, 51949]:
            nums |= set(range(c - 12, c + 13))
        self.nums = sorted(x for x in nums if 0 <= x < 65536 and x != 1200) if q else [x for x in range(65536) if x != 1200]
        self.bound = "%d code page numbers x BIFF 2, 4W, 5" % len(self.nums)

    def gen(self):
        for i in range(0, len(self.nums), 64):
            yield i

    def judge(self, i):
        n = 0
        p = b"ab\xe9z"
        for cp in self.nums[i:i + 64]:
            want = codec(cp)
            for ver in (21, 45, 50):
                n += 1
                data = make(ver, b"abcz", cp)
                try:
                    bk = open_bytes(data)
                except Exception as e:
                    if want is not None:
                        return Result("BIFF%d: code page %d (%s) refused: %r" % (ver, cp, want, e), evals=n)
                    continue
                if want is None:
                    return Result("BIFF%d: unusable code page %d accepted with encoding %r" % (ver, cp, bk.encoding), evals=n)
                if bk.codepage != cp or codecs.lookup(bk.encoding).name != codecs.lookup(want).name:
                    return Result("BIFF%d: code page %d reported as %r / %r" % (ver, cp, bk.codepage, bk.encoding), evals=n)
                f, m = check(ver, b"abcz", want, bk, False)
                if f:
                    return Result("BIFF%d code page %d: %s" % (ver, cp, f), evals=n)
        return Result(None, outcome=i, evals=n)


class Override(Space):
    name = "declared page, override, default"
    bound = "every combination of declared page (9 or none, in 3 positions), override (6 or none, usable or not), version, load options"

    def gen(self):
        for ver in (21, 30, 40, 45, 50, 70):
            for cp in (None, 437, 1251, 932, 10000, 32768, 1252, 12345, 300, 65001):
                for order in ("first", "after-user", "twice"):
                    for ov in [None, "", "no-such-codec", "cp0"] + OVERRIDES:
                        yield ver, cp, order, ov

    def judge(self, case):
        ver, cp, order, ov = case
        want = ov or ("iso-8859-1" if cp is None and order != "twice" else "cp437" if cp is None else codec(cp))
        try:
            codecs.lookup(want or "x-none")
            usable = True
        except LookupError:
            usable = False
        n = 0
        text = "a\u0416z" if want in ("cp1251", "windows-1251", "utf_8") else "\u30a2b" if want in ("ms932", "shift_jis") else "abc" if want == "ascii" or not usable else "a\xe9\xdf"
        p = text.encode(want if usable else "ascii")
        data = make(ver, p, cp, order)
        for kw in (dict(), dict(formatting_info=True), dict(on_demand=True), dict(verbosity=1, ragged_rows=True)):
            n += 1
            try:
                bk = open_bytes(data, encoding_override=ov, **kw)
                bk.sheets()
            except Exception as e:
                if usable:
                    return Result("BIFF%d: %r %s" % (ver, e, kw), evals=n)
                continue
            if not usable:
                return Result("BIFF%d: code page %r with override %r accepted as %r" % (ver, cp, ov, bk.encoding), evals=n)
            wcp = 437 if cp is None and order == "twice" else cp
            if codecs.lookup(bk.encoding).name != codecs.lookup(want).name or bk.codepage != wcp:
                return Result("BIFF%d: codepage %r encoding %r" % (ver, bk.codepage, bk.encoding), evals=n)
            f, m = check(ver, p, want, bk, kw.get("formatting_info"))
            n += m
            if f:
                return Result("BIFF%d page %r override %r %s: %s" % (ver, cp, ov, kw, f), evals=n)
        return Result(None, outcome=case, evals=n)


class Nothing(Space):
    name = "no code page, little or no text"
    bound = "every version, with and without user name, formats, fonts, labels; override or none"

    def gen(self):
        for ver in B.VERSIONS:
            for mask in range(16):
                for ov in (None, "cp1251"):
                    for fi in (False, True):
                        yield ver, mask, ov, fi

    def judge(self, case):
        ver, mask, ov, fi = case
        enc = ov or "iso-8859-1"
        s = "\u0416" if ov else "\xe9"
        raw = s.encode(enc).decode("latin_1")
        st = raw if ver < 80 else s
        pre = B.writeaccess(ver, st) if mask & 1 else b""
        pre += (B.font(ver, st) if mask & 2 else b"")
        pre += (B.fmt(ver, 0 if ver < 50 else 200, st) if mask & 4 else b"") + B.xf(ver, 0)
        xf = 0 if ver >= 30 else B.attr2(0)
        body = B.number(ver, 0, 0, 1.0, xf) + (B.label(ver, 0, 1, st, xf) if mask & 8 else b"")
        bk = open_bytes(B.single(ver, body, pre), encoding_override=ov, formatting_info=fi)
        sh = bk.sheet_by_index(0)
        if mask & 1 and bk.user_name != s:
            return Result("BIFF%d: user_name %r, stored %r" % (ver, bk.user_name, s))
        if mask & 8 and sh.cell_value(0, 1) != s:
            return Result("BIFF%d: label %r" % (ver, sh.cell_value(0, 1)))
        if mask & 2 and fi and bk.font_list[0].name != s:
            return Result("BIFF%d: font %r" % (ver, bk.font_list[0].name))
        if ver < 80 and (bk.encoding != enc or bk.codepage is not None):
            return Result("BIFF%d: encoding %r codepage %r without CODEPAGE" % (ver, bk.encoding, bk.codepage))
        return Result(None, outcome=case)


class Biff8(Space):
    name = "BIFF8 text is independent of code pages"
    bound = "every known page and 1200 x every override, every text kind"

    def gen(self):
        for cp in [None, 1200] + sorted(PAGES):
            for ov in [None] + OVERRIDES:
                yield cp, ov

    def judge(self, case):
        cp, ov = case
        t = "a\xe9\x80\u0416\u20ac"
        u = "\xc0\x81z"
        c = B.codepage(cp) if cp is not None else b""
        post = B.supbook_internal(2) + B.externsheet8([(0, 0, 0)]) + B.name_rec(80, t, b"\x17" + B.ustr(u, 1)) + B.sst([t, u])
        n = 0
        for order in (0, 1):
            wa = B.writeaccess(80, t)
            head = (c + wa if order else wa + c) + B.font(80, u) + B.fmt(80, 164, t) + B.xf(80) + B.style_user(80, 0, t)
            cells = (B.label(80, 0, 0, u) + B.labelsst(0, 1, 0) + B.labelsst(0, 2, 1) + B.formula(80, 0, 3, B.RES_STRING) + B.string_rec(80, u) +
                     B.formula(80, 0, 4, B.RES_STRING) + B.string_rec(80, t) + B.obj(1) + B.txo([(t, 1)], []) + B.note8(0, 0, 1, u))
            for fi in (False, True):
                bk = open_bytes(B.workbook(80, [B.Sh(u, cells), B.Sh(t, b"")], head, post), encoding_override=ov, formatting_info=fi)
                sh = bk.sheet_by_index(0)
                got = [sh.row_values(0), bk.sheet_names(), bk.user_name, bk.name_obj_list[0].name, bk.name_obj_list[0].result.value,
                       sh.cell_note_map[0, 0].text, sh.cell_note_map[0, 0].author, bk.format_map[164].format_str] + ([bk.font_list[0].name, sorted(bk.style_name_map)] if fi else [])
                want = [[u, t, u, u, t], [u, t], t, t, u, t, u, t] + ([u, [t]] if fi else [])
                n += len(want)
                if got != want:
                    k = [a == b for a, b in zip(got, want)].index(False)
                    return Result("code page %r override %r: %r, stored %r" % (cp, ov, got[k], want[k]), evals=n)
        return Result(None, outcome=case, evals=n)


class Biff8Numbers(Space):
    """A code page number without meaning does not matter to a file whose text is Unicode (numbers that look like a Windows or DOS page may be refused)."""
    name = "BIFF8 code page numbers"
    bound = "all 65536 code page numbers in a BIFF8 workbook"

    def gen(self):
        return iter(range(0, 65536, 64))

    def judge(self, lo):
        n = 0
        for cp in range(lo, lo + 64):
            t = "a\xe9\x80\u0416"
            u = "\xc0\x81z"
            data = B.workbook(80, [B.Sh(t, B.labelsst(0, 0, 0) + B.label(80, 0, 1, u))], B.codepage(cp) + B.writeaccess(80, t), B.sst([t]))
            try:
                bk = open_bytes(data)
            except Exception as e:
                if 300 <= cp <= 1999 and codec(cp) is None or cp == 424:
                    continue
                return Result("BIFF8: code page %d refused: %r" % (cp, e), evals=n)
            n += 1
            got = [bk.sheet_names(), bk.user_name, bk.sheet_by_index(0).row_values(0)]
            if got != [[t], t, [t, u]]:
                return Result("BIFF8 with code page %d: texts %r" % (cp, got), evals=n)
            if not 300 <= cp <= 1999 and cp not in PAGES and (bk.codepage, bk.encoding) != (1200, "utf_16_le"):
                return Result("BIFF8 with the meaningless code page %d: codepage %r encoding %r" % (cp, bk.codepage, bk.encoding), evals=n)
        return Result(None, outcome=lo, evals=n)


def spaces(tier):
    q = tier == "quick"
    return [Override(), Nothing(), Biff8(), Biff8Numbers(), Long(), Bytes(q), Numbers(q)]
