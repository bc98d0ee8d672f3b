"""Records that differ from the one before them in a single bit.

For every kind of record, every single-bit alteration R' of a base record R is read three times: in the history R, R', R and, as the
reference, alone (Z, R', Z and Z, Z, R, where Z is another record of the same kind or none).  What a record says does not depend on
the records of its kind that came before, so the two readings agree.  Anything remembered from one record to the next under an
incomplete key, and any object shared between records, shows."""
from struct import pack
import biff as B, snap
from mc import Space, Result
from xl import *

FMTS = ["0", "0.00", "yyyy-mm-dd", '"x"0', "@", "hh:mm", "0%", "General"]


def xfs(ver, n=64):
    """Globals with n XFs of alternating number and date formats (20: a BIFF2 file without XF records)."""
    o = b"".join(B.font(ver, "F%d" % i) for i in range(5))
    if ver < 50:
        o += b"".join(B.fmt(ver, i, s) for i, s in enumerate(FMTS))
        keys = list(range(len(FMTS)))
    else:
        o += b"".join(B.fmt(ver, 164 + i, s) for i, s in enumerate(FMTS))
        keys = list(range(164, 164 + len(FMTS)))
    if ver > 20:
        o += b"".join(B.xf(ver, 0, 0, 1, 0xFFF) for _ in range(15))
        o += b"".join(B.xf(ver, keys[i % len(keys)], i % 5) for i in range(n - 15))
    return o


VERS = (20,) + B.VERSIONS


def xfi(ver, n):
    return (B.attr2(n) if ver > 20 else B.attr2(0, n % 8, n % 4)) if ver < 30 else n


def celldict(bk, i, j):
    """What a cell says, its formatting included (without the XF index where the file has no XF records)."""
    sh = bk.sheet_by_index(0)
    c = sh.cell(i, j)
    return c.ctype, repr(c.value), c.xf_index if bk.biff_version > 20 else plain(bk.xf_list[c.xf_index]), snap.plain(sh.rich_text_runlist_map.get((i, j)))


def plain(o):
    return snap.plain({k: v for k, v in vars(o).items() if k not in ("xf_index", "font_index", "book")} if not isinstance(o, xlrd.formatting.XF) else
                      {k: v for k, v in vars(o).items() if k not in ("xf_index", "book")})


class Item(object):
    """base: payload; z: payload of the reference neighbour (None: no record); doc(payloads) -> bytes; get(book, i) -> value; bits: flipped bits."""

    def __init__(self, label, ver, base, doc, get, z=None, bits=None, **kw):
        self.label, self.ver, self.base, self.doc, self.get, self.z, self.kw = label, ver, base, doc, get, z, kw
        self.bits = list(range(len(base) * 8)) if bits is None else list(bits)


def nbytes(a, b):
    return range(a * 8, b * 8)


def split(r):
    """code, payload of one record."""
    return int.from_bytes(r[:2], "little"), r[4:]


# --- cells -----------------------------------------------------------------

def cells(q):
    for ver in VERS:
        x, dx = xfi(ver, 17), xfi(ver, 18)
        kinds = [("NUMBER", B.number(ver, 0, 0, 1234.5, x)), ("NUMBER date", B.number(ver, 0, 0, 40000.75, dx)),
                 ("LABEL", B.label(ver, 0, 0, "Ab c\xe9", x)), ("BOOLERR bool", B.boolerr(ver, 0, 0, 1, 0, x)),
                 ("BOOLERR error", B.boolerr(ver, 0, 0, 7, 1, x)), ("BLANK", B.blank(ver, 0, 0, x)),
                 ("FORMULA number", B.formula(ver, 0, 0, 2.5, x)), ("FORMULA bool", B.formula(ver, 0, 0, B.res_bool(1), x)),
                 ("FORMULA error", B.formula(ver, 0, 0, B.res_err(42), x))]
        if ver < 30:
            kinds.append(("INTEGER", B.integer2(0, 0, 0x1234, x)))
        if ver >= 50:
            kinds += [("RK", B.rk(0, 0, 0x40590000 | 1, 17)), ("RSTRING", B.rstring(ver, 0, 0, "Rich", [(0, 1), (2, 3)], 17)),
                      ("FORMULA empty", B.formula(ver, 0, 0, B.RES_EMPTY, 17))]
        if ver >= 80:
            kinds += [("LABEL wide", B.label(80, 0, 0, "\u0416\u4e2d", 17)), ("LABELSST", B.labelsst(0, 0, 5, 17))]
        pre = xfs(ver)
        if ver >= 80:
            pre += B.sst(["s%d" % i for i in range(40)])
        a = 3 if ver < 30 else 2        # bytes of the XF index or of the cell attributes
        for name, r in kinds:
            code, p = split(r)
            bits = None
            if "FORMULA" in name:       # the kind of result is left alone: another kind can need another record
                bits = list(nbytes(0, a + 8)) if name == "FORMULA number" else list(nbytes(0, a)) + list(nbytes(a + 2, a + 3))

            def doc(ps, ver=ver, code=code, pre=pre):
                return B.single(ver, b"".join(B.rec(code, pack("<HH", i, i & 1) + b) for i, b in enumerate(ps) if b is not None), pre)
            yield Item(name, ver, p[4:], doc, lambda bk, i: celldict(bk, i, i & 1), None, bits)

        # formula with a string result: bits of the text
        for text in ("T\xe9xt!", "\u0416\u4e2d") if ver >= 80 else ("T\xe9xt!",):
            code, p = split(B.string_rec(ver, text))
            h = 1 if ver < 30 else 2 if ver < 80 else 3

            def doc(ps, ver=ver, code=code, pre=pre, x=x):
                return B.single(ver, b"".join(B.formula(ver, i, 0, B.RES_STRING, x) + B.rec(code, b) for i, b in enumerate(ps) if b is not None), pre)
            yield Item("FORMULA text", ver, p, doc, lambda bk, i: celldict(bk, i, 0), None, nbytes(h, len(p)))


# --- shared strings and rich text -------------------------------------------

def strings(q):
    pre = xfs(80)
    bases = [("narrow", B.ustr("Ab c\xe9 0"), 3), ("wide", B.ustr("A\u0416\u4e2d\U0001F600"), 3), ("rich", B.ustr("Rich tx", runs=[(0, 1), (3, 2)]), 5),
             ("wide rich", B.ustr("R\u0416ch", runs=[(1, 1), (2, 3)]), 5), ("phonetic", B.ustr("Phon", phonetic=b"\1\2\3\4"), 7),
             ("rich phonetic", B.ustr("Phon", runs=[(1, 2)], phonetic=b"\1\2\3\4"), 9)]
    for name, base, h in bases:
        def doc(ps):
            ss = [B.ustr("zz%d" % i) if b is None else b for i, b in enumerate(ps)]
            return B.workbook(80, [B.Sh("S", b"".join(B.labelsst(i, 0, i, 17) for i in range(len(ss))))], pre=pre, post=B.sst(ss))

        def get(bk, i):
            sh = bk.sheet_by_index(0)
            return sh.cell_type(i, 0), repr(sh.cell_value(i, 0)), snap.plain(sh.rich_text_runlist_map.get((i, 0)))
        yield Item("SST " + name, 80, base, doc, get, None, nbytes(h, len(base)))


# --- notes -------------------------------------------------------------------

def notes(q):
    def get(bk, i):
        return snap.plain({k: v for k, v in bk.sheet_by_index(0).cell_note_map.items() if k == (i, 1)})
    for ver in B.VERSIONS[:-1]:
        code, p = split(B.note_old(0, 1, "Not\xe9 text"))

        def doc(ps, ver=ver, code=code):
            return B.single(ver, B.number(ver, 0, 0, 1.0, xfi(ver, 17)) +
                            b"".join(B.rec(code, pack("<HH", i, 1) + b) for i, b in enumerate(ps) if b is not None), xfs(ver))
        yield Item("NOTE", ver, p[4:], doc, get, None, nbytes(2, len(p) - 4))
    pre = xfs(80)
    code, p = split(B.note8(0, 1, 1, "Auth"))

    def doc8(ps):
        o = b""
        for i, b in enumerate(ps):
            o += B.obj(i + 1) + B.txo([("text %d" % i, 0)], [(0, 1), (3, 2)])
        for i, b in enumerate(ps):
            if b is not None:
                o += B.rec(code, pack("<HH", i, 1) + b[:2] + pack("<H", i + 1) + b[2:])
        return B.single(80, o, pre)
    b8 = p[4:6] + p[8:]
    yield Item("NOTE8 flags and author", 80, b8, doc8, get, None, list(nbytes(0, 2)) + list(nbytes(5, len(b8))))

    def docf(ps):
        o = b""
        for i, b in enumerate(ps):
            code, p = split(B.obj(i + 1))
            p = p if b is None else p[:8] + b + p[10:]
            o += B.rec(code, p) + B.txo([("text", 0)], [(0, 1)])
        for i, b in enumerate(ps):
            if b is not None:
                o += B.note8(i, 1, i + 1, "Au")
        return B.single(80, o, pre)

    yield Item("OBJ options", 80, b"\x11\x40", docf, get)

    for wide in (0, 1):
        base = ("\u0416\u4e2d te".encode("utf_16_le") if wide else b"te\xe9t") + pack("<HH", 1, 2)
        cut = len(base) - 4

        def doct(ps, cut=cut, wide=wide):
            o = b""
            for i, b in enumerate(ps):
                text, run = (b[:cut], b[cut:]) if b is not None else (b"zz", pack("<HH", 0, 0))
                w = wide if b is not None else 0
                chars = text.decode("utf_16_le", "surrogatepass") if w else text.decode("latin_1")
                o += B.obj(i + 1) + B.txo([(chars, w)], [tuple(int.from_bytes(run[j:j + 2], "little") for j in (0, 2))])
            for i, b in enumerate(ps):
                if b is not None:
                    o += B.note8(i, 1, i + 1, "Au")
            return B.single(80, o, pre)
        yield Item("TXO text and runs %d" % wide, 80, base, doct, get)


# --- columns -----------------------------------------------------------------

def columns(q):
    for ver in B.VERSIONS:
        if ver >= 30:
            code, p = split(B.colinfo(0, 0, 2048, 17, 0, 0, 2, 0))

            def doc(ps, ver=ver, code=code):
                return B.single(ver, b"".join(B.rec(code, pack("<HH", i, i) + b) for i, b in enumerate(ps) if b is not None) +
                                B.number(ver, 0, 0, 1.0, 17), xfs(ver))
            base = p[4:]
        else:
            def doc(ps, ver=ver):
                return B.single(ver, b"".join(B.colwidth_b2(i, i, int.from_bytes(b, "little")) for i, b in enumerate(ps) if b is not None) +
                                B.number(ver, 0, 0, 1.0, xfi(ver, 17)), xfs(ver))
            base = pack("<H", 0x1234)

        def get(bk, i):
            s = bk.sheet_by_index(0)
            return snap.plain(s.colinfo_map.get(i)), s.computed_column_width(i)
        yield Item("COLINFO", ver, base, doc, get)


# --- formatting ----------------------------------------------------------------

def formatting(q):
    for ver in B.VERSIONS:
        code, p = split(B.font(ver, "Nam\xe9", 200, 0x0B, 400, 8))

        def doc(ps, ver=ver, code=code):
            ff = b"".join(B.font(ver, "F%d" % i) for i in range(5)) + b"".join(B.rec(code, b) if b is not None else B.font(ver, "zz") for b in ps)
            rest = xfs(ver)
            k = len(b"".join(B.font(ver, "F%d" % i) for i in range(5)))
            return B.single(ver, B.number(ver, 0, 0, 1.0, xfi(ver, 17)), ff + rest[k:])

        def get(bk, i):
            return plain(bk.font_list[6 + i])       # no font has index 4
        m = 15 if ver >= 50 else 7 if ver >= 30 else 5
        yield Item("FONT", ver, p, doc, get, None, list(range((m - 1) * 8)) + list(nbytes(m + (ver >= 80), len(p))))
        if ver >= 21:
            code, p = split(B.xf(ver, 2 if ver < 50 else 165, 2, 0, 1))

            def docx(ps, ver=ver, code=code):
                return B.single(ver, b"".join(B.number(ver, i, 0, 40000.5, 20 + i if ver >= 30 else B.attr2(20 + i)) for i in range(len(ps))),
                                xfs(ver, 20) + b"".join(B.rec(code, b) if b is not None else B.xf(ver, 0 if ver < 50 else 164, 1) for b in ps))

            def getx(bk, i):
                s = bk.sheet_by_index(0)
                return plain(bk.xf_list[20 + i]), s.cell_type(i, 0), repr(s.cell_value(i, 0))
            yield Item("XF", ver, p, docx, getx)
        # FORMAT text
        text = "yyyy-mm"
        code, p = split(B.fmt(ver, 200, text))
        key = 2 if ver >= 40 else 0

        def docf(ps, ver=ver, code=code, key=key):
            pre = b"".join(B.font(ver, "F%d" % i) for i in range(5))
            if ver >= 50:
                pre += b"".join(B.rec(code, pack("<H", 200 + i) + b[2:]) if b is not None else B.fmt(ver, 200 + i, "zz") for i, b in enumerate(ps))
            else:
                pre += b"".join(B.rec(code, b) if b is not None else B.fmt(ver, i, "zz") for i, b in enumerate(ps))
            if ver >= 21:
                pre += b"".join(B.xf(ver, (200 + i) if ver >= 50 else i, 0) for i in range(len(ps)))
            return B.single(ver, b"".join(B.number(ver, i, 0, 40000.5, i if ver >= 30 else B.attr2(i)) for i in range(len(ps))), pre)

        def getf(bk, i):
            f = bk.format_map[200 + i if bk.biff_version >= 50 else i]
            s = bk.sheet_by_index(0)
            return f.format_str, f.type, s.cell_type(i, 0), repr(s.cell_value(i, 0))
        yield Item("FORMAT", ver, p, docf, getf, None, nbytes(key + 1 + (2 if ver >= 80 else 0), len(p)))


# --- names -------------------------------------------------------------------

def names(q):
    import rpn
    for ver in (50, 70, 80):
        ref = b"\x3A" + (pack("<HHH", 0, 3, 2) if ver >= 80 else pack("<hqHHHB", -1, 0, 0, 0, 3, 2))
        area = b"\x3B" + (pack("<HHHHH", 0, 3, 5, 2, 4) if ver >= 80 else pack("<hqHHHHBB", -1, 0, 0, 0, 3, 5, 2, 4))
        progs = [("ref", ref, None), ("area", area, None), ("number", b"\x1f" + pack("<d", 2.5), nbytes(1, 9)), ("int", b"\x1e" + pack("<H", 7), nbytes(1, 3)),
                 ("text", b"\x17" + (B.ustr("ab", 1) if ver >= 80 else B.bstr("ab")), nbytes(3 if ver >= 80 else 2, 5 if ver >= 80 else 4)),
                 ("bool", b"\x1d\x01", nbytes(1, 2)), ("sum", b"\x1e\1\0\x1e\2\0\x03", None)]
        for label, rp, bits in progs:
            base = pack("<H", 0) + rp

            def doc(ps, ver=ver):
                post = (B.supbook_internal(2) + B.externsheet8([(0, 0, 0), (0, 1, 1), (0, 0, 1)])) if ver >= 80 else (
                    B.externsheet5(3, "S0") + B.externsheet5(3, "S1"))
                for i, b in enumerate(ps):
                    f, r = (int.from_bytes(b[:2], "little"), b[2:]) if b is not None else (0, b"\x1c\x2a")
                    post += B.name_rec(ver, "Nm%d" % i, r, f)
                return B.workbook(ver, [B.Sh("S%d" % i, B.number(ver, 9, 9, 1.0)) for i in range(2)], post=post)

            def get(bk, i):
                o = bk.name_obj_list[i]
                d = {k: v for k, v in vars(o).items() if k not in ("book", "name_index", "name", "raw_formula", "result", "stack")}
                r = o.result
                return snap.plain(d), snap.plain(r)
            b = None if bits is None else [16 + x for x in bits]
            yield Item("NAME " + label, ver, base, doc, get, None, None if b is None else list(range(16)) + b)


# --- hyperlinks ----------------------------------------------------------------

def links(q):
    parts = [("url", 0x17, B.zstr("desc") + B.url_moniker("http://x/a")), ("url target mark", 0x9F, B.zstr("de") + B.zstr("fr") + B.url_moniker("http://y") + B.zstr("S!A1")),
             ("file", 0x17, B.zstr("d") + B.file_moniker(b"a.xls", "b.xls", 1)), ("unc", 0x103, B.zstr("\\\\srv\\f")), ("mark", 0x08, B.zstr("Sheet1!A2"))]
    for label, opts, body in parts:
        code, p = split(B.hlink(0, 0, 0, 0, opts, body))

        def doc(ps, code=code):
            o = B.number(80, 0, 0, 1.0)
            for i, b in enumerate(ps):
                if b is not None:
                    o += B.rec(code, pack("<HHHH", i, i, i, i + 1) + b) + B.quicktip(i, i, i, i + 1, "tip %d" % i)
            return B.single(80, o)

        def get(bk, i):
            s = bk.sheet_by_index(0)
            hs = [h for h in s.hyperlink_list if (h.frowx, h.fcolx) == (i, i)]
            return snap.plain(hs), snap.plain(s.hyperlink_map.get((i, i + 1)))
        yield Item("HLINK " + label, 80, p[8:], doc, get, None, range(20 * 8, (len(p) - 8) * 8))
    code, p = split(B.quicktip(0, 0, 0, 0, "Tip \u0416"))

    def docq(ps):
        o = B.number(80, 0, 0, 1.0)
        for i, b in enumerate(ps):
            o += B.hlink(i, i, i, i + 1, 0x08, B.zstr("S!A1"))
            if b is not None:
                o += B.rec(0x0800, pack("<HHHHH", 0x0800, i, i, i, i + 1) + b)
        return B.single(80, o)

    def getq(bk, i):
        s = bk.sheet_by_index(0)
        return snap.plain(s.hyperlink_list[i]), snap.plain(s.hyperlink_map.get((i, i)))
    yield Item("QUICKTIP", 80, p[10:], docq, getq, None, range((len(p) - 12) * 8))


# --- the space ---------------------------------------------------------------

class Neigh(Space):
    case_limit = 60
    malformed = True
    bound = "every single-bit alteration of one record of each kind in every version: the history R, R', R against each record without neighbours"

    def __init__(self, items, what):
        self.make, self.name = items, "neighbours differing in one bit: " + what
        self._items = None

    def items(self):
        if self._items is None:
            self._items = list(self.make(True))
        return self._items

    def gen(self):
        for i, it in enumerate(self.items()):
            for j in range(0, len(it.bits), 64):
                yield i, j

    def read(self, it, ps, want):
        try:
            bk = open_bytes(it.doc(ps), formatting_info=True)
            return [it.get(bk, i) for i in want]
        except Exception as e:
            return e

    def judge(self, case):
        i, j = case
        it = self.items()[i]
        R, Z = it.base, it.z
        alone = self.read(it, [Z, Z, R], [2])
        if isinstance(alone, Exception):
            return Result("%s BIFF%d: the base record alone: %r" % (it.label, it.ver, alone))
        n = skipped = 0
        seen = set()
        for b in it.bits[j:j + 64]:
            x = bytearray(R)
            x[b >> 3] ^= 1 << (b & 7)
            x = bytes(x)
            ref = self.read(it, [Z, x, Z], [1])
            if isinstance(ref, Exception):
                skipped += 1            # the altered record is malformed
                continue
            n += 1
            seen.add(repr(ref))
            got = self.read(it, [R, x, R], [0, 1, 2])
            if isinstance(got, Exception):
                return Result("%s BIFF%d, bit %d of %s altered: %r after a record without the alteration" % (it.label, it.ver, b, R.hex(), got))
            if got[1] != ref[0]:
                return Result("%s BIFF%d, bit %d of %s altered: reads as %.300s after the unaltered record, as %.300s alone" % (it.label, it.ver, b, R.hex(), got[1], ref[0]))
            for k in (0, 2):
                base = self.base(it, k)
                if got[k] != base:
                    return Result("%s BIFF%d %s: reads as %.300s %s the record with bit %d altered, as %.300s alone" % (
                        it.label, it.ver, R.hex(), got[k], "before" if k == 0 else "after", b, base))
        return Result(None, outcome=(case, n, skipped, len(seen)), nontrivial=n > 0, evals=n)

    def base(self, it, k):
        c = self.__dict__.setdefault("_base", {})
        if (id(it), k) not in c:
            ps = [it.z] * 3
            ps[k] = it.base
            c[id(it), k] = self.read(it, ps, [k])[0]
        return c[id(it), k]
