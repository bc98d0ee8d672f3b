"""C22: records xlrd does not need are skipped without disturbing anything."""
import itertools
from struct import pack
import biff as B
import corpus
import recs
import snap
from mc import Space, Result
from xl import *

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of inserted records (every code, every legal boundary) and embedded substreams, against the snapshot of the unmodified workbook"
NOTE = ("Workbooks with every record kind xlrd reads, in all nine versions: every record code of the 65536 that carries nothing xlrd reads, at every record boundary where the format allows a record, in several lengths and fillings, "
        "alone and all at once; embedded substreams of every kind with every sort of content at every boundary of a sheet; conditional formats, array and shared formulas, objects of every type with all their optional parts.")
RULE = "A case is one (version, boundary, set of records); evaluations = workbooks opened and compared in full. Every case is non-trivial: the workbook has cells, formats and metadata to disturb."
ASSUMPTIONS = ["which record codes carry information xlrd reads is taken from the published record lists (kept in this file), not from xlrd's source"]

VERS = (20, 21, 30, 40, 45, 50, 70, 80)

# Records of the format documents that say something xlrd reports, in some version, or that structure the stream.
READ = {
    0x0000, 0x0200,                                     # DIMENSIONS
    0x0001, 0x0201, 0x0002, 0x0003, 0x0203, 0x0004, 0x0204, 0x0005, 0x0205, 0x0006, 0x0206, 0x0406, 0x0007, 0x0207,  # BLANK INTEGER NUMBER LABEL BOOLERR FORMULA STRING
    0x0008, 0x0208, 0x0009, 0x0209, 0x0409, 0x0809, 0x000A,  # ROW BOF EOF
    0x0017, 0x0018, 0x0218, 0x001A, 0x001B, 0x001C, 0x001E, 0x041E, 0x0020, 0x0022, 0x0023, 0x0223, 0x0024, 0x0025, 0x0225,
    # EXTERNSHEET NAME VPAGEBREAKS HPAGEBREAKS NOTE FORMAT COLUMNDEFAULT DATEMODE EXTERNNAME COLWIDTH DEFAULTROWHEIGHT
    0x002F, 0x0031, 0x0231, 0x003C, 0x003E, 0x023E, 0x0041, 0x0042, 0x0043, 0x0243, 0x0443, 0x0044, 0x0045,
    # FILEPASS FONT CONTINUE WINDOW2 PANE CODEPAGE XF IXFE EFONT
    0x0055, 0x0056, 0x005C, 0x005D, 0x007D, 0x0085, 0x008C, 0x008E, 0x008F, 0x0092, 0x0099, 0x00A0, 0x00AB, 0x00BD, 0x00BE, 0x00D6, 0x00E0, 0x00E5,
    # DEFCOLWIDTH BUILTINFMTCOUNT WRITEACCESS OBJ COLINFO BOUNDSHEET COUNTRY SHEETSOFFSET SHEETHDR PALETTE STANDARDWIDTH SCL GCW MULRK MULBLANK RSTRING XF MERGEDCELLS
    0x00FC, 0x00FD, 0x015F, 0x01AE, 0x01B6, 0x01B8, 0x027E, 0x0293, 0x0800,  # SST LABELSST LABELRANGES SUPBOOK TXO HLINK RK STYLE QUICKTIP
    0x0021, 0x0221, 0x00BC, 0x04BC, 0x0036, 0x0037, 0x0236,  # ARRAY SHRFMLA TABLEOP: fixed contents, see the well-formed records below
    0x01B0, 0x01B1, 0x0872, 0x00EC,                     # CONDFMT CF FEAT11 MSODRAWING: likewise
}
CODES = [c for c in range(65536) if c not in READ]
KNOWN = [  # record types of the format documents that carry nothing xlrd reports
    0x000B, 0x020B, 0x000C, 0x000D, 0x000E, 0x000F, 0x0010, 0x0011, 0x0012, 0x0013, 0x0014, 0x0015, 0x0016, 0x0019, 0x001D, 0x001F, 0x0026, 0x0027, 0x0028, 0x0029,
    0x002A, 0x002B, 0x0032, 0x0033, 0x003D, 0x0040, 0x0046, 0x004D, 0x0050, 0x0051, 0x0052, 0x0059, 0x005A, 0x005B, 0x005E, 0x005F, 0x0060, 0x0063, 0x007E, 0x007F,
    0x0080, 0x0081, 0x0082, 0x0083, 0x0084, 0x0086, 0x0087, 0x0088, 0x0089, 0x008A, 0x008B, 0x008D, 0x0090, 0x0091, 0x0094, 0x0095, 0x0096, 0x0097, 0x0098, 0x009A,
    0x009B, 0x009C, 0x009D, 0x009E, 0x00A1, 0x00A9, 0x00AE, 0x00AF, 0x00B0, 0x00B1, 0x00B8, 0x00C1, 0x00D3, 0x00D7, 0x00DA, 0x00DC, 0x00DD, 0x00DE, 0x00DF, 0x00E1,
    0x00E2, 0x00E3, 0x00E4, 0x00EB, 0x00ED, 0x00EF, 0x00F0, 0x00FF, 0x013D, 0x0160, 0x0161, 0x0162, 0x0168, 0x0192, 0x0193, 0x01A9, 0x01AA, 0x01AB, 0x01AD, 0x01AF,
    0x01B2, 0x01B5, 0x01B7, 0x01BA, 0x01BB, 0x01BC, 0x01BD, 0x01BE, 0x01C0, 0x01C1, 0x0210, 0x0222, 0x0234, 0x0266, 0x0400, 0x0409 + 0x400, 0x0810, 0x0802, 0x0803, 0x0850, 0x0851, 0x0862,
    0x0863, 0x0867, 0x0868, 0x0871, 0x0873, 0x0874, 0x0875, 0x0876, 0x0877, 0x0878, 0x0879, 0x087A, 0x087B, 0x087C, 0x087D, 0x087E, 0x0880, 0x088B, 0x088C, 0x088D, 0x088E, 0x0892, 0x0896,
    0x0897, 0x0898, 0x0899, 0x089A, 0x089B, 0x089C, 0x08A3, 0x1001, 0x1002, 0x1014, 0x1033, 0x1034, 0x105F, 0x1066, 0x4BC0, 0x8000, 0xFFFF]
KNOWN = [c for c in KNOWN if c not in READ]
DATA = {"empty": b"", "1": b"\0", "4 of FF": b"\xff" * 4, "20": b"\0" * 20, "16 like an EOF": b"\x0a\0\0\0" * 4, "8224 of FF": b"\xff" * 8224}

_base = {}


def base(ver):
    """(Stream, {fmt: snapshot})"""
    if ver not in _base:
        data = corpus.rich(ver)
        _base[ver] = recs.Stream(80 if ver >= 80 else ver, data), {f: snap.full(open_bytes(data, formatting_info=f)) for f in (0, 1)}
    return _base[ver]


def compare(ver, ins, fmts=(0, 1)):
    """None or how the workbook with `ins` differs."""
    st, want = base(ver)
    data = st.insert(ins)
    for f in fmts:
        try:
            got = snap.full(open_bytes(data, formatting_info=f))
        except Exception as e:
            return "formatting_info=%d: raises %r" % (f, e)
        bad = snap.diff(want[f], got)
        if bad:
            return "formatting_info=%d: %s" % (f, bad)
    return None


def narrow(ver, i, codes, data):
    """The smallest part of a batch that still disturbs (for the report)."""
    while len(codes) > 1:
        a, b = codes[:len(codes) // 2], codes[len(codes) // 2:]
        for part in (a, b):
            if compare(ver, {i: b"".join(B.rec(c, data) for c in part)}):
                codes = part
                break
        else:
            break
    return ["0x%04x" % c for c in codes[:8]]


def at(ver, i):
    st, _ = base(ver)
    r = st.recs[i] if i < len(st.recs) else None
    return "before record %d (0x%04x, %s)" % (i, r.code, "globals" if r.seg == "globals" else "sheet %s%s" % (r.seg, ", embedded" if r.depth > 1 else "")) if r else "at the end"


class Batch(Space):
    """All codes of a set at one boundary at once."""
    case_limit = 120

    def __init__(self, name, codes, datas, ends_only=False):
        self.name, self.codes, self.datas, self.ends = name, codes, datas, ends_only
        self.bound = "%d codes %s of every version's workbook, contents %s, formatting_info 0/1" % (len(codes), "at the start of the globals, of each sheet, after its first record and before its end" if ends_only else "at every legal boundary", "/".join(datas))

    def gen(self):
        for ver in VERS:
            st, _ = base(ver)
            pts = st.boundaries()
            if self.ends:
                pts = [i for i in pts if st.recs[i - 1].code in recs.BOFS or st.recs[i].code == 0x0A or st.recs[i - 1].code in (0x0000, 0x0200)]
            for i in pts:
                for d in self.datas:
                    yield ver, i, d

    def judge(self, case):
        ver, i, d = case
        bad = compare(ver, {i: b"".join(B.rec(c, DATA[d]) for c in self.codes)})
        if bad:
            bad = "BIFF%d %s: unneeded records %s (content: %s): %s" % (ver, at(ver, i), narrow(ver, i, self.codes, DATA[d]), d, bad)
        return Result(bad, outcome=case, evals=2)


class Everywhere(Space):
    """One code at every boundary at once."""
    case_limit = 60
    batch = 16

    def __init__(self, name, codes, vers, d="4 of FF"):
        self.name, self.codes, self.vers, self.d = name, codes, vers, d
        self.bound = "each of %d codes at all legal boundaries at once, in BIFF %s (content: %s), formatting_info=1" % (len(codes), "/".join(map(str, vers)), d)

    def gen(self):
        for ver in self.vers:
            for c in self.codes:
                yield ver, c

    def judge(self, case):
        ver, c = case
        st, _ = base(ver)
        r = B.rec(c, DATA[self.d]) if self.d != "zeros" else bytes(12)
        bad = compare(ver, {i: r for i in st.boundaries()}, (1,))
        if bad:
            for i in st.boundaries():
                if compare(ver, {i: r}, (1,)):
                    bad = "%s: %s" % (at(ver, i), compare(ver, {i: r}, (1,)))
                    break
            bad = "BIFF%d, record 0x%04x %s" % (ver, c, bad)
        return Result(bad, outcome=case)


class Single(Space):
    """One record at one boundary."""
    batch = 16

    def __init__(self, name, codes, vers, d):
        self.name, self.codes, self.vers, self.d = name, codes, vers, d
        self.bound = "each of %d published record types alone at each legal boundary, in BIFF %s (content: %s), formatting_info=1" % (len(codes), "/".join(map(str, vers)), d)

    def gen(self):
        for ver in self.vers:
            for i in base(ver)[0].boundaries():
                for c in self.codes:
                    yield ver, i, c

    def judge(self, case):
        ver, i, c = case
        bad = compare(ver, {i: B.rec(c, DATA[self.d])}, (1,))
        return Result(bad and "BIFF%d %s: record 0x%04x (content: %s): %s" % (ver, at(ver, i), c, self.d, bad), outcome=case)


def sheet_points(ver):
    st, _ = base(ver)
    return [i for i in st.boundaries() if st.recs[i].seg != "globals" and st.recs[i].depth == 1 and not st.recs[i].code in recs.BOFS]


def contents(ver):
    """What an embedded substream may hold: nothing of it may come out."""
    a = lambda k: B.attr2(k) if ver < 30 else k
    yield "nothing", b""
    yield "chart records", B.rec(0x1002, b"\0" * 16) + B.rec(0x1033) + B.rec(0x105F, b"\0\0") + B.rec(0x1034)
    yield "cells", corpus.cellblock(ver, 40, sst=False)
    yield "cells over others", corpus.cellblock(ver, 0, sst=False).replace(b"\x01", b"\x02") if False else B.number(ver, 0, 0, 77.0, a(0)) + B.blank(ver, 1, 0, a(0)) + B.boolerr(ver, 0, 1, 42, 1, a(0))
    yield "sheet settings", corpus.meta(ver, 5) + corpus.meta_tail(ver, 5)
    yield "notes", corpus.notes(ver, 3)
    f = B.font(ver, "embedded", 999) + B.fmt(ver, 3 if ver < 50 else 170, "0000.0") + (B.xf(ver, 0) if ver >= 21 else b"")
    yield "fonts and formats", f + B.palette([(1, 2, 3)] * (56 if ver >= 50 else 16)) + B.datemode(1)
    if ver >= 50:
        yield "names", B.externcount(1) + B.externsheet5(3, "S0") + B.name_rec(ver, "inner", b"\x1e\x05\0") + B.country(44, 44)
        yield "boundsheet", B.boundsheet(ver, 0, "inner")
    yield "text of a formula", B.string_rec(ver, "loose")


class Embedded(Space):
    name = "embedded substreams"
    batch = 4

    def __init__(self, full):
        self.full = full
        self.bound = "substreams of types 0x20, 0x10, 0x40, 0x06 with each kind of content, one or two in a row%s, at every boundary of every worksheet, BIFF3-8, formatting_info 0/1" % ("" if full else " (two, and types but 0x20, for one kind of content)")

    def gen(self):
        for ver in VERS:
            if ver < 30:
                continue
            for i in sheet_points(ver):
                for k, (n, _) in enumerate(contents(ver)):
                    yield ver, i, k

    def judge(self, case):
        ver, i, k = case
        n, body = list(contents(ver))[k]
        ev = 0
        for typ in (0x20, 0x10, 0x40, 0x06) if self.full or k == 2 else (0x20,):
            sub = B.bof(ver if ver != 45 else 40, typ) + body + B.EOF
            for rep in (1, 2) if self.full or k == 2 else (1,):
                ev += 2
                bad = compare(ver, {i: sub * rep})
                if bad:
                    return Result("BIFF%d %s: %d embedded substream(s) of type 0x%02x with %s: %s" % (ver, at(ver, i), rep, typ, n, bad), evals=ev)
        return Result(None, outcome=case, evals=ev)


class Gaps(Space):
    name = "between the substreams"
    bound = "records, a BOF..EOF substream of every kind not declared as a sheet, or 1..9 loose bytes between any two substreams and after the last, BIFF5-8"

    def gen(self):
        for ver in (50, 70, 80):
            st, _ = base(ver)
            for i in [i for i in st.boundaries() if st.between(i)] + [len(st.recs)]:
                yield ver, i

    def judge(self, case):
        ver, i = case
        n = 0
        blobs = [bytes(k) for k in range(1, 10)] + [b"\xff" * k for k in range(1, 10)] + [B.rec(c, b"\0" * 8) for c in (0x0203, 0x004D, 0x0085, 0x003C, 0x000A, 0x002F)]
        blobs += [B.bof(ver, t) + body + B.EOF for t in (5, 0x10, 0x20, 0x40, 0x100) for _, body in contents(ver)]
        for blob in blobs:
            n += 2
            bad = compare(ver, {i: blob})
            if bad:
                return Result("BIFF%d %s: %d bytes %.60r between the substreams: %s" % (ver, at(ver, i), len(blob), blob, bad), evals=n)
        return Result(None, outcome=case, evals=n)


def cf(blocks, user_fmt=False, sz=(3, 0), typ=1, op=1):
    """CF: blocks = subset of the six optional parts."""
    flags, body = 0x003FFFFF, b""
    parts = [("num", 25, b"\x0a\0" if not user_fmt else pack("<H", 2 + 3 + 8) + B.ustr("0.0\u20ac", 2)),
             ("font", 26, bytes(range(118))), ("align", 27, b"\x01\0\xff\0\0\0\0\0"), ("border", 28, b"\x11\x11\x0a\0\0\0\0\0"),
             ("pattern", 29, b"\0\x04\x13\0"), ("prot", 30, b"\x03\0")]
    for n, bit, b in parts:
        if n in blocks:
            flags |= 1 << bit
            body += b
    f1 = (b"\x1e\x05\0" * 9)[:sz[0]]
    f2 = (b"\x1e\x07\0" * 9)[:sz[1]]
    return B.rec(0x01B1, pack("<BBHHIH", typ, op, sz[0], sz[1], flags, 1 if user_fmt else 0) + body + f1 + f2)


def condfmt(ranges, n=1):
    r = [x for x in ranges]
    return B.rec(0x01B0, pack("<6H", n, 1, min(x[0] for x in r), max(x[1] for x in r), min(x[2] for x in r), max(x[3] for x in r)) +
                 pack("<H", len(r)) + b"".join(pack("<4H", *x) for x in r))


def objects():
    """OBJ records of every object type with their sub-records, as Excel writes them."""
    sub = lambda ft, n: B.rec(ft, b"\0" * n)
    sbs = B.rec(0x0C, pack("<IHHHHHHHH", 0, 5, 0, 100, 1, 10, 1, 16, 1)[:20])
    for typ in list(range(0, 0x1F)):
        extra = b""
        if typ == 5:
            extra = b""
        elif typ == 8:
            extra = sub(7, 2) + sub(8, 2)
        elif typ in (0x0B, 0x0C):
            extra = sub(0x0A if typ == 0x0B else 0x0B, 12 if typ == 0x0B else 6) + B.rec(0x12, b"\0" * 8)
        elif typ in (0x10, 0x11):
            extra = sbs
        elif typ in (0x12, 0x14):
            # the list data does not respect its own length field
            yield "list box/drop-down 0x%02x" % typ, B.rec(0x5D, B.rec(0x15, pack("<HHH", typ, 77, 0x2001) + b"\0" * 12) + sbs + pack("<HH", 0x13, 0x1FEE) + b"\0\0\3\0\0\0\0\0\2\0\x14\0\xA0\0")
            yield "autofilter drop-down 0x%02x" % typ, B.rec(0x5D, B.rec(0x15, pack("<HHH", typ, 77, 0x2101) + b"\0" * 12) + sbs + pack("<HH", 0x13, 0x1FEE) + b"\0\0\0\0\x01\3\0\0\2\0\x14\0\xA0\0")
            continue
        elif typ == 0x13:
            extra = sub(0x0F, 6)
        yield "object type 0x%02x" % typ, B.obj(77, typ, extra=extra)
        yield "object type 0x%02x, printing off" % typ, B.obj(77, typ, opts=0, extra=extra)
    yield "macro", B.obj(77, 7, extra=sub(4, 6))
    yield "reserved zero bytes after the end", B.rec(0x5D, B.rec(0x15, pack("<HHH", 2, 77, 0x11) + b"\0" * 12) + bytes(12))
    yield "antique", B.rec(0x5D, b"\x01\0\0\0\x05\0" + b"\x11" * 30)


def wellformed(ver):
    """(what, records) that only make sense with right contents."""
    names = ("num", "font", "align", "border", "pattern", "prot")
    if ver >= 80:
        for k in range(7):
            for blocks in itertools.combinations(names, k):
                for user in ((False, True) if "num" in blocks else (False,)):
                    yield "conditional format with %s%s" % ("+".join(blocks) or "nothing", ", user-defined" if user else ""), condfmt([(0, 3, 0, 1)]) + cf(blocks, user)
        for typ, op, sz in ((1, 1, (3, 3)), (1, 5, (3, 0)), (2, 0, (27, 0)), (2, 0, (0, 0)), (1, 2, (27, 27))):
            yield "conditional format %r" % ((typ, op, sz),), condfmt([(0, 3, 0, 1), (5, 65535, 2, 255)], 2) + cf((), sz=sz, typ=typ, op=op) + cf(("font",), sz=sz, typ=typ, op=op)
        yield "conditional format over three ranges without rules", condfmt([(0, 0, 0, 0)] * 3, 0)
        for n, o in objects():
            yield n, o
            if "antique" not in n:
                yield n + " with a drawing", B.rec(0xEC, b"\x0f\0\4\xf0\0\0\0\0") + o
        for t in ("", "x", "text box \u0416"):
            yield "text box %r" % t, B.rec(0xEC, b"\x0f\0\4\xf0\0\0\0\0") + B.obj(78, 6) + B.rec(0xEC, b"\0\0\x0d\xf0\0\0\0\0") + B.txo([(t, int(not B.can_narrow(t)))] if t else [], [(0, 0)] if t else [])
        yield "table feature", B.rec(0x872, pack("<HH8sHBiHiH8s", 0x872, 0, bytes(8), 5, 0, 0, 1, 0, 0, bytes(8)) + bytes(66))
        yield "data validation", B.rec(0x01B2, pack("<HiiiI", 4, 0, 0, -1, 1)) + B.rec(0x01BE, pack("<I", 0x0100) + b"\1\0\0\0" * 4 + pack("<HH", 3, 0) + b"\x1e\1\0" + pack("<HH", 0, 0) + pack("<H4H", 1, 0, 3, 0, 1))
    if ver >= 50:
        yield "shared formula", B.rec(0x04BC, pack("<HHBBBBH", 0, 3, 0, 1, 0, 2, 3) + b"\x1e\5\0")
        yield "array formula", B.rec(0x0221, pack("<HHBBHIH", 0, 3, 0, 1, 0, 0, 3) + b"\x1e\5\0")
        yield "table", B.rec(0x0236, pack("<HHBBHHHHH", 1, 3, 0, 1, 0, 0, 0, 0, 0))
        yield "drawing group", B.rec(0xEB, b"\x0f\0\0\xf0\0\0\0\0") + B.rec(0x3C, bytes(100))
    elif ver >= 30:
        yield "array formula", B.rec(0x0221, pack("<HHBBHH", 0, 3, 0, 1, 0, 3) + b"\x1e\5\0")
        yield "table", B.rec(0x0236, pack("<HHBBHHHHH", 1, 3, 0, 1, 0, 0, 0, 0, 0))
    else:
        yield "array formula", B.rec(0x0021, pack("<HHBBBB", 0, 3, 0, 1, 0, 3) + b"\x1e\5\0")
        yield "table", B.rec(0x0036, pack("<HHBBBBHH", 1, 3, 0, 1, 0, 0, 0, 0))
    yield "unknown record with continuations", B.rec(0x0123, bytes(20)) + B.rec(0x3C, bytes(30)) + B.rec(0x3C, b"\x0a\0\0\0")


class WellFormed(Space):
    name = "well-formed records xlrd looks at but does not report"
    batch = 2

    def __init__(self, full):
        self.full = full
        self.bound = "conditional formats with every combination of optional parts, objects of every type, text boxes, array/shared formulas, tables, at %s boundary of the sheets, formatting_info 0/1" % ("every" if full else "every 5th")

    def gen(self):
        for ver in VERS:
            pts = sheet_points(ver)
            for i in pts if self.full else pts[::5] + pts[-1:]:
                yield ver, i

    def judge(self, case):
        ver, i = case
        n = 0
        for what, r in wellformed(ver):
            n += 2
            # between OBJ and its text another object would be out of place
            st, _ = base(ver)
            if st.recs[i].code == 0x1B6 and (r[:2] == b"\x5d\0" or b"\x5d\0" in r):
                continue
            bad = compare(ver, {i: r})
            if bad:
                return Result("BIFF%d %s: %s: %s" % (ver, at(ver, i), what, bad), evals=n)
        return Result(None, outcome=case, evals=n)


# four zero bytes read as a DIMENSIONS record without data
ZEROS = Batch("four zero bytes everywhere", [0x0000], ["empty"])
ZEROS4 = Everywhere("twelve zero bytes everywhere at once", [0x0000], VERS, "zeros")


def spaces(tier):
    low = [c for c in CODES if c < 0x1000]
    if tier == "quick":
        return [Batch("published codes everywhere", KNOWN, list(DATA)[:5]), Batch("codes below 0x1000", low, ["4 of FF"]), ZEROS, ZEROS4,
                Batch("all codes", CODES, ["4 of FF"], True), Everywhere("one code everywhere", KNOWN, VERS), Embedded(False), Gaps(), WellFormed(False)]
    return [ZEROS, ZEROS4, Batch("published codes everywhere", KNOWN, list(DATA)), Batch("all codes", CODES, ["empty", "4 of FF", "20"]),
            Everywhere("one code everywhere", CODES, (80,)), Everywhere("low codes everywhere", low, VERS),
            Single("published codes one at a time", KNOWN, VERS, "20"), Embedded(True), Gaps(), WellFormed(True)]
