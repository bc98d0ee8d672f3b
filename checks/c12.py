"""C12: numbers are dates exactly when their number format is a date format."""
import itertools
from struct import pack
import biff as B
from mc import Space, Result
from xl import *

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of format strings (all character strings and all token sequences up to a length) and of format keys, each attached to real numeric cells, judged by an independent tokenizer of number formats"
NOTE = ("Every string over a 9-character alphabet and every sequence over 44 format tokens up to the stated lengths is put in FORMAT records of real workbooks, referenced from XFs and numeric cells, "
        "and read with and without formatting_info; every builtin key; every user key position; every version. Oracle: a tokenizer written from Excel's format grammar.")
RULE = ("A case is a block of format strings in one workbook; evaluations = (string, mode) verdicts compared. Strings on which Excel's grammar gives no single answer (malformed, or sections of both kinds) are not counted.")
ASSUMPTIONS = ["formats whose sections differ in kind, era-only formats (g, e, b without y m d h s) and malformed strings have no defined answer and are only required not to fail"]

DATE, NUM = "date", "num"


def sections(s):
    """Kinds of the components of each section, or None when the string is not well formed."""
    secs, cur, i, n = [], set(), 0, len(s)
    prev_s = False
    while i < n:
        c = s[i]
        was_s, prev_s = prev_s, False
        if c == '"':
            j = s.find('"', i + 1)
            if j < 0:
                return None
            i = j + 1
        elif c in "\\_*":
            if i + 1 >= n:
                return None
            i += 2
        elif c == "[":
            j = s.find("]", i)
            body = s[i + 1:j]
            if j < 0 or not body or any(x in body for x in '["\\_*;'):
                return None
            if len(set(body.lower())) == 1 and body[0] in "hmsHMS":
                cur.add(DATE)
                prev_s = body[0] in "sS"
            i = j + 1
        elif c == "]":
            return None
        elif c == ";":
            secs.append(cur)
            cur = set()
            i += 1
        elif c in "ymdhsYMDHS":
            cur.add(DATE)
            prev_s = c in "sS"
            i += 1
        elif c == "." and was_s and s[i + 1:i + 2] == "0":
            i += 1
            while s[i:i + 1] == "0":
                i += 1
        elif c in "0#?":
            cur.add(NUM)
            i += 1
        else:
            i += 1
    secs.append(cur)
    return secs


def verdict(s):
    secs = sections(s)
    if secs is None:
        return None
    kinds = set().union(*secs)
    if kinds == {DATE, NUM}:
        return None
    return DATE in kinds


def wb(ver, strs, key0=164):
    """One numeric cell per format string; returns (bytes, [(row, col)])."""
    out, xfs, cells, pos = B.font(ver), b"", b"", []
    for i, s in enumerate(strs):
        out += B.fmt(ver, key0 + i, s, enc="utf_8")
        xfs += B.xf(ver, (key0 if ver >= 50 else 0) + i)
        x = i if ver >= 30 else B.attr2(i, i)
        cells += B.number(ver, i >> 8, i & 255, 40000.5 + i, x)
        pos.append((i >> 8, i & 255))
    return B.single(ver, cells, out + xfs), pos


def compare(ver, strs, key0=164, modes=(False, True), kw=None):
    data, pos = wb(ver, strs, key0)
    n, got0 = 0, None
    seen = set()
    for fi in modes:
        sh = open_bytes(data, formatting_info=fi, **(kw or {})).sheet_by_index(0)
        got = [sh.cell_type(r, c) == XL_CELL_DATE for r, c in pos]
        for i, (s, g) in enumerate(zip(strs, got)):
            if sh.cell_type(*pos[i]) not in (XL_CELL_DATE, XL_CELL_NUMBER):
                return "format %r: cell type %d" % (s, sh.cell_type(*pos[i])), n, seen
            want = verdict(s)
            if want is None:
                continue
            n += 1
            seen.add((s, want)) if len(seen) < 50 else None
            if g != want:
                return "format %r (key %d): a number with it is reported as %s" % (s, key0 + i, "date" if g else "number"), n, seen
        if got0 is not None and got != got0:
            k = [a != b for a, b in zip(got, got0)].index(True)
            return "format %r: classification depends on formatting_info" % strs[k], n, seen
        got0 = got
    return None, n, seen


class Strings(Space):
    """All strings over an alphabet up to a length."""
    name = "all character strings"

    def __init__(self, alpha, lens, block=1800, name=None):
        self.alpha, self.lens, self.block = alpha, lens, block
        self.name = name or self.name
        self.bound = "length %d..%d over %r" % (lens[0], lens[-1], alpha)

    def gen(self):
        for ln in self.lens:
            for i in range(0, len(self.alpha) ** ln, self.block):
                yield ln, i

    def judge(self, case):
        ln, i = case
        k = len(self.alpha)
        strs = []
        for x in range(i, min(i + self.block, k ** ln)):
            t = []
            for _ in range(ln):
                x, m = divmod(x, k)
                t.append(self.alpha[m])
            strs.append("".join(t))
        f, n, seen = compare(80, strs, modes=(False, True) if ln < 5 else (False,))
        return Result(f, outcome=(case, len(seen)), evals=n, nontrivial=n > 0)


TOKENS = ["d", "dd", "mmm", "yyyy", "YY", "h", "hh", "ss", "S", "AM/PM", "M", "ss.00", "s.000", "[h]", "[mm]", "[SS]", "D",
          "0", "#,##0", "0.00", "?/?", "0.00E+00", "0%",
          '"dmyhs"', '"0#?"', '""', '";"', '"["', "\\d", "\\0", '\\"', "_d", "_)", "_0", "* ", "*d", "[Red]", "[>=100]", "[$-409]", "[$kr-41D]", "[DBNum1]",
          ";", " ", "/", ":", "-", "General", "@", "\u5e74", ",", ".", "\u20ac", "!"]


class Tokens(Strings):
    name = "all token sequences"

    def __init__(self, lens, block=1800):
        Strings.__init__(self, TOKENS, lens, block)
        self.bound = "length %d..%d over %d tokens" % (lens[0], lens[-1], len(TOKENS))


REAL = [  # well known formats and their kind
    ("General", 0), ("0", 0), ("0.00", 0), ("#,##0", 0), ("#,##0.00", 0), ('"$"#,##0_);\\("$"#,##0\\)', 0), ('"$"#,##0_);[Red]\\("$"#,##0\\)', 0),
    ("0%", 0), ("0.00%", 0), ("0.00E+00", 0), ("##0.0E+0", 0), ("# ?/?", 0), ("# ??/??", 0), ("@", 0), ("m/d/yy", 1), ("d-mmm-yy", 1), ("d-mmm", 1), ("mmm-yy", 1),
    ("h:mm AM/PM", 1), ("h:mm:ss AM/PM", 1), ("h:mm", 1), ("h:mm:ss", 1), ("m/d/yy h:mm", 1), ("mm:ss", 1), ("[h]:mm:ss", 1), ("mm:ss.0", 1),
    ('_(* #,##0_);_(* \\(#,##0\\);_(* "-"_);_(@_)', 0), ('_("$"* #,##0.00_);_("$"* \\(#,##0.00\\);_("$"* "-"??_);_(@_)', 0),
    ("[$-409]d\\-mmm\\-yyyy;@", 1), ("[$-F800]dddd\\,\\ mmmm\\ dd\\,\\ yyyy", 1), ("[$-F400]h:mm:ss\\ AM/PM", 1), ("yyyy\\-mm\\-dd\\Thh:mm:ss", 1), ("hh\\hmm\\mss\\s", 1),
    ('"Yes";"Yes";"No"', 0), ('"True";"True";"False"', 0), ('"On";"On";"Off"', 0), ('General"."', 0), ('General" days"', 0), ('0" months"', 0), ("0\\d", 0), ('#,##0\\ "kr";\\-#,##0\\ "kr"', 0),
    ("[$\u20ac-2]\\ #,##0.00", 0), ("[h]", 1), ("[mm]", 1), ("[ss].00", 1), ("[h]\\ \\h\\o\\u\\r\\s", 1), ("m:ss.000", 1), ("[Red][<0]0;[Blue]0.0", 0), ("yyyy\u5e74m\u6708d\u65e5", 1),
    ('yyyy"\u5e74"m"\u6708"d"\u65e5";@', 1), ("00000\\-0000", 0), ("[<=9999999]###\\-####;\\(###\\)\\ ###\\-####", 0), ("000\\-00\\-0000", 0), ("dddd", 1), ("mmmmm", 1), ("hh:mm:ss.000", 1),
    ("#\\ ###\\ ##0", 0), ("[Magenta]General", 0), (";;;", 0), ('"d"', 0), ("[DBNum1][$-804]General", 0), ("[$-411]ggge\"\u5e74\"m\"\u6708\"d\"\u65e5\";@", 1), ("[$-D07041E]d\\ mmmm\\ yyyy", 1),
]

STD_DATE = set(range(14, 23)) | set(range(27, 37)) | set(range(45, 48)) | set(range(50, 59)) | set(range(71, 82))


class Known(Space):
    name = "formats Excel is known to write"
    bound = "%d formats, every version, both modes, every code order" % len(REAL)

    def gen(self):
        for ver in B.VERSIONS:
            for rot in range(0, len(REAL), 7):
                for ed in (0, 1):
                    yield ver, rot, ed

    def judge(self, case):
        ver, rot, ed = case
        items = [x for x in REAL[rot:] + REAL[:rot]]
        enc = "utf_8" if ver < 80 else None
        if ver < 30:
            items = items[:62]
        data, pos = wb(ver, [s for s, d in items])
        n = 0
        for fi in (False, True):
            sh = open_bytes(data, formatting_info=fi, encoding_override=enc, on_demand=bool(ed)).sheet_by_index(0)
            for (s, d), (r, c) in zip(items, pos):
                n += 1
                g = sh.cell_type(r, c)
                if g != (XL_CELL_DATE if d else XL_CELL_NUMBER):
                    return Result("BIFF%d: number with format %r has type %d" % (ver, s, g), evals=n)
                if verdict(s) not in (bool(d), None):
                    return Result("harness: oracle disagrees on %r" % s)
        return Result(None, outcome=case, evals=n)


class Builtin(Space):
    name = "builtin format codes"
    bound = "all 164 codes x BIFF5/7/8 x both modes x every FORMAT record placement (none, some)"

    def gen(self):
        for ver in (50, 70, 80):
            for fi in (False, True):
                for extra in (0, 1, 2):
                    yield ver, fi, extra

    def judge(self, case):
        ver, fi, extra = case
        pre = B.font(ver)
        if extra:
            pre += B.fmt(ver, 164, "d" if extra == 1 else "0")
        if extra == 2:
            pre += B.fmt(ver, 5, '"d"0') + B.fmt(ver, 14, "m/d/yy")
        keys = list(range(164)) + ([164] if extra else [])
        pre += b"".join(B.xf(ver, k) for k in keys)
        sh = open_bytes(B.single(ver, b"".join(B.number(ver, k, 0, 1.5, i) for i, k in enumerate(keys)), pre), formatting_info=fi).sheet_by_index(0)
        for k in keys:
            want = k in STD_DATE or (k == 164 and extra == 1)
            if sh.cell_type(k, 0) != (XL_CELL_DATE if want else XL_CELL_NUMBER):
                return Result("BIFF%d: builtin format code %d gives type %d" % (ver, k, sh.cell_type(k, 0)))
        return Result(None, outcome=case, evals=len(keys))


class Keys(Space):
    name = "independence of the format key"
    bound = "8 strings at every key 164..420 and every power-of-two boundary up to 65535; string kept or replaced for the builtin keys"
    STR = ["d", "0", "yyyy-mm-dd", '"d"0', "[h]", "General", "mm:ss.00", "\\d"]

    def gen(self):
        ks = list(range(164, 421)) + [x + d for x in (512, 1024, 2048, 4096, 8192, 16384, 32768) for d in (-1, 0, 1)] + [65535]
        for ver in (50, 70, 80):
            for i in range(0, len(ks), 40):
                for rot in range(len(self.STR)):
                    yield ver, ks[i:i + 40], rot
        for ver in (50, 70, 80):
            for rot in range(len(self.STR)):
                yield ver, [k for k in range(0, 164)], rot

    def judge(self, case):
        ver, ks, rot = case
        pre = B.font(ver)
        want = []
        for i, k in enumerate(ks):
            s = self.STR[(i + rot) % len(self.STR)]
            pre += B.fmt(ver, k, s)
            want.append((s, verdict(s)))
        for k in ks:
            pre += B.xf(ver, k)
        cells = b"".join(B.number(ver, i, 0, 3.25, i) + (B.rk(i, 1, 8, i)) + B.mulrk(i, 2, [(i, 8), (0, 8)]) + B.formula(ver, i, 4, 2.5, i) for i in range(len(ks)))
        n = 0
        for fi in (False, True):
            sh = open_bytes(B.single(ver, cells, pre), formatting_info=fi).sheet_by_index(0)
            for i, k in enumerate(ks):
                for c in (0, 1, 2, 4):
                    n += 1
                    if sh.cell_type(i, c) != (XL_CELL_DATE if want[i][1] else XL_CELL_NUMBER):
                        return Result("BIFF%d: format %r under key %d: type %d in column %d" % (ver, want[i][0], k, sh.cell_type(i, c), c), evals=n)
        return Result(None, outcome=case, evals=n)


class XFs(Space):
    """A cell uses the format of its own XF, whatever the XF's style parent and usage flags say."""
    name = "XF usage flags and parents"
    bound = "every usage-flag set of cell and parent XF, date/number each, BIFF3..8"

    def gen(self):
        for ver in (30, 40, 45, 50, 70, 80):
            for u in range(64):
                yield ver, u

    def judge(self, case):
        ver, u = case
        pre = B.font(ver)
        ks = (164, 165)
        pre += B.fmt(ver, 164, "d") + B.fmt(ver, 165, "0.0")
        if ver < 50:
            ks = (0, 1)
        pre += B.xf(ver, ks[0], 0, 1, 0xFFF, u ^ 0x3F) + B.xf(ver, ks[1], 0, 1, 0xFFF, u)
        cells, want, i = b"", [], 2
        for k in (0, 1):
            for parent in (0, 1):
                pre += B.xf(ver, ks[k], 0, 0, parent, u)
                cells += B.number(ver, i, 0, 2.0, i)
                want.append((i, k == 0))
                i += 1
        for fi in (False, True):
            sh = open_bytes(B.single(ver, cells, pre), formatting_info=fi).sheet_by_index(0)
            for r, d in want:
                if sh.cell_type(r, 0) != (XL_CELL_DATE if d else XL_CELL_NUMBER):
                    return Result("BIFF%d usage flags %02x: cell with %s format has type %d" % (ver, u, "date" if d else "number", sh.cell_type(r, 0)))
        return Result(None, outcome=case, evals=8)


class Biff2Attr(Space):
    name = "BIFF2 cell attributes and XF indexes"
    bound = "all 64 format numbers in cell attributes (no XF records), all 63 direct XF indexes, IXFE indexes; every cell record kind"

    def gen(self):
        for mode in ("attr", "xf", "ixfe"):
            for fi in (False, True):
                yield mode, fi

    def judge(self, case):
        mode, fi = case
        nf = 63
        pre = B.font(21)
        isd = [(k * 7 % 5) < 2 for k in range(nf)]
        for k in range(nf):
            pre += B.fmt(21, 0, "d/m/yy" if isd[k] else "0.00")
        nx = 80
        if mode != "attr":
            for x in range(nx):
                pre += B.xf(21, x % nf)
        cells, want = b"", []
        for j in range(nf if mode != "ixfe" else nx):
            if mode == "attr":
                a, d = bytes([0, j | (j % 4) << 6, j & 7]), isd[j]
            elif mode == "xf":
                a, d = bytes([j | 0x40, (j + 1) % nf, 0]), isd[j % nf]
            else:
                a, d = bytes([63, 0, 0]), isd[j % nf]
                cells += B.rec(0x0044, pack("<H", j))
            cells += B.number(21, j, 0, 1.5, a) + B.integer2(j, 1, 7, a) + B.formula(21, j, 2, 2.5, a)
            want.append(d)
        sh = open_bytes(B.single(21, cells, pre), formatting_info=fi).sheet_by_index(0)
        for j, d in enumerate(want):
            for c in range(3):
                if sh.cell_type(j, c) != (XL_CELL_DATE if d else XL_CELL_NUMBER):
                    return Result("%s: row %d col %d: type %d, format is %s" % (mode, j, c, sh.cell_type(j, c), "date" if d else "number"))
        return Result(None, outcome=case, evals=3 * len(want))


def spaces(tier):
    q = tier == "quick"
    return [Strings('d0"\\_[h];', (1, 2, 3, 4, 5, 6) if q else (1, 2, 3, 4, 5, 6, 7)), Tokens((1, 2, 3) if q else (1, 2, 3)),
            Strings(["s", ".", "0", "[", "]", "h", "M", "#"], (1, 2, 3, 4, 5, 6) if q else (1, 2, 3, 4, 5, 6, 7), name="all strings with fractions and elapsed times"),
            Known(), Builtin(), Keys(), XFs(), Biff2Attr()] + ([] if q else [Tokens4()])


class Tokens4(Tokens):
    name = "all token sequences of four"

    def __init__(self):
        Tokens.__init__(self, (4,))
