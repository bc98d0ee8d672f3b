"""C16: cell format and column width follow the documented default hierarchy; row and column attributes as stored."""
import itertools
import biff as B, neigh
from mc import Space, Result
from xl import *

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the presence, order and overlap of the records that decide cell formats and column widths, and of their bit fields, against the documented default hierarchy; every record followed by each of its single-bit alterations"
NOTE = ("Every combination of stored cell / row default / column default with every placement of the records around the cells, all index signs; every subset and order of COLINFO, STANDARDWIDTH, "
        "DEFCOLWIDTH and GCW with overlapping column ranges; every bit and bit pair of the ROW and COLINFO fields; every column range; BIFF2..8.")
RULE = "A case is one sheet; evaluations = lookups compared. A case is non-trivial when at least one of the deciding records is present."
ASSUMPTIONS = ["for GCW and STANDARDWIDTH the GCW version of the story in the Colinfo documentation holds, as xlrd documents"]

NXF = 24


def pre(ver):
    o = B.font(ver)
    if ver < 50:
        o += B.fmt(ver, 0, "General")
    return o + b"".join(B.xf(ver, 0, 0, 0, 0) for i in range(NXF))


def cx(ver, k):
    return k if ver >= 30 else B.attr2(k)


def rowrec(ver, r, xf):
    if ver >= 30:
        return B.row_rec(ver, r, 300, 0, xf)
    return B.row_b2(r, 300, 0, None if xf is None else B.attr2(xf))


def colrec(ver, c, xf, width=1000):
    if ver >= 30:
        return B.colinfo(c, c, width, xf)
    return B.colwidth_b2(c, c, width) + (B.columndefault_b2(c, [B.attr2(xf)]) if xf is not None else b"")


class Hierarchy(Space):
    """Two rows x two columns; every state of each cell, row and column."""
    name = "cell format hierarchy"
    bound = "4 cells x {absent, number, blank, label} , 2 rows x {none, no default, default}, 2 columns x {none, default}, XF 0 as the default, record placement before/after/between, 7 versions, ragged or not"

    def __init__(self, cells):
        self.cells = cells

    def gen(self):
        for ver in B.VERSIONS:
            for rows in itertools.product(("none", "plain", "xf"), repeat=2):
                for cols in itertools.product(("none", "xf") if ver >= 30 else ("none", "width", "xf"), repeat=2):
                    yield ver, rows, cols
            # XF 0 as a default is a default like any other
            for rows in (("xf0", "xf"), ("plain", "xf0"), ("none", "plain")):
                for cols in (("none", "xf0"), ("xf0", "xf"), ("xf", "none")):
                    yield ver, rows, cols

    def judge(self, case):
        ver, rows, cols = case
        n = 0
        rx, kx = {}, {}
        rrec = crec = b""
        for r, s in enumerate(rows):
            if s != "none":
                x = {"xf": 3 + r, "xf0": 0, "plain": None}[s]
                rrec += rowrec(ver, r, x)
                if x is not None:
                    rx[r] = x
        for c, s in enumerate(cols):
            if s != "none":
                x = {"xf": 7 + c, "xf0": 0, "width": None}[s]
                crec += colrec(ver, c, x)
                if x is not None:
                    kx[c] = x
        # a far away cell fixes the dimensions of the sheet
        far = B.number(ver, 2, 2, 1.0, cx(ver, 1))
        for states in itertools.product(self.cells, repeat=4):
            body, own = [], {}
            for i, st in enumerate(states):
                r, c = divmod(i, 2)
                k = 11 + i
                if st == "number":
                    body.append(B.number(ver, r, c, 1.5, cx(ver, k)))
                elif st == "blank":
                    body.append(B.blank(ver, r, c, cx(ver, k)) if ver < 50 or i & 1 else B.mulblank(r, c, [k]))
                elif st == "label":
                    body.append(B.label(ver, r, c, "x", cx(ver, k)))
                if st != "absent":
                    own[r, c] = k
            cells = b"".join(body)
            for place, ragged in ((0, False), (1, True), (2, False)):
                data = [crec + rrec + cells + far, cells + far + rrec + crec, rrec + far + cells[:0] + cells + crec][place]
                sh = open_bytes(B.single(ver, data, pre(ver)), formatting_info=True, ragged_rows=ragged).sheet_by_index(0)
                for r in range(3):
                    for c in range(sh.row_len(r)):
                        want = 1 if (r, c) == (2, 2) else own.get((r, c), rx.get(r, kx.get(c, 15)))
                        for rr, cc in ((r, c), (r - 3, c), (r, c - sh.row_len(r)), (r - 3, c - sh.row_len(r))):
                            n += 1
                            if sh.cell_xf_index(rr, cc) != want:
                                return Result("BIFF%d rows %r columns %r cells %r: XF of (%d,%d) is %d, should be %d" % (ver, rows, cols, states, rr, cc, sh.cell_xf_index(rr, cc), want), evals=n)
                        if sh.cell(r, c).xf_index != want or sh.row(r)[c].xf_index != want:
                            return Result("BIFF%d: Cell.xf_index differs from cell_xf_index at (%d,%d)" % (ver, r, c), evals=n)
        return Result(None, outcome=case, evals=n, nontrivial=bool(rx or kx))


def width_model(ver, cis, std, dcw, gcw, c):
    """Documented default hierarchy of the version; cis: the width of the last COLINFO for c or None."""
    default = (8 if dcw is None else dcw) * 256
    if ver >= 80:
        return cis if cis is not None else std if std is not None else default
    if ver >= 40:
        if gcw is not None and c in gcw:
            return std if std is not None else default
        return cis if cis is not None else default
    return cis if cis is not None else default


class Widths(Space):
    name = "column width hierarchy"

    def __init__(self, q):
        self.RANGES = [(0, 2), (1, 1), (2, 256)] if q else [(0, 0), (0, 2), (1, 1), (2, 255), (255, 255), (3, 256)]
        self.std = (None, 2222) if q else (None, 2222, 0)
        self.dcw = (None, 11) if q else (None, 0, 11, 255)
        self.gcw = (None, (0,), (1, 2, 255), tuple(range(256))) if q else (None, (), (0,), (1, 2), (255,), tuple(range(256)), (31, 32, 63, 64))
        self.bound = "every subset of {1..2 COLINFO of %d ranges, STANDARDWIDTH, DEFCOLWIDTH, GCW}, every order, %d GCW masks, 7 versions" % (len(self.RANGES), len(self.gcw) - 1)

    def gen(self):
        for ver in B.VERSIONS:
            for a in [None] + self.RANGES:
                for b in [None] + (self.RANGES if a else []):
                    yield ver, a, b

    def judge(self, case):
        ver, a, b = case
        n = 0
        for std in (self.std if ver >= 40 else (None,)):
            for dcw in self.dcw:
                for gcw in (self.gcw if 40 <= ver < 80 else (None,)):
                    recs = []
                    cis = {}
                    for k, rng in enumerate((a, b)):
                        if rng:
                            w = (3000, 777)[k]
                            hi = min(rng[1], 255)
                            recs.append(("ci", B.colinfo(rng[0], rng[1], w, 15) if ver >= 30 else B.colwidth_b2(rng[0], hi, w)))
                    if std is not None:
                        recs.append(("std", B.standardwidth(std)))
                    if dcw is not None:
                        recs.append(("dcw", B.defcolwidth(dcw)))
                    if gcw is not None:
                        recs.append(("gcw", B.gcw(gcw)))
                    if ver < 30:
                        recs.append(("def", B.columndefault_b2(1, [B.attr2(1), B.attr2(2)])))
                    for perm in itertools.permutations(range(len(recs))):
                        cis = {}
                        ws = [(rng, (3000, 777)[k]) for k, rng in enumerate((a, b)) if rng]
                        for p in perm:
                            if p < len(ws):
                                (lo, hi), w = ws[p]
                                for c in range(lo, min(hi, 255) + 1):
                                    cis[c] = w
                        sh = open_bytes(B.single(ver, b"".join(recs[p][1] for p in perm) + B.number(ver, 0, 0, 1.0, cx(ver, 0)), pre(ver)), formatting_info=True).sheet_by_index(0)
                        for c in (0, 1, 2, 3, 31, 32, 63, 64, 65, 254, 255):
                            want = width_model(ver, cis.get(c), std, dcw, gcw, c)
                            got = sh.computed_column_width(c)
                            n += 1
                            if got != want:
                                return Result("BIFF%d COLINFO %r, STANDARDWIDTH %r, DEFCOLWIDTH %r, GCW %.60r, order %r: width of column %d is %r, should be %r"
                                              % (ver, ws, std, dcw, gcw, perm, c, got, want), evals=n)
                        if sh.standardwidth != std or sh.defcolwidth != dcw:
                            return Result("BIFF%d: standardwidth %r defcolwidth %r, stored %r %r" % (ver, sh.standardwidth, sh.defcolwidth, std, dcw), evals=n)
                        if ver < 80 and ver >= 40:
                            want = tuple(int(gcw is not None and c in gcw) for c in range(256))
                            if sh.gcw != want:
                                return Result("BIFF%d: gcw %r" % (ver, sh.gcw), evals=n)
        return Result(None, outcome=case, evals=n, nontrivial=True)


class ColRanges(Space):
    name = "column ranges"
    bound = "every (first, last) with 0 <= first <= last <= 256 in COLINFO; every range in COLWIDTH and COLUMNDEFAULT; out-of-range records ignored"

    def gen(self):
        for ver in (21, 30, 50, 80):
            for first in range(256):
                yield ver, first

    def judge(self, case):
        ver, first = case
        recs, want, n = b"", {}, 0
        # one sheet per last column would be slow: narrower ranges later in the file replace wider ones
        for last in range(256 if ver >= 30 else 255, first - 1, -1):
            w = 1000 + last
            if ver >= 30:
                recs += B.colinfo(first, last, w, last % NXF)
            else:
                recs += B.colwidth_b2(first, last, w) + B.columndefault_b2(first, [B.attr2(last % NXF)] * (last - first + 1))
            for c in range(first, min(last, 255) + 1):
                want[c] = (w, last % NXF)
        bad = b"" if ver < 30 else B.colinfo(3, 2, 9, 1) + B.colinfo(0, 257, 9, 1) + B.colinfo(300, 300, 9, 1)
        if ver >= 30:
            sh = open_bytes(B.single(ver, recs + bad, pre(ver)), formatting_info=True).sheet_by_index(0)
        else:
            sh = open_bytes(B.single(ver, recs, pre(ver)), formatting_info=True).sheet_by_index(0)
        if sorted(sh.colinfo_map) != sorted(want):
            return Result("BIFF%d: columns with information %r" % (ver, sorted(sh.colinfo_map)))
        for c, (w, x) in want.items():
            n += 1
            ci = sh.colinfo_map[c]
            if (ci.width, ci.xf_index) != (w, x) or sh.computed_column_width(c) != w:
                return Result("BIFF%d: column %d has width %d, xf %d; stored %d, %d" % (ver, c, ci.width, ci.xf_index, w, x), evals=n)
        return Result(None, outcome=case, evals=n)


def patterns(nbits):
    """Zero, every bit, every pair of bits, and their complements."""
    full = (1 << nbits) - 1
    out = []
    for k in (0, 1, 2):
        for bs in itertools.combinations(range(nbits), k):
            w = sum(1 << b for b in bs)
            out += [w, full ^ w]
    return out


ROWBITS2 = [("outline_level", 0, 7), ("outline_group_starts_ends", 4, 1), ("hidden", 5, 1), ("height_mismatch", 6, 1), ("has_default_xf_index", 7, 1),
            ("additional_space_above", 28, 1), ("additional_space_below", 29, 1)]


class RowBits(Space):
    name = "row record fields"
    bound = "every bit and bit pair (set and cleared) of both option words of ROW; heights and rows at boundaries; BIFF2 row forms"

    def gen(self):
        for ver in B.VERSIONS:
            for i in range(0, 1100, 40):
                yield ver, i

    def judge(self, case):
        from struct import pack
        ver, i = case
        n = 0
        if ver < 30:
            return self.biff2(i)
        pats = patterns(32)[i:i + 40]
        hp = patterns(16)
        recs, want = b"", {}
        top = 65535 if ver >= 80 else 16383
        for j, w in enumerate(pats):
            r = (i + j) if j & 1 else top - i - j
            h = hp[(i + j) % len(hp)]
            recs += B.rec(0x0208, pack("<HHHHHHI", r, 0, 256, h, 0, 0, w))
            want[r] = (w, h)
        if ver < 80:
            recs += B.rec(0x0208, pack("<HHHHHHI", 16384, 0, 256, 1, 0, 0, 0))
        sh = open_bytes(B.single(ver, recs, pre(ver)), formatting_info=True).sheet_by_index(0)
        if sorted(sh.rowinfo_map) != sorted(want):
            return Result("BIFF%d: rows with information %r, stored %r" % (ver, sorted(sh.rowinfo_map), sorted(want)))
        for r, (w, h) in want.items():
            ri = sh.rowinfo_map[r]
            exp = {a: (w >> s) & m for a, s, m in ROWBITS2}
            exp["height"] = h & 0x7FFF
            exp["has_default_height"] = h >> 15
            exp["xf_index"] = (w >> 16) & 0xFFF if w & 0x80 else -1
            for a, v in exp.items():
                n += 1
                if getattr(ri, a) != v:
                    return Result("BIFF%d ROW %d options %08x height word %04x: %s is %r, stored %r" % (ver, r, w, h, a, getattr(ri, a), v), evals=n)
        return Result(None, outcome=case, evals=n)

    def biff2(self, i):
        recs, want, n = b"", {}, 0
        hp = patterns(16)
        for j in range(40):
            r = (i + j) % 16384
            h = hp[(i + j) % len(hp)]
            form = (i + j) % 4
            x = (i + j) % NXF
            if form == 0:
                recs += B.row_b2(r, h & 0x7FFF, h >> 15)
                x = -1
            elif form == 1:
                recs += B.row_b2(r, h & 0x7FFF, h >> 15, B.attr2(x, 5, 1, 3))
            elif form == 2:
                recs += B.row_b2(r, h & 0x7FFF, h >> 15, B.attr2(63, 5, 1, 3), x)
            else:
                recs += B.row_b2(r, h & 0x7FFF, h >> 15, B.attr2((x + 1) % NXF), x)
            want[r] = (h, x)
        sh = open_bytes(B.single(21, recs, pre(21)), formatting_info=True).sheet_by_index(0)
        if sorted(sh.rowinfo_map) != sorted(want):
            return Result("BIFF2: rows %r" % sorted(sh.rowinfo_map))
        for r, (h, x) in want.items():
            n += 1
            ri = sh.rowinfo_map[r]
            got = (ri.height, ri.has_default_height, ri.has_default_xf_index, ri.xf_index)
            if got != (h & 0x7FFF, h >> 15, int(x >= 0), x):
                return Result("BIFF2 row %d: %r, stored height word %04x xf %d" % (r, got, h, x), evals=n)
        return Result(None, outcome=("b2", i), evals=n)


class RowNeighbours(Space):
    """Row records which differ from one another in one or two bits, in one sheet and in two, in both orders: no row may get another's attributes."""
    name = "rows differing by few bits"
    bound = "around 5 base rows: every single-bit change (thorough: also every two-bit change) of height and option words, all in one sheet, ascending and descending, and again in a second sheet"
    BASES = [(255, 0x100), (0xFFFF, 0xFFFFFFFF), (0x8000, 0), (300, 0x000F01C3), (0x80FF, 0x30120080)]

    def __init__(self, q):
        self.q = q

    def gen(self):
        for ver in B.VERSIONS[1:]:
            for b in range(len(self.BASES)):
                for order in (0, 1):
                    if self.q:
                        yield ver, b, order, None
                    else:
                        for k in range(48):
                            yield ver, b, order, k

    def judge(self, case):
        from struct import pack
        ver, b, order, k = case
        h0, w0 = self.BASES[b]
        base = h0 | w0 << 16
        words = [base]
        for i in range(48):
            words += [base ^ (1 << i), base]
            if k is not None and k != i:
                words += [base ^ (1 << i) ^ (1 << k)]
        if order:
            words.reverse()
        shs = []
        for seq in (words, words[1:] + words[:1]):
            body = b"".join(B.rec(0x0208, pack("<HHHHHHI", r, 0, 256, w & 0xFFFF, 0, 0, w >> 16)) for r, w in enumerate(seq))
            shs.append((body, seq))
            if ver < 50:
                break
        if ver < 50:
            data = B.single(ver, shs[0][0], pre(ver))
        else:
            data = B.workbook(ver, [B.Sh("S%d" % i, x[0]) for i, x in enumerate(shs)], pre(ver))
        bk = open_bytes(data, formatting_info=True)
        n = 0
        for sh, (body, seq) in zip(bk.sheets(), shs):
            for r, v in enumerate(seq):
                ri = sh.rowinfo_map.get(r)
                n += 1
                if ri is None:
                    return Result("BIFF%d: row %d has no information" % (ver, r), evals=n)
                h, w = v & 0xFFFF, v >> 16
                exp = {a: (w >> s) & m for a, s, m in ROWBITS2}
                exp["height"] = h & 0x7FFF
                exp["has_default_height"] = h >> 15
                exp["xf_index"] = (w >> 16) & 0xFFF if w & 0x80 else -1
                for a, x in exp.items():
                    if getattr(ri, a) != x:
                        return Result("BIFF%d ROW %d (among similar rows) options %08x height word %04x: %s is %r, stored %r" % (ver, r, w, h, a, getattr(ri, a), x), evals=n)
        return Result(None, outcome=case, evals=n)


class RowNeighbours2(Space):
    name = "BIFF2 rows differing by few bits"
    bound = "every single-bit change of the height word and of the XF index of 3 base rows with and without default attributes, in one sheet, in both orders"

    def gen(self):
        for h in (255, 0x80FF, 0xFFFF):
            for x in range(NXF):
                for order in (0, 1):
                    yield h, x, order

    def judge(self, case):
        h0, x0, order = case
        rows = [(h0, x0)]
        for i in range(16):
            rows += [(h0 ^ (1 << i), x0), (h0, x0), (h0, None)]
        for x in range(NXF):
            rows += [(h0, x), (h0 ^ 0x8000, x), (h0 ^ 0x8000, None)]
        if order:
            rows.reverse()
        body = b"".join(B.row_b2(r, h & 0x7FFF, h >> 15, None if x is None else B.attr2(x)) for r, (h, x) in enumerate(rows))
        sh = open_bytes(B.single(21, body, pre(21)), formatting_info=True).sheet_by_index(0)
        for r, (h, x) in enumerate(rows):
            ri = sh.rowinfo_map[r]
            got = (ri.height, ri.has_default_height, ri.has_default_xf_index, ri.xf_index)
            if got != (h & 0x7FFF, h >> 15, int(x is not None), -1 if x is None else x):
                return Result("BIFF2 row %d: %r, stored height word %04x xf %r" % (r, got, h, x))
        return Result(None, outcome=case, evals=len(rows))


class ColBits(Space):
    name = "column record fields"
    bound = "every bit and bit pair of the COLINFO option word, boundary widths and XF indexes, BIFF3..8"

    def gen(self):
        for ver in B.VERSIONS[1:]:
            yield ver,

    def judge(self, case):
        from struct import pack
        ver, = case
        n = 0
        hp = patterns(16)
        for i in range(0, len(hp), 200):
            recs, want = b"", {}
            for j, w in enumerate(hp[i:i + 200]):
                wid, xf = hp[(7 * (i + j) + 3) % len(hp)], j % NXF
                recs += B.rec(0x007D, pack("<HHHHHH", j, j, wid, xf, w, 0))
                want[j] = (wid, xf, w & 1, w >> 1 & 1, w >> 8 & 7, w >> 12 & 1)
            sh = open_bytes(B.single(ver, recs, pre(ver)), formatting_info=True).sheet_by_index(0)
            for c, x in want.items():
                n += 1
                ci = sh.colinfo_map[c]
                got = (ci.width, ci.xf_index, ci.hidden, ci.bit1_flag, ci.outline_level, ci.collapsed)
                if got != x:
                    return Result("BIFF%d COLINFO column %d: (width, xf, hidden, bit1, outline, collapsed) = %r, stored %r" % (ver, c, got, x), evals=n)
        return Result(None, outcome=case, evals=n)


class Without(Space):
    name = "without formatting_info"
    bound = "all versions"

    def gen(self):
        return ((v,) for v in B.VERSIONS)

    def judge(self, case):
        ver, = case
        sh = open_bytes(B.single(ver, rowrec(ver, 0, 3) + colrec(ver, 0, 4) + B.number(ver, 0, 0, 1.0, cx(ver, 0)), pre(ver))).sheet_by_index(0)
        for fn in (lambda: sh.cell_xf_index(0, 0), lambda: sh.computed_column_width(0)):
            if not raises(XLRDError, fn):
                return Result("BIFF%d: no XLRDError without formatting_info" % ver)
        if sh.cell(0, 0).xf_index is not None or sh.rowinfo_map or sh.colinfo_map:
            return Result("BIFF%d: formatting information without formatting_info" % ver)
        return Result(None, outcome=case)


def spaces(tier):
    q = tier == "quick"
    return [Hierarchy(("absent", "number", "blank") if q else ("absent", "number", "blank", "label")), Widths(q), ColRanges(), RowBits(), RowNeighbours(q), RowNeighbours2(), ColBits(), Without(), neigh.Neigh(neigh.columns, "columns")]
