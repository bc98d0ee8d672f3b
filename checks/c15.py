"""C15: the same logical sheet stored in any BIFF version reads the same."""
import itertools
from struct import pack
import biff as B
from mc import Space, Result
from xl import *

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of small logical worksheets x BIFF versions x record layouts, and of the forms of the BOF record, against the logical sheet itself"
NOTE = ("Every assignment of 12 kinds of content to a 2x2 grid (thorough: 3x2) in all 8 versions and every record layout the version offers; every kind and layout at boundary addresses; "
        "every BOF opcode, length, version field, build and year class; sheet BOFs that contradict the workbook's.")
RULE = "A case is one logical sheet in all versions (or one BOF form). Every non-empty sheet is non-trivial."
ASSUMPTIONS = ["the cell formats are General and one date format", "a version's layouts are those of the published record descriptions"]

VERS = (20, 21, 30, 40, 45, 50, 70, 80)
ERRS = (0x00, 0x07, 0x0F, 0x17, 0x1D, 0x24, 0x2A)
# logical contents: (type, value, date?)
KINDS = [None, (2, 1.5), (2, 7.0), (3, 36526.75), (1, "t\xe9x"), (1, ""), (4, 1), (4, 0), (5, 7), (5, 42), (2, -12.34), (3, 60000.0)]


def pre(ver):
    o = B.font(min(ver, 80) if ver > 20 else 21)
    if ver < 50:
        v = 21 if ver == 20 else ver
        o += B.fmt(v, 0, "General") + B.fmt(v, 1, "d/m/yy")
        if ver == 20:
            return o
        return o + B.xf(v, 0) + B.xf(v, 1)
    return o + B.xf(ver, 0) + B.xf(ver, 14)


def attr(ver, date):
    if ver == 20:
        return B.attr2(0, int(date))
    if ver == 21:
        return B.attr2(int(date), int(date))
    return int(date)


def rkbits(v):
    for flag, x in ((2, v), (3, v * 100)):
        if x == int(x) and -(1 << 29) <= x < 1 << 29 and (int(x) / 100 if flag & 1 else int(x)) == v:
            return (int(x) & 0x3FFFFFFF) << 2 | flag
    b = pack("<d", v)
    if b[:4] == b"\0\0\0\0" and not b[4] & 3:
        return int.from_bytes(b[4:], "little")
    return None


def layouts(ver, r, c, kind):
    """Every record (sequence) that stores this content in this version."""
    t, v = kind
    x = attr(ver, t == 3)
    w = 21 if ver == 20 else ver
    out = []
    if t in (2, 3):
        out.append(B.number(w, r, c, v, x))
        out.append(B.formula(w, r, c, v, x))
        k = rkbits(v)
        if w < 30 and v == int(v) and 0 <= v < 65536:
            out.append(B.integer2(r, c, int(v), x))
        if w >= 30 and k is not None:
            out.append(B.rk(r, c, k, x))
        if w >= 50 and k is not None:
            out.append(B.mulrk(r, c, [(x, k)]))
    elif t == 1:
        out.append(B.label(w, r, c, v, x))
        if v:
            out.append(B.formula(w, r, c, B.RES_STRING, x) + B.string_rec(w, v))
        else:
            out.append(B.formula(w, r, c, B.RES_EMPTY, x))
        if w >= 50:
            out.append(B.rstring(w, r, c, v, [(0, 0)], x))
        if w >= 80:
            out.append(B.labelsst(r, c, 1 if v else 2, x))
    else:
        out.append(B.boolerr(w, r, c, v, t == 5, x))
        out.append(B.formula(w, r, c, B.res_err(v) if t == 5 else B.res_bool(v), x))
    return out


def book(ver, body, bofrec=None, **k):
    p = pre(ver)
    if ver in (20, 21):
        data = B.single(21, body, p)
    elif ver == 80:
        return B.workbook(80, [B.Sh("Sheet1", body)], pre=p, post=B.sst(["junk", "t\xe9x", ""]))
    else:
        data = B.single(ver, body, p)
    return data


def expect(cells):
    """cells: {(r, c): kind} -> grid of (type, value)."""
    if not cells:
        return []
    nr = 1 + max(r for r, c in cells)
    nc = 1 + max(c for r, c in cells)
    return [[cells.get((r, c), (0, "")) for c in range(nc)] for r in range(nr)]


def same(got, want):
    if len(got) != len(want):
        return "%d rows, should be %d" % (len(got), len(want))
    for r, (a, b) in enumerate(zip(got, want)):
        if len(a) != len(b):
            return "row %d has %d cells, should have %d" % (r, len(a), len(b))
        for c, (x, y) in enumerate(zip(a, b)):
            if x[0] != y[0] or not veq(x[1], y[1]):
                return "cell (%d,%d) is %r, stored %r" % (r, c, x, y)
    return None


class Grids(Space):
    bound = "all assignments of %d contents, 8 versions, all layouts in rotation, with and without DIMENSIONS" % len(KINDS)

    def __init__(self, rows, cols, kinds):
        self.rows, self.cols, self.kinds = rows, cols, kinds
        self.name = "all %dx%d sheets" % (rows, cols)

    def gen(self):
        n = self.rows * self.cols
        k = len(self.kinds)
        for i in range(0, k ** n, k * k):
            yield i

    def judge(self, i0):
        n = self.rows * self.cols
        k = len(self.kinds)
        ev, outs = 0, set()
        for i in range(i0, i0 + k * k):
            x, ks = i, []
            for _ in range(n):
                x, m = divmod(x, k)
                ks.append(self.kinds[m])
            cells = {(j // self.cols, j % self.cols): kd for j, kd in enumerate(ks) if kd}
            want = expect(cells)
            for vi, ver in enumerate(VERS):
                body = b""
                for j, ((r, c), kd) in enumerate(sorted(cells.items())):
                    ls = layouts(ver, r, c, kd)
                    body += ls[(i + vi + j) % len(ls)]
                w = 21 if ver == 20 else ver
                if i & 1:
                    body = B.dimensions(w, 0, len(want), 0, len(want[0]) if want else 0) + body
                bk = open_bytes(book(ver, body), formatting_info=bool((i + vi) & 2))
                ev += 1
                bv = 21 if ver == 20 and not cells else ver
                if bk.biff_version != bv:
                    return Result("BIFF%d file: biff_version is %r" % (ver, bk.biff_version), evals=ev)
                if bk.nsheets != 1 or len(bk.sheets()) != 1:
                    return Result("BIFF%d: %d sheets" % (ver, bk.nsheets), evals=ev)
                f = same(grid(bk.sheet_by_index(0)), want)
                if f:
                    return Result("BIFF%d, sheet %r: %s" % (ver, cells, f), evals=ev)
            outs.add(repr(want))
        return Result(None, outcome=(i0, len(outs)), evals=ev, nontrivial=True)


class Layouts(Space):
    name = "every layout at boundary addresses"
    bound = "all kinds and error codes x layouts x 8 versions x 24 addresses, ragged and not"

    def gen(self):
        for ver in VERS:
            for r in (0, 1, 255, 256, 16383) + ((16384, 65535) if ver == 80 else ()):
                for c in (0, 1, 127, 255):
                    if r >= 16383 and c > 1:
                        continue
                    yield ver, r, c

    def judge(self, case):
        ver, r, c = case
        n = 0
        kinds = [k for k in KINDS if k] + [(5, e) for e in ERRS] + [(2, v) for v in (0.0, 65535.0, 65536.0, 1e300, -1.0, 0.01, 123456.78)]
        for kd in kinds:
            for rec in layouts(ver, r, c, kd):
                for ragged in (True, False) if r <= 256 or (c == 0 and kd == (2, 1.5)) else (True,):
                    sh = open_bytes(book(ver, rec), ragged_rows=ragged).sheet_by_index(0)
                    n += 1
                    if (sh.nrows, sh.ncols) != (r + 1, c + 1):
                        return Result("BIFF%d cell at (%d,%d): dimensions %r" % (ver, r, c, (sh.nrows, sh.ncols)), evals=n)
                    got = sh.cell_type(r, c), sh.cell_value(r, c)
                    if got[0] != kd[0] or not veq(got[1], kd[1]):
                        return Result("BIFF%d cell at (%d,%d) is %r, stored %r" % (ver, r, c, got, kd), evals=n)
                    if sh.row_len(r) != c + 1 or any(sh.row_types(r, 0, c)) or (r and sh.row_len(0) != (0 if ragged else c + 1)):
                        return Result("BIFF%d cell at (%d,%d): neighbours not empty" % (ver, r, c), evals=n)
        return Result(None, outcome=case, evals=n)


def bof_forms():
    """(BOF record bytes, content version, expected biff_version)"""
    out = []
    for ln in (4, 5, 6, 8, 12, 16, 20):
        for v2 in (0, 2, 7, 0x200, 0x300, 0x500, 0x600, 0xFFFF):
            out.append((0x0009, ln, v2, 0x10, 0, 0, 21, 21))
    for ln in (4, 5, 6, 8, 16):
        for v2 in (0, 0x300, 0x400, 0x200):
            out.append((0x0209, ln, v2, 0x10, 0, 0, 30, 30))
            out.append((0x0409, ln, v2, 0x10, 0, 0, 40, 40))
            out.append((0x0409, ln, v2, 0x100, 0, 0, 45, 45))
    for ln in (8, 12, 16, 20):
        for build in (0, 1, 2411, 2412, 2413, 3218, 3219, 3321, 4000, 0x1234, 0xFFFF):
            for year in (0, 1, 1992, 1993, 1994, 1995, 1996, 1997, 2003, 0xFFFF):
                out.append((0x0809, ln, 0x0600, 5, build, year, 80, 80))
                old = year < 1994 or build in (2412, 3218, 3321)
                out.append((0x0809, ln, 0x0500, 5, build, year, 50, 50 if old else 70))
    for ln in (4, 6):       # build and year missing
        out.append((0x0809, ln, 0x0500, 5, 0, 0, 50, 50))
        out.append((0x0809, ln, 0x0600, 5, 0, 0, 80, 80))
    for ln in (4, 6, 8, 16):
        for v2, v in ((0, 21), (7, 21), (0x200, 21), (0x300, 30), (0x400, 40)):
            for year in (0, 1993, 1997):
                out.append((0x0809, ln, v2, 0x10, 0, year, v, v))
    return out


class Bofs(Space):
    name = "BOF forms"

    def __init__(self):
        self.bound = "%d forms of the first BOF record, 3 load modes" % len(bof_forms())

    def gen(self):
        for i in range(len(bof_forms())):
            yield i

    def judge(self, i):
        op, ln, v2, st, build, year, content, want = bof_forms()[i]
        body = (pack("<HHHH", v2, st, build, year) + b"\x41\0\0\0\x06" + b"\0" * 20)[:ln]
        rec = B.rec(op, body)
        cells = B.number(content, 0, 1, 2.5, attr(content, 0)) + B.label(content, 1, 0, "abc", attr(content, 0))
        if content < 45:
            data = rec + pre(content) + cells + B.EOF
        elif content == 45:
            std = B.workbook4w([("Sheet1", pre(45) + cells)])
            old = len(B.bof(45, B.GLOBALS4W))
            data = rec + std[old:]
        else:
            sub = B.bof(content) + cells + B.EOF
            g = lambda off: rec + pre(content) + B.boundsheet(content, off, "Sheet1") + B.EOF
            data = g(len(g(0))) + sub
        for kw in (dict(), dict(formatting_info=True), dict(on_demand=True, verbosity=1)):
            bk = open_bytes(data, **kw)
            if bk.biff_version != want:
                return Result("BOF %04x length %d version %04x type %04x build %d year %d: biff_version %r, should be %d" % (op, ln, v2, st, build, year, bk.biff_version, want))
            f = same(grid(bk.sheet_by_index(0)), [[(0, ""), (2, 2.5)], [(1, "abc"), (0, "")]])
            if f:
                return Result("BOF %04x length %d version %04x: %s" % (op, ln, v2, f))
        return Result(None, outcome=(op, ln, v2, want), evals=3)


class SheetBofs(Space):
    name = "sheet BOFs"
    bound = "every BOF opcode, length and version field on the sheet substreams of BIFF 4W..8 workbooks"

    def gen(self):
        for ver in (45, 50, 70, 80):
            for op in (0x0009, 0x0209, 0x0409, 0x0809):
                for ln in (4, 6, 8, 12, 16, 20):
                    for v2 in (0, 0x200, 0x300, 0x400, 0x500, 0x600):
                        yield ver, op, ln, v2

    def judge(self, case):
        ver, op, ln, v2 = case
        rec = B.rec(op, (pack("<HHHH", v2, 0x10, 0x1234, 1996) + b"\0" * 20)[:ln])
        x = 0
        cells = B.number(ver, 0, 1, 2.5, x) + B.label(ver, 1, 0, "abc", x) + B.formula(ver, 0, 0, B.RES_STRING, x) + B.string_rec(ver, "fs")
        if ver == 45:
            std = B.workbook4w([("Sheet1", pre(45) + cells)])
            old = B.bof(40)
            k = std.rindex(old)
            body = rec + std[k + len(old):-4]
            data = std[:k] + body + B.EOF
            hdr = std.index(pack("<HH", 0x008F, 11))
            data = data[:hdr + 4] + pack("<i", len(body)) + data[hdr + 8:]
        else:
            data = B.workbook(ver, [B.Sh("Sheet1", cells, bofrec=rec), B.Sh("Two", cells)], pre=pre(ver))
        n = 0
        for kw in (dict(), dict(on_demand=True)):
            bk = open_bytes(data, **kw)
            for sh in bk.sheets():
                n += 1
                if bk.biff_version != ver:
                    return Result("BIFF%d: biff_version %r after a sheet with BOF %04x/%04x" % (ver, bk.biff_version, op, v2))
                f = same(grid(sh), [[(1, "fs"), (2, 2.5)], [(1, "abc"), (0, "")]])
                if f:
                    return Result("BIFF%d with sheet BOF %04x length %d version %04x: %s" % (ver, op, ln, v2, f))
        return Result(None, outcome=case, evals=n)


class XfIndexes(Space):
    """Whether a number is a date depends on the cell's format alone, whatever its index and however the version stores it."""
    name = "format indexes"
    bound = "every format index 0..127 (BIFF2.0: 0..63, BIFF2.1: from 63 on with IXFE) and boundaries to 4000, every layout of a number, boolean, error and text, 8 versions"

    def gen(self):
        for ver in VERS:
            for k in range(64 if ver == 20 else 128):
                yield ver, k
            if ver > 20:
                for k in (254, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4000):
                    yield ver, k

    def judge(self, case):
        ver, k = case
        date = lambda i: i % 3 == 1
        x = k
        pre, ixfe = B.font(21 if ver == 20 else ver), b""
        w = 21 if ver == 20 else ver
        if ver == 20:
            pre += b"".join(B.fmt(21, i, "d/m/yy" if date(i) else "0.00") for i in range(64))
            x = B.attr2(0, k)
        else:
            if ver < 50:
                pre += B.fmt(ver, 0, "0.00") + B.fmt(ver, 1, "d/m/yy")
            nf, df = (0, 1) if ver < 50 else (2, 14)
            pre += b"".join(B.xf(ver, df if date(i) else nf) for i in range(k + 3))
            if ver == 21:
                x = B.attr2(min(k, 63), 0)
                if k >= 63:
                    ixfe = B.rec(0x0044, pack("<H", k))
        cells, want, r = ixfe, {}, 0
        for kind in ((2, 1.5), (2, 7.0), (4, 1), (5, 42), (1, "t\xe9x"), (1, "")):
            t = 3 if kind[0] == 2 and date(k) else kind[0]
            for rec in range(9):
                for prot in ((0, 0x40, 0x80, 0xC0) if ver == 21 and not rec else (0,)):
                    y = x
                    if prot:
                        y = bytes([x[0] | prot]) + x[1:]
                    ls = records(w, r, 0, kind, y)
                    if rec < len(ls):
                        cells += ls[rec]
                        want[r, 0] = (t, kind[1])
                        r += 1
        data = book2(ver, cells, pre)
        n = 0
        for fi in (False, True):
            sh = open_bytes(data, formatting_info=fi).sheet_by_index(0)
            f = same(grid(sh), expect(want))
            if f:
                return Result("BIFF%d format index %d (formatting_info=%r): %s" % (ver, k, fi, f))
            n += r
            if fi and ver > 20:
                for i in range(r):
                    if sh.cell_xf_index(i, 0) != k:
                        return Result("BIFF%d: cell_xf_index(%d, 0) is %d, stored %d" % (ver, i, sh.cell_xf_index(i, 0), k))
        return Result(None, outcome=case, evals=n)


class Ixfe(Space):
    name = "BIFF2.1 index extensions"
    bound = "every sequence of 4 cells over the direct indexes 1, 2, 61, 62 and the extended 63, 64, 65 (a new IXFE record only when the index changes, or always)"

    def gen(self):
        for always in (0, 1):
            for seq in itertools.product((1, 2, 61, 62, 63, 64, 65), repeat=4):
                yield always, seq

    def judge(self, case):
        always, seq = case
        pre = B.font(21) + B.fmt(21, 0, "0.00") + B.fmt(21, 1, "d/m/yy") + b"".join(B.xf(21, i % 2) for i in range(67))
        cells, cur = b"", None
        for r, k in enumerate(seq):
            if k >= 63 and (always or cur != k):
                cells += B.rec(0x0044, pack("<H", k))
                cur = k
            cells += (B.number(21, r, 0, r + 0.5, B.attr2(min(k, 63))) if r % 2 else B.integer2(r, 0, r, B.attr2(min(k, 63))))
        sh = open_bytes(B.single(21, cells, pre), formatting_info=True).sheet_by_index(0)
        got = [(sh.cell_type(r, 0), sh.cell_xf_index(r, 0), sh.cell_value(r, 0)) for r in range(4)]
        want = [(2 + k % 2, k, r + 0.5 * (r % 2)) for r, k in enumerate(seq)]
        return Result(None if got == want else "BIFF2.1 cells with XF %r: (type, xf, value) %r" % (seq, got), outcome=case)


def records(w, r, c, kind, x):
    """Like layouts(), with a given XF index or attribute bytes."""
    t, v = kind
    out = []
    if t == 2:
        out = [B.number(w, r, c, v, x), B.formula(w, r, c, v, x)]
        k = rkbits(v)
        if w < 30 and v == int(v):
            out.append(B.integer2(r, c, int(v), x))
        if w >= 30:
            out.append(B.rk(r, c, k, x))
        if w >= 50:
            out.append(B.mulrk(r, c, [(x, k)]))
    elif t == 1:
        out = [B.label(w, r, c, v, x), B.formula(w, r, c, B.RES_STRING, x) + B.string_rec(w, v) if v else B.formula(w, r, c, B.RES_EMPTY, x)]
        if w >= 50:
            out.append(B.rstring(w, r, c, v, [(0, 0)], x))
        if w >= 80:
            out.append(B.labelsst(r, c, 1 if v else 2, x))
    else:
        out = [B.boolerr(w, r, c, v, t == 5, x), B.formula(w, r, c, B.res_err(v) if t == 5 else B.res_bool(v), x)]
    return out


def book2(ver, body, pre):
    if ver == 80:
        return B.workbook(80, [B.Sh("Sheet1", body)], pre=pre, post=B.sst(["junk", "t\xe9x", ""]))
    return B.single(21 if ver == 20 else ver, body, pre)


def spaces(tier):
    q = tier == "quick"
    out = [Layouts(), XfIndexes(), Ixfe(), Bofs(), SheetBofs(), Grids(2, 1, KINDS), Grids(1, 3, KINDS[:9] if q else KINDS), Grids(2, 2, KINDS[:8] if q else KINDS)]
    if not q:
        out.append(Grids(3, 2, KINDS[:7]))
    return out
