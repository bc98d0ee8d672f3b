"""C10: numeric cells carry exactly the stored number."""
import itertools
from fractions import Fraction
from struct import pack, unpack
import biff as B
from mc import Space, Result
from xl import *

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of packed-number encodings and record shapes, each decoded by the real reader and compared bit for bit with exact rational arithmetic"
NOTE = ("All RK words with up to three bits set or cleared per flag combination, all small and all boundary integers, every sign/exponent with boundary mantissas, all BIFF2 "
        "integers, all MULRK lengths and positions, doubles in NUMBER, RK and FORMULA records of every version, date and plain formats, and pairs of encodings that differ in one bit in one sheet. Oracle: fractions.")
RULE = "A case is a block of encodings in one workbook; evaluations = cells compared bit for bit. Every case is non-trivial."
ASSUMPTIONS = ["NaN payloads are not compared (Excel never stores NaN)"]


def dbits(v):
    return unpack("<Q", pack("<d", v))[0]


def rk_value(w):
    """The number a 32-bit RK word stands for."""
    if w & 2:
        i = (w >> 2) - (1 << 30 if w >> 31 else 0)
        q = Fraction(i, 100 if w & 1 else 1)
        return float(q) if q else 0.0
    d = unpack("<d", pack("<Q", (w & 0xFFFFFFFC) << 32))[0]
    if w & 1:
        if d != d or d in (float("inf"), float("-inf")):
            return d
        if d == 0:
            return d
        try:
            return float(Fraction(d) / 100)
        except OverflowError:
            return d
    return d


def pre(ver):
    o = B.font(ver)
    if ver < 50:
        o += B.fmt(ver, 0, "General") + B.fmt(ver, 1, "d/m/yy")
        return o + B.xf(ver, 0) + B.xf(ver, 1)
    return o + B.xf(ver, 0) + B.xf(ver, 14)


def xfi(ver, k):
    return k if ver >= 30 else B.attr2(k, k)


def verify(sh, want, r0=0, ctype=None):
    """want: {(r, c): (value, is_date)}"""
    n = 0
    for (r, c), (v, d) in want.items():
        got = sh.cell_value(r, c)
        t = sh.cell_type(r, c)
        n += 1
        if type(got) is not float:
            return "cell (%d,%d): %r is not a float" % (r, c, got), n
        if not (got != got and v != v) and dbits(got) != dbits(v):
            return "cell (%d,%d): %r (%016x), stored %r (%016x)" % (r, c, got, dbits(got), v, dbits(v)), n
        if t != (XL_CELL_DATE if d else XL_CELL_NUMBER):
            return "cell (%d,%d): type %d, should be %s" % (r, c, t, "date" if d else "number"), n
    return None, n


class RK(Space):
    """RK words in RK and MULRK records."""

    def __init__(self, name, words, block=8192, vers=(50, 80)):
        self.name, self.words, self.block, self.vers = name, words, block, vers
        self.bound = "%d words in each of RK and MULRK records" % (words() if callable(words) and isinstance(words(), int) else len(words))

    def gen(self):
        for i in range(0, len(self.words), self.block):
            yield i

    def judge(self, i):
        ws = self.words[i:i + self.block]
        want, recs, n = {}, [], 0
        for k in range(0, len(ws), 250):
            row = ws[k:k + 250]
            r = k // 250
            recs.append(B.mulrk(r, 3, [((c & 1), w) for c, w in enumerate(row)]))
            for c, w in enumerate(row):
                want[r, 3 + c] = (rk_value(w), bool(c & 1))
            for c, w in enumerate(row[:3]):
                pass
        r0 = 1000
        single = []
        for k, w in enumerate(ws):
            single.append(B.rk(r0 + k // 256, k & 255, w, 1 - (k & 1)))
            want[r0 + k // 256, k & 255] = (rk_value(w), not (k & 1))
        for ver in self.vers:
            data = B.single(ver, b"".join(recs) + b"".join(single), pre(ver))
            for fmt in (False,):
                f, m = verify(open_bytes(data, formatting_info=fmt).sheet_by_index(0), want)
                n += m
                if f:
                    return Result("BIFF%d: %s" % (ver, f), evals=n)
        return Result(None, outcome=(i, len(ws)), evals=n)


class Range(object):
    """A lazily computed list of words."""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __len__(self):
        return self.n

    def __getitem__(self, sl):
        return [self.fn(i) for i in range(*sl.indices(self.n))]


def pattern_words():
    ws = set()
    for flags in range(4):
        for base in (0, 0xFFFFFFFC, 0x3FF00000, 0x40000000, 0x80000000, 0x7FF00000, 0x55555554, 0xAAAAAAA8, 0x41DFFFFC):
            for k in (0, 1, 2, 3):
                if k == 3 and base not in (0, 0xFFFFFFFC):
                    continue
                for bits in itertools.combinations(range(2, 32), k):
                    w = base
                    for b in bits:
                        w ^= 1 << b
                    ws.add((w & 0xFFFFFFFC) | flags)
        for e in range(4096):
            for m in (0, 1 << 2, 0xFFFFC, 0x80000, 0x7FFFC, 0x55554, 0xAAAA8):
                ws.add(e << 20 | m | flags)
        for k in range(31):
            for d in range(-6, 7):
                for s in (1, -1):
                    ws.add(((s * ((1 << k) + d)) & 0x3FFFFFFF) << 2 | flags)
                    ws.add(((s * (10 ** min(k, 9) + d)) & 0x3FFFFFFF) << 2 | flags)
    return sorted(ws)


DOUBLES = None


def doubles():
    """Boundary doubles as 64-bit patterns: every sign and exponent with boundary mantissas, bit patterns."""
    global DOUBLES
    if DOUBLES is None:
        out = []
        for e in range(4096):
            for m in (0, 1, (1 << 52) - 1, 1 << 51, 0x5555555555555):
                out.append(e << 52 | m)
        for k in (1, 2):
            for bits in itertools.combinations(range(64), k):
                w = 0
                for b in bits:
                    w |= 1 << b
                out += [w, 0x3FF0000000000000 ^ w, (1 << 64) - 1 - w]
        DOUBLES = [w for w in out]
    return DOUBLES


class Doubles(Space):
    name = "doubles in NUMBER and FORMULA records"

    def __init__(self, q):
        self.q = q
        self.bound = "%d patterns, every version" % len(doubles())

    def gen(self):
        for ver in B.VERSIONS:
            for kind in ("number", "formula"):
                for i in range(0, len(doubles()), 4096):
                    yield ver, kind, i

    def judge(self, case):
        ver, kind, i = case
        want, recs = {}, []
        for k, w in enumerate(doubles()[i:i + 4096]):
            b = pack("<Q", w)
            v = unpack("<d", b)[0]
            if kind == "formula" and b[6:] == b"\xff\xff":
                continue
            if v != v:
                continue
            d = k & 1
            f = B.number if kind == "number" else B.formula
            recs.append(f(ver, k >> 8, k & 255, b, xfi(ver, d)))
            want[k >> 8, k & 255] = (v, bool(d))
        f, n = verify(open_bytes(B.single(ver, b"".join(recs), pre(ver))).sheet_by_index(0), want)
        return Result(f and "BIFF%d %s: %s" % (ver, kind, f), outcome=case, evals=n)


class Integers(Space):
    name = "BIFF2 integers"
    bound = "all 65536 values, plain and date format"

    def gen(self):
        return iter(range(0, 65536, 8192))

    def judge(self, i):
        recs, want = [], {}
        for k in range(8192):
            d = k & 1
            recs.append(B.integer2(k >> 8, k & 255, i + k, xfi(21, d)))
            want[k >> 8, k & 255] = (float(i + k), bool(d))
            recs.append(B.integer2(100 + (k >> 8), k & 255, i + k, xfi(21, 1 - d)))
            want[100 + (k >> 8), k & 255] = (float(i + k), not d)
        f, n = verify(open_bytes(B.single(21, b"".join(recs), pre(21))).sheet_by_index(0), want)
        return Result(f, outcome=i, evals=n)


class Shapes(Space):
    name = "multi-cell record shapes"
    bound = "every first column and length of MULRK, between other records, RK in BIFF3..8, both padding modes"

    def gen(self):
        for c0 in range(256):
            for ver in (50, 70, 80):
                yield ver, c0

    def judge(self, case):
        ver, c0 = case
        recs, want, n = [], {}, 0
        r = 0
        for ln in range(1, 257 - c0):
            items = [((c0 + j) % 2, ((r * 7 + j) & 0xFFFFF) << 2 | (j & 3)) for j in range(ln)]
            recs.append(B.mulrk(r, c0, items))
            for j, (x, w) in enumerate(items):
                want[r, c0 + j] = (rk_value(w), bool(x))
            r += 1
        for ragged in (False, True):
            sh = open_bytes(B.single(ver, b"".join(recs), pre(ver)), ragged_rows=ragged).sheet_by_index(0)
            f, m = verify(sh, want)
            n += m
            if not f and ragged:
                for row in range(sh.nrows):
                    if sh.row_len(row) != c0 + row + 1:
                        f = "row %d is %d long" % (row, sh.row_len(row))
            if not f and any(sh.cell_type(row, c) != 0 for row in (0, sh.nrows - 1) for c in range(c0)):
                f = "cells before the record are not empty"
            if f:
                return Result("BIFF%d: %s" % (ver, f), evals=n)
        return Result(None, outcome=case, evals=n)


class OldRK(Space):
    name = "RK in BIFF3 and BIFF4"
    bound = "boundary words, both flags, both formats"

    def gen(self):
        for ver in (30, 40, 45):
            for i in range(0, len(pattern_words()), 8192):
                yield ver, i

    def judge(self, case):
        ver, i = case
        recs, want = [], {}
        for k, w in enumerate(pattern_words()[i:i + 8192]):
            recs.append(B.rk(k >> 8, k & 255, w, k & 1))
            want[k >> 8, k & 255] = (rk_value(w), bool(k & 1))
        f, n = verify(open_bytes(B.single(ver, b"".join(recs), pre(ver))).sheet_by_index(0), want)
        return Result(f and "BIFF%d: %s" % (ver, f), outcome=case, evals=n)


class Neighbours(Space):
    """A cell and the one before it differ in nothing but a single bit."""
    name = "neighbouring cells that differ in one bit"
    bound = "every bit of 24 RK words in MULRK and RK records, of 24 doubles in NUMBER and FORMULA records and of 24 BIFF2 integers; before, after and between cells with the unchanged word; also the format alone"
    WORDS = (0x00000002, 0x00000003, 0x00000006, 0xFFFFFFFE, 0xFFFFFFFF, 0x3FF00000, 0x3FF00001, 0xC0590001, 0x41DFFFFC, 0x00001002, 0x01000002, 0x80000002,
             0x7FFFFFFE, 0x7FFFFFFF, 0x40590000, 0x12345676, 0x12345677, 0x00C80003, 0x0000FFFE, 0xFF000003, 0x55555556, 0xAAAAAAAB, 0x3E112E0C, 0x00000190)

    def gen(self):
        for kind in ("mulrk", "rk", "number", "formula", "int2"):
            for ver in (B.VERSIONS if kind in ("number", "formula") else (21,) if kind == "int2" else (50, 70, 80)):
                for i in range(len(self.WORDS)):
                    yield kind, ver, i

    def judge(self, case):
        kind, ver, i = case
        w = self.WORDS[i]
        nbits = 16 if kind == "int2" else 32 if "rk" in kind else 64
        if kind == "int2":
            w = (w ^ w >> 16) & 0xFFFF
        elif nbits == 64:
            w = (w & 0xFFFFFFFC) << 32 | (w * 0x01000193 & 0xFFFFFFFF if i & 1 else 0)
        recs, want = [], {}

        def value(x):
            return float(x) if kind == "int2" else rk_value(x) if nbits == 32 else unpack("<d", pack("<Q", x))[0]

        def ok(x):
            v = value(x)
            return v == v and not (kind == "formula" and x >> 48 == 0xFFFF)
        for b in range(nbits):
            x = w ^ 1 << b
            if not (ok(x) and ok(w)):
                continue
            cells = [(w, 0), (x, 0), (w, 0), (w, 1), (x, 1), (w, 0), (x, 1), (x, 0)]
            if kind == "mulrk":
                recs.append(B.mulrk(b, 0, [(f, v) for v, f in cells]))
            for c, (v, f) in enumerate(cells):
                want[b, c] = (value(v), bool(f))
                if kind == "rk":
                    recs.append(B.rk(b, c, v, f))
                elif kind == "int2":
                    recs.append(B.integer2(b, c, v, xfi(ver, f)))
                elif nbits == 64:
                    recs.append((B.number if kind == "number" else B.formula)(ver, b, c, pack("<Q", v), xfi(ver, f)))
        f, n = verify(open_bytes(B.single(ver, b"".join(recs), pre(ver))).sheet_by_index(0), want)
        return Result(f and "BIFF%d %s 0x%x: %s" % (ver, kind, w, f), outcome=case, evals=n)


def spaces(tier):
    q = tier == "quick"
    N = 1 << (18 if q else 23)

    def ints(i):
        return (((i >> 2) - (N >> 3)) & 0x3FFFFFFF) << 2 | (i & 3) | 2
    out = [RK("bit patterns and boundaries", pattern_words()),
           RK("all small integers", Range(N, ints)),
           RK("every top half word", Range(1 << (16 if q else 18), lambda i: (i << 16 if i < 65536 else ((i & 0xFFFF) << 16 | 0xFFF0 + 4 * (i >> 16))) & 0xFFFFFFFC | (i & 1))),
           Doubles(q), Integers(), Shapes(), OldRK(), Neighbours()]
    if not q:
        out.append(RK("every upper 22 bits", Range(1 << 24, lambda i: (i >> 2) << 10 | (i & 3)), vers=(80,)))
    return out
