"""C11: formula cells report their cached result with its right type and value."""
import itertools
from struct import pack
import biff as B
from mc import Space, Result
from xl import *

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of sequences of formula cells, result kinds and auxiliary records in every BIFF version, replayed on the real reader"
NOTE = ("All sequences of up to three (thorough: four) formula cells over every result kind crossed with every auxiliary record its version allows between the "
        "formula and its string, followed by ordinary cells; every value of every unused byte of the result field; every error code; every token length.")
RULE = "A case is one sheet of formula records between ordinary cells; all cells are compared. Every case is non-trivial."
ASSUMPTIONS = ["at most one SHRFMLA/ARRAY/TABLEOP record follows a formula record, as the format prescribes"]


def pre(ver):
    o = B.font(ver)
    if ver < 50:
        return o + B.fmt(ver, 0, "General") + B.fmt(ver, 1, "d/m/yy") + B.xf(ver, 0) + B.xf(ver, 1)
    return o + B.xf(ver, 0) + B.xf(ver, 14)


def xfi(ver, k):
    return k if ver >= 30 else B.attr2(k, k)


def aux(ver, kind, r, c):
    tok = b"\x1e\x01\x00"
    if kind is None:
        return b""
    if kind == "array":
        if ver < 30:
            return B.rec(0x0021, pack("<HHBBBB", r, r, c, c, 0, len(tok)) + tok)
        if ver < 50:
            return B.rec(0x0221, pack("<HHBBHH", r, r, c, c, 0, 4) + b"\x44\0\0\0")
        return B.rec(0x0221, pack("<HHBBHIH", r, r, c, c, 0, 0, len(tok)) + tok)
    if kind == "shortarray":
        if ver < 50:
            return B.rec(0x0221, pack("<HHBBHH", r, r, c, c, 0, len(tok)) + tok)
        return B.rec(0x0221, pack("<HHBBHIH", r, r, c, c, 0, 0, 0))
    if kind == "shr":
        return B.rec(0x04BC, pack("<HHBBBBH", r, r + 1, c, c, 0, 2, len(tok)) + tok)
    if kind == "table":
        if ver < 30:
            return B.rec(0x0036, pack("<HHBBBBHH", r, r, c, c, 0, 1, 0, 0))
        return B.rec(0x0236, pack("<HHBBHHHHH", r, r, c, c, 0, 0, 0, 0, 0))
    if kind == "cont":          # the rest of a very long formula
        return B.rec(B.CONTINUE, b"\x1e\x01\x00" * 5) + B.rec(B.CONTINUE, b"\1\0")
    if kind == "arraycont":     # a very long array formula
        return aux(ver, "array", r, c) + B.rec(B.CONTINUE, b"\x1e\x01\x00\x03" * 5) + B.rec(B.CONTINUE)
    if kind == "contarray":
        return B.rec(B.CONTINUE, b"\x1e") + aux(ver, "array", r, c)
    if kind == "table2":
        return B.rec(0x0037, pack("<HHBBBBHHHH", r, r, c, c, 0, 1, 0, 0, 0, 0))
    raise AssertionError(kind)


def aux_kinds(ver):
    if ver < 30:
        return [None, "array", "table", "table2"]
    if ver < 50:
        return [None, "array", "shortarray", "table", "cont"]
    return [None, "array", "shortarray", "shr", "table", "cont", "arraycont", "contarray"]


def results(ver):
    r = [("num", 1.5), ("date", 40000.25), ("str", "caf\xe9"), ("empty", ""), ("bool", 1), ("err", 0x2A)]
    if ver >= 80:
        r[2] = ("str", "\u0416x")
    if ver >= 30:
        r.append(("split", "abcd\xe9f"))
    return r


ENC = {"num": (2, None), "date": (3, None), "str": (1, None), "split": (1, None), "empty": (1, None), "bool": (4, None), "err": (5, None)}


def emit(ver, r, c, res, ax, flags=0, rpn=b"\x1e\x01\x00", junk=None):
    kind, v = res
    xf = xfi(ver, 1 if kind == "date" else 0)
    if kind in ("num", "date"):
        b = pack("<d", v)
    elif kind in ("str", "split"):
        b = B.RES_STRING
    elif kind == "empty":
        b = B.RES_EMPTY
    elif kind == "bool":
        b = B.res_bool(v)
    else:
        b = B.res_err(v)
    if junk:
        b = bytes(junk.get(i, x) for i, x in enumerate(b))
    o = B.formula(ver, r, c, b, xf, flags, rpn) + aux(ver, ax, r, c)
    if kind == "str":
        o += B.string_rec(ver, v)
    elif kind == "split":
        if ver >= 80:
            o += B.rec(0x0207, pack("<HB", len(v), 0) + v[:2].encode("latin_1")) + B.rec(B.CONTINUE, b"\1" + v[2:].encode("utf_16_le"))
        else:
            o += B.rec(0x0207, pack("<H", len(v)) + v[:2].encode("latin_1")) + B.rec(B.CONTINUE, v[2:].encode("latin_1"))
    return o


def verify(data, want, **kw):
    sh = open_bytes(data, **kw).sheet_by_index(0)
    nr = max(r for r, c in want) + 1
    nc = max(c for r, c in want) + 1
    if (sh.nrows, sh.ncols) != (nr, nc):
        return "dimensions %dx%d, stored %dx%d" % (sh.nrows, sh.ncols, nr, nc)
    for r in range(nr):
        for c in range(sh.row_len(r)):
            t, v = want.get((r, c), (0, ""))
            if sh.cell_type(r, c) != t or not veq(sh.cell_value(r, c), v):
                return "cell (%d,%d): type %d value %.80r, stored type %d value %.80r" % (r, c, sh.cell_type(r, c), sh.cell_value(r, c), t, v)
    return None


class Seqs(Space):
    def __init__(self, n, vers, menu=None):
        self.n, self.vers, self.menu = n, vers, menu
        self.name = "sequences of %d formula cells%s" % (n, "" if menu is None else " (reduced menu)")
        self.bound = "every result kind x every auxiliary record, %d cells, BIFF %s" % (n, list(vers))

    def gen(self):
        for ver in self.vers:
            m = [(i, a) for i, r in enumerate(results(ver)) for a in aux_kinds(ver)]
            if self.menu:
                m = [x for x in m if results(ver)[x[0]][0] in self.menu]
            for seq in itertools.product(m, repeat=self.n):
                yield ver, seq

    def judge(self, case):
        ver, seq = case
        rs = results(ver)
        o = B.number(ver, 0, 0, 7.0, xfi(ver, 0))
        want = {(0, 0): (2, 7.0)}
        for k, (i, a) in enumerate(seq):
            o += emit(ver, k + 1, k, rs[i], a, flags=(8 if a == "shr" else k & 3))
            want[k + 1, k] = (ENC[rs[i][0]][0], rs[i][1])
        n = len(seq)
        o += B.label(ver, n, n, "end", xfi(ver, 0)) + B.number(ver, n + 1, 0, 9.0, xfi(ver, 1))
        want[n, n] = (1, "end")
        want[n + 1, 0] = (3, 9.0)
        data = B.single(ver, o, pre(ver))
        f = None
        for fmt in (False, True):
            f = f or verify(data, want, formatting_info=fmt)
        return Result(f and "BIFF%d: %s" % (ver, f), outcome=o, evals=2)


class Bytes(Space):
    name = "result field bytes"
    bound = "every value of each unused byte of each special result, every error code, every flag byte, every first byte of a date/number"

    def gen(self):
        for ver in B.VERSIONS:
            for kind in ("str", "empty", "bool", "err", "errcode", "flags", "num"):
                yield ver, kind

    def judge(self, case):
        ver, kind = case
        o, want, k = b"", {}, 0
        rs = dict(results(ver))
        def put(res, v=None, **kw):
            nonlocal o, k
            r, c = k >> 8, k & 255
            o += emit(ver, r, c, res, None, **kw)
            want[r, c] = (ENC[res[0]][0], res[1] if v is None else v)
            k += 1
        if kind in ("str", "empty"):
            for pos in (1, 2, 3, 4, 5):
                for b in range(256):
                    put((kind, rs[kind]), junk={pos: b})
        elif kind in ("bool", "err"):
            for pos in (1, 3, 4, 5):
                for b in range(256):
                    put((kind, rs[kind]), junk={pos: b})
            if kind == "bool":
                put(("bool", 0))
        elif kind == "errcode":
            for b in range(256):
                put(("err", b))
        elif kind == "flags":
            for b in range(256):
                for res in ("num", "str", "bool"):
                    put((res, rs[res]), flags=b)
        else:
            for pos in range(8):
                for b in range(256):
                    raw = bytearray(pack("<d", 1.5))
                    raw[pos] = b
                    from struct import unpack
                    v = unpack("<d", bytes(raw))[0]
                    if v != v or raw[6:] == b"\xff\xff":
                        continue
                    put(("num", v))
        f = verify(B.single(ver, o, pre(ver)), want)
        return Result(f and "BIFF%d: %s" % (ver, f), outcome=case, evals=k)


class HighBytes(Space):
    """Only FFFF in the last two bytes marks a special result; every other value is a number, infinities and NaNs included."""
    name = "numbers next to the special results"
    bound = "every value of the last two bytes except FFFF x every first byte 0..5, 255 (thorough: 0..255 for FF00..FFFE and 00FF..FEFF), every version"

    def __init__(self, q):
        self.q = q

    def gen(self):
        for ver in B.VERSIONS:
            for hi in range(256):
                yield ver, hi

    def judge(self, case):
        from struct import unpack
        ver, hi = case
        raws = [bytes((f, 0, 1, 0, 0, 0, lo, hi)) for f in (0, 1, 2, 3, 4, 5, 255) for lo in range(256)]
        if hi == 255 or not self.q:
            raws += [bytes((f, 0, g, 0, 0, 0, lo, hi)) for f in range(256) for g in (0, 7) for lo in (0xFE, 0xFF, 0xFD, 0x7F, 0)]
        raws = [x for x in raws if x[6:] != b"\xff\xff"]
        o = b"".join(B.formula(ver, k >> 8, k & 255, x, xfi(ver, 0)) for k, x in enumerate(raws))
        sh = open_bytes(B.single(ver, o, pre(ver))).sheet_by_index(0)
        for k, x in enumerate(raws):
            c = sh.cell(k >> 8, k & 255)
            v, = unpack("<d", x)
            if c.ctype != 2 or not (c.value == v and pack("<d", c.value) == x if v == v else c.value != c.value):
                return Result("BIFF%d: formula with cached number %r (bytes %s) reads as type %d value %r" % (ver, v, x.hex(), c.ctype, c.value), evals=k)
        return Result(None, outcome=case, evals=len(raws))


class Tokens(Space):
    name = "token array lengths"
    bound = "0..255 token bytes of three fillings (thorough to 1800) before every result kind, every version"

    def __init__(self, q):
        self.q = q

    def gen(self):
        for ver in B.VERSIONS:
            for fill in (0, 0xFF, 0x17):
                yield ver, fill

    def judge(self, case):
        ver, fill = case
        o, want, k = b"", {}, 0
        rs = results(ver)
        for n in range(256 if self.q or ver < 30 else 1800):
            r, c = k >> 8, k & 255
            res = rs[n % len(rs)]
            o += emit(ver, r, c, res, None, rpn=bytes([fill]) * n)
            want[r, c] = (ENC[res[0]][0], res[1])
            k += 1
        f = verify(B.single(ver, o, pre(ver)), want) or verify(B.single(ver, o, pre(ver)), want, verbosity=1)
        return Result(f and "BIFF%d: %s" % (ver, f), outcome=case, evals=2 * k)


class Multi(Space):
    """Shared and array formulas over several cells: later cells of the range follow the defining record."""
    name = "shared ranges"
    bound = "every assignment of result kinds to a 4-cell shared/array/table range, every member carrying the definition"

    def gen(self):
        for ver in B.VERSIONS:
            for a in aux_kinds(ver)[1:]:
                for kinds in itertools.product(range(len(results(ver))), repeat=4):
                    yield ver, a, kinds

    def judge(self, case):
        ver, a, kinds = case
        rs = results(ver)
        o, want = b"", {}
        for k, i in enumerate(kinds):
            o += emit(ver, k >> 1, k & 1, rs[i], a if k == 0 else None, flags=8, rpn=b"\x01\0\0\0\0" if ver >= 30 else b"\x01\0\0\0")
            want[k >> 1, k & 1] = (ENC[rs[i][0]][0], rs[i][1])
        f = verify(B.single(ver, o, pre(ver)), want)
        return Result(f and "BIFF%d: %s" % (ver, f), outcome=o)


def spaces(tier):
    q = tier == "quick"
    out = [Seqs(1, B.VERSIONS), Seqs(2, B.VERSIONS), Seqs(3, B.VERSIONS),
           Bytes(), HighBytes(q), Tokens(q), Multi()]
    if not q:
        out.append(Seqs(4, (80, 50, 40, 21), ("num", "str", "empty", "split")))
    return out
