"""C26: cell, range and sheet reference helpers."""
import itertools, re
import biff as B
from mc import Space, Result
from xl import *
from xlrd import book as xbook, formula as xf

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "complete enumeration of columns, edge rows, relative/absolute flags, offsets and sheet spans against an independent A1/R1C1 renderer and parser"
NOTE = ("All columns of the format (and beyond), rows around every digit-count edge, every flag/offset/base combination and all sheet spans over "
        "awkward names; the printed text is compared with an independent renderer and parsed back.")
RULE = "A case is a column block, or one reference shape; evaluations = helper calls compared. Non-trivial: all."
ASSUMPTIONS = ["with the base row or column alone missing, A1 and R1C1 notation are both right, a mixture is not"]


def ref_col(n):
    """Independent: bijective base 26."""
    n += 1
    s = ""
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def parse_col(s):
    n = 0
    for ch in s:
        n = n * 26 + ord(ch) - 64
    return n - 1


ROWS = sorted({0, 1, 8, 9, 10, 98, 99, 100, 101, 255, 256, 998, 999, 1000, 8191, 8192, 9998, 9999, 10000, 16383, 16384, 32767, 32768, 65534, 65535})


class Cols(Space):
    name = "columns x rows"
    bound = "columns 0..701 (book.colname to 20000) x %d rows" % len(ROWS)

    def gen(self):
        for lo in range(0, 20000, 100):
            yield lo

    def judge(self, lo):
        n = 0
        for c in range(lo, lo + 100):
            e = ref_col(c)
            assert parse_col(e) == c
            if xbook.colname(c) != e:
                return Result("book.colname(%d) = %r, should be %r" % (c, xbook.colname(c), e))
            n += 1
            if c > 701:
                continue
            if xlrd.colname(c) != e or xf.colname(c) != e:
                return Result("colname(%d) = %r, should be %r" % (c, xlrd.colname(c), e))
            for r in ROWS:
                for got, want in ((xlrd.cellname(r, c), "%s%d" % (e, r + 1)),
                                  (xlrd.cellnameabs(r, c), "$%s$%d" % (e, r + 1)),
                                  (xlrd.cellnameabs(r, c, 1), "R%dC%d" % (r + 1, c + 1)),
                                  (xlrd.cellnameabs(r, c, r1c1=0), "$%s$%d" % (e, r + 1))):
                    n += 1
                    if got != want:
                        return Result("name of cell (%d,%d) is %r, should be %r" % (r, c, got, want))
        return Result(outcome=lo, evals=n)


NAMES = ["Sheet1", "My Sheet", "O'Brien", "It's a sheet", "x", "Sheet5"]


def quote(n):
    return "'" + n.replace("'", "''") + "'" if ("'" in n or " " in n) else n


def corner(r, c, rrel, crel, br, bc, r1c1):
    if r1c1:
        return ("R[%d]" % r if r else "R") * 1 + "" + ("C[%d]" % c if c else "C") if rrel and crel else \
            ((("R[%d]" % r if r else "R") if rrel else "R%d" % (r + 1)) + (("C[%d]" % c if c else "C") if crel else "C%d" % (c + 1)))
    return ((ref_col((bc + c) % 256) if crel else "$" + ref_col(c)) + ("%d" % ((br + r) % 65536 + 1) if rrel else "$%d" % (r + 1)))


class Ranges(Space):
    name = "3D ranges"
    bound = "6 sheet names, all spans, edge rectangles"

    def setup(self):
        self.bk = open_bytes(B.workbook(80, [B.Sh(n) for n in NAMES]))

    def gen(self):
        for lo in range(len(NAMES)):
            for hi in range(lo + 1, len(NAMES) + 1):
                yield (lo, hi)

    def judge(self, case):
        lo, hi = case
        n = 0
        sh = quote(NAMES[lo]) + (":" + quote(NAMES[hi - 1]) if hi - 1 != lo else "")
        R = [(0, 1), (0, 2), (5, 20), (98, 100), (16383, 16384), (0, 65536), (65535, 65536)]
        C = [(0, 1), (7, 10), (25, 27), (255, 256), (0, 256), (26, 27)]
        for (r0, r1), (c0, c1) in itertools.product(R, C):
            ref = xlrd.Ref3D((lo, hi, r0, r1, c0, c1))
            a = "$%s$%d" % (ref_col(c0), r0 + 1)
            b = "$%s$%d" % (ref_col(c1 - 1), r1)
            want = sh + "!" + (a if (r1 == r0 + 1 and c1 == c0 + 1) else a + ":" + b)
            a, b = "R%dC%d" % (r0 + 1, c0 + 1), "R%dC%d" % (r1, c1)
            want1 = sh + "!" + (a if (r1 == r0 + 1 and c1 == c0 + 1) else a + ":" + b)
            for got, want in ((xlrd.rangename3d(self.bk, ref), want), (xlrd.rangename3d(self.bk, ref, 0), want),
                              (xlrd.rangename3d(self.bk, ref, r1c1=1), want1), (xlrd.rangename3d(self.bk, ref, True), want1)):
                n += 1
                if got != want:
                    return Result("rangename3d%r = %r, should be %r" % (ref.coords, got, want))
            if (ref.shtxlo, ref.shtxhi, ref.rowxlo, ref.rowxhi, ref.colxlo, ref.colxhi) != (lo, hi, r0, r1, c0, c1):
                return Result("Ref3D attributes differ from coords %r" % (ref.coords,))
        return Result(outcome=case, evals=n)


class Rel(Space):
    name = "relative ranges"
    bound = "all 16 flag combinations x edge offsets x bases x A1/R1C1"

    def __init__(self, tier):
        self.q = tier == "quick"

    def setup(self):
        self.bk = open_bytes(B.workbook(80, [B.Sh(n) for n in NAMES]))

    def gen(self):
        for flags in itertools.product((0, 1), repeat=4):
            for base in (None, (0, 0), (10, 20), (65535, 255), (300, 25), (10, None), (None, 20)):
                for r1c1 in (0, 1):
                    for shrel in (0, 1):
                        yield (flags, base, r1c1, shrel)

    def judge(self, case):
        (rlr, rhr, clr, chr_), base, r1c1, shrel = case
        br, bc = base or (None, None)
        n = 0
        ro = [0, 1, 9, 10, 99, 65535]
        co = [0, 1, 25, 26, 255]
        if self.q:
            ro, co = [0, 9, 65535], [0, 26, 255]
        rrel = [-300, -1, 0, 1, 10]
        crel = [-13, -1, 0, 1, 30]
        outs = []
        for rlo in (rrel if rlr else ro):
            for rhi in (rrel if rhr else ro):
                for clo in (crel if clr else co):
                    for chi in (crel if chr_ else co):
                        rel = (shrel, shrel, rlr, rhr, clr, chr_)
                        coords = ((0, 1) if shrel else (1, 2)) + (rlo, rhi + 1, clo, chi + 1)
                        ref = xlrd.Ref3D(coords + rel)
                        mode = r1c1 or (br is None and (rlr or rhr)) or (bc is None and (clr or chr_))    # wholly absolute: A1
                        text = lambda mode: ("" if shrel else quote(NAMES[1]) + "!") + corner(rlo, clo, rlr, clr, br, bc, mode) + ":" + corner(rhi, chi, rhr, chr_, br, bc, mode)
                        want = text(mode)
                        got = xlrd.rangename3drel(self.bk, ref, br, bc, r1c1)
                        n += 1
                        # with only one half of the base the whole may also be in R1C1 notation
                        if got != want and not (base and None in base and (rlr or rhr or clr or chr_) and got == text(1)):
                            return Result("rangename3drel(%r, rel %r, base %r, r1c1=%d) = %r, should be %r"
                                          % (coords, rel, base, r1c1, got, want))
                        outs.append(got)
        return Result(outcome=(len(outs), outs[0], outs[-1]), evals=n)


class SheetNames(Space):
    name = "sheet name quoting"
    bound = "all names up to 3 (thorough 4) characters over {a, R, blank, apostrophe, digit, hyphen, ä}"

    def __init__(self, tier):
        self.n = 3 if tier == "quick" else 4

    def gen(self):
        for n in range(1, self.n + 1):
            for t in itertools.product("aR '1-\u00e4", repeat=n):
                yield "".join(t)

    def judge(self, name):
        bk = open_bytes(B.workbook(80, [B.Sh(name), B.Sh("zz")]))
        got = xlrd.rangename3d(bk, xlrd.Ref3D((0, 1, 0, 1, 0, 1)))
        quoted, plain = "'" + name.replace("'", "''") + "'!$A$1", name + "!$A$1"
        # a name with other than letters, digits, _ and ., starting with a digit, or like a cell reference needs quotes; others may have them
        need = re.search(r"[ '\-]|^\d", name) or re.match(r"([A-Za-z]{1,3}\d+|[RrCc]\d*|[Rr]\d*[Cc]\d*)$", name)
        if got != quoted and (need or got != plain):
            return Result("reference to sheet %r is %r, should be %r" % (name, got, quoted if need else plain))
        return Result(outcome=got)


def spaces(tier):
    return [Cols(), Ranges(), Rel(tier), SheetNames(tier)]
