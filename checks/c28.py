"""C28: sheets are listed, ordered and located as the workbook declares them."""
import itertools
import biff as B
import ole
from mc import Space, Result
from xl import *

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the arrangements of sheet declarations and of the physical orders of the sheet substreams, against the declarations as written"
NOTE = ("Every sequence of up to 3 sheets over 4 types x 3 visibilities and of 4 sheets over the types, in every physical order of the substreams, with and without gaps, bare and in OLE2 containers, eager and on demand, in BIFF5, 7 and 8; "
        "every sequence of up to 4 embedded sheets of a BIFF4W workbook; names of every length and awkward names.")
RULE = "A case is one arrangement (all its physical orders, containers and loading modes); evaluations = books opened. A case is non-trivial when it has at least one worksheet."
ASSUMPTIONS = ["two worksheets never have the same name, as Excel guarantees"]

TYPES = (0, 2, 1, 6)


def body(ver, i, typ):
    """Content that tells sheet i apart; other sheet types get cells too, which must not be seen."""
    x = B.attr2(0) if ver < 30 else 0
    o = B.number(ver, 0, 0, 1000.0 + i if typ == 0 else -1.0, x)
    for k in range(i % 3):
        o += B.label(ver, 1 + k, k, "s%d.%d" % (i, k), x)
    return o


def verify(bk, logical, loadable=True):
    """logical: [(name, typ, vis, index)] in declared order; None or a text."""
    ws = [x for x in logical if x[1] == 0]
    names = [x[0] for x in ws]
    if bk.sheet_names() != names:
        return "sheet_names() is %r, should be %r" % (bk.sheet_names(), names)
    if bk.nsheets != len(ws):
        return "nsheets is %r, should be %d" % (bk.nsheets, len(ws))
    sheets = bk.sheets()
    it = list(bk)
    if len(sheets) != len(ws) or len(it) != len(ws):
        return "sheets() gives %d, iteration %d, of %d sheets" % (len(sheets), len(it), len(ws))
    for k, (name, typ, vis, i) in enumerate(ws):
        sh = sheets[k]
        for how, o in (("sheet_by_index", bk.sheet_by_index(k)), ("book[index]", bk[k]), ("sheet_by_name", bk.sheet_by_name(name)), ("book[name]", bk[name]), ("iteration", it[k])):
            if o is not sh:
                return "%s gives another object than sheets()[%d]" % (how, k)
        if sh.name != name or sh.number != k or sh.visibility != vis or sh.book is not bk:
            return "sheet %d: name %r number %r visibility %r, should be %r %r %r" % (k, sh.name, sh.number, sh.visibility, name, k, vis)
        want = {(0, 0): 1000.0 + i}
        for j in range(i % 3):
            want[1 + j, j] = "s%d.%d" % (i, j)
        got = {(r, c): sh.cell_value(r, c) for r in range(sh.nrows) for c in range(sh.row_len(r)) if sh.cell_type(r, c) != XL_CELL_EMPTY}
        if got != want:
            return "sheet %d (%r) has cells %r, should have %r" % (k, name, got, want)
    unknown = [x[0] for x in logical if x[1] != 0 and x[0] not in names] + ["", "nope", "Sheet"] + [n + " " for n in names[:1]] + [n[:-1] for n in names[:1] if n[:-1]] + [n.swapcase() for n in names[:1] if n.swapcase() != n]
    for u in unknown:
        if u in names:
            continue
        for how, f in (("sheet_by_name", bk.sheet_by_name), ("book[...]", bk.__getitem__), ("sheet_loaded", bk.sheet_loaded), ("unload_sheet", bk.unload_sheet)):
            if not raises(XLRDError, f, u):
                return "%s(%r) does not raise XLRDError" % (how, u)
    for how, f in (("sheet_by_index", bk.sheet_by_index), ("book[...]", bk.__getitem__)):
        if not raises((IndexError, XLRDError), f, len(ws)):
            return "%s(%d) does not raise although there are %d sheets" % (how, len(ws), len(ws))
    # the lists handed out are the caller's own
    for how, f in (("sheets()", bk.sheets), ("sheet_names()", bk.sheet_names)):
        mine = f()
        before = mine[:]
        mine.append(None)
        del mine[:1]
        if f() != before or [sh.name for sh in bk] != names:
            return "changing the list that %s gave changes the book" % how
    return None


def reverse_sectors(n):
    return list(range(n))[::-1]


def containers(data, big, which):
    """`big` (same workbook, over 4096 bytes) lives in ordinary sectors: contiguous, it is read in place at an offset."""
    if "bare" in which:
        yield "bare", data
    if "ole" in which:
        yield "ole", ole.simple(data)
    if "big" in which:
        yield "big", ole.simple(big)
    if "frag" in which:
        yield "frag", ole.simple(big, slot_order=reverse_sectors)


class Arrange(Space):
    def __init__(self, n, full, conts, name):
        self.n, self.full, self.conts = n, full, conts
        self.name = name
        self.bound = "every sequence of %d sheets over 4 types%s, every physical order, gaps {none, 7 bytes}, %s, eager and on demand, BIFF5/7/8" % (n, " x 3 visibilities" if full else "", "/".join(conts))

    def gen(self):
        dim = itertools.product(TYPES, range(3)) if self.full else [(t, i % 3) for i, t in enumerate(TYPES)]
        for ver in (80, 70, 50):
            for arr in itertools.product(list(dim) if not self.full else list(itertools.product(TYPES, range(3))), repeat=self.n):
                yield ver, arr

    def judge(self, case):
        ver, arr = case
        logical = [("%s%d" % ("WCMV"[TYPES.index(t)], i), t, v, i) for i, (t, v) in enumerate(arr)]
        n = 0
        for order in itertools.permutations(range(self.n)):
            for gap in (b"", b"\x09\x08\x00\xff\x0a\x00\x00"):
                sheets = [B.Sh(nm, body(ver, i, t), typ=t, vis=v) for nm, t, v, i in logical]
                post = B.codepage(1200 if ver >= 80 else 1252)
                data = B.workbook(ver, sheets, order=order, gap=gap, pre=B.xf(ver), post=post)
                big = B.workbook(ver, sheets, order=order, gap=gap, pre=B.xf(ver), post=post + B.rec(0x004D, bytes(5000))) if len(self.conts) > 1 else b""
                for cont, d in containers(data, big, self.conts):
                    for od in (False, True):
                        n += 1
                        try:
                            bk = open_bytes(d, on_demand=od)
                            bad = verify(bk, logical)
                        except Exception as e:
                            bad = "raises %r" % (e,)
                        if bad:
                            return Result("BIFF%d sheets %r physical order %r, %s%s%s: %s" % (ver, logical, order, cont, ", on demand" if od else "", ", gaps" if gap else "", bad), evals=n)
        return Result(None, outcome=case, evals=n, nontrivial=any(t == 0 for t, v in arr))


class Workspace(Space):
    name = "BIFF4W embedded sheets"
    bound = "every sequence of 1..4 embedded sheets over worksheet, chart, macro sheet, with padding after the sheet {none, 5 bytes}, records between the sheets, on demand or not"

    def gen(self):
        for n in range(1, 5):
            for types in itertools.product((B.SHEET, B.CHART, B.MACRO), repeat=n):
                yield types,

    def judge(self, case):
        types, = case
        n = 0
        logical = [("N%d" % i, 0 if t == B.SHEET else t, 0, i) for i, t in enumerate(types)]
        for pads in itertools.product((b"", b"\x09\x04\x02\x00\x01"), repeat=len(types)):
            for before in (b"", B.rec(0x003D, b"\0" * 10)):
                sheets = [("N%d" % i, B.fmt(40, 0, "General") + body(40, i, 0 if t == B.SHEET else 2), t, pads[i], before) for i, t in enumerate(types)]
                d = B.workbook4w(sheets)
                for od in (False, True):
                    for fmt in (False, True):
                        n += 1
                        try:
                            bad = verify(open_bytes(d, on_demand=od, formatting_info=fmt), logical)
                        except Exception as e:
                            bad = "raises %r" % (e,)
                        if bad:
                            return Result("BIFF4W with sheets of type %r, padding %r: %s" % (types, pads, bad), evals=n)
        return Result(None, outcome=case, evals=n, nontrivial=B.SHEET in types)


class Names(Space):
    name = "sheet names"
    bound = "names of every length 1..31 in narrow and wide characters, every Latin-1 character, awkward names, in every workbook version; every BIFF <= 4 file has its one sheet"

    def gen(self):
        for ver in (45, 50, 70, 80):
            for ln in range(1, 32):
                yield ver, "len", ln
            for ch in range(0x20, 0x100, 8):
                yield ver, "char", ch
            yield ver, "odd", 0
        for ver in (21, 30, 40):
            yield ver, "single", 0

    def judge(self, case):
        ver, what, x = case
        if what == "single":
            n = 0
            for od in (False, True):
                n += 1
                bk = open_bytes(B.single(ver, body(ver, 2, 0), B.font(ver) + B.fmt(ver, 0, "General")), on_demand=od)
                bad = verify(bk, [(bk.sheet_names()[0], 0, 0, 2)])
                if bad:
                    return Result("BIFF%d: %s" % (ver, bad))
            return Result(None, outcome=case, evals=n)
        if what == "len":
            lists = [["a" * x, "b" * x], ["A" * x, "a" * x]]
            if ver >= 80:
                lists += [["\u0100" * x, "\u20ac" + "z" * (x - 1)]]
            if x >= 2 and ver >= 80:
                lists.append(["\U0001d54f" * (x // 2), "q"])
        elif what == "char":
            lists = [[chr(c), "x" + chr(c)] for c in range(x, x + 8) if not 0x7F <= c < 0xA0]
        else:
            lists = [["", "a"], ["A1", "Sheet1"], ["O'Brien", "a!b"], [" lead", "trail "], ["1", "0"], ["Sheet 1", "Sheet1"], ["None", "0.0"]]
        n = 0
        for names in lists:
            for od in (False, True):
                n += 1
                logical = [(nm, 0, 0, i) for i, nm in enumerate(names)]
                if ver == 45:
                    d = B.workbook4w([(nm, B.fmt(40, 0, "General") + body(40, i, 0)) for i, nm in enumerate(names)], pre=B.codepage(1252), enc="cp1252")
                else:
                    d = B.workbook(ver, [B.Sh(nm, body(ver, i, 0)) for i, nm in enumerate(names)], pre=B.codepage(1252 if ver < 80 else 1200) + B.xf(ver))
                try:
                    bad = verify(open_bytes(d, on_demand=od), logical)
                except Exception as e:
                    bad = "raises %r" % (e,)
                if bad:
                    return Result("BIFF%d names %r: %s" % (ver, names, bad), evals=n)
        return Result(None, outcome=case, evals=n)


def spaces(tier):
    every = ("bare", "ole", "big", "frag")
    o = [Arrange(0, True, every, "no sheets"), Arrange(1, True, every, "one sheet"), Arrange(2, True, every, "two sheets"),
         Arrange(3, True, ("bare",) if tier == "quick" else every, "three sheets"), Arrange(4, False, ("bare",) if tier == "quick" else every, "four sheets"), Workspace(), Names()]
    if tier != "quick":
        o += [Arrange(5, False, ("bare",), "five sheets")]
    return o
