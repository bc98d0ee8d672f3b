"""C03: every accessor of a sheet describes the same grid, with Python indexing and slicing semantics."""
import itertools
import biff as B
from mc import Space, Result
from xl import *

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration of all small grid shapes x all accessor arguments against a list-of-lists model"
NOTE = ("Complete for every grid shape and every ragged row-length vector up to the bound and every index/start/end argument around "
        "the edges; the oracle is Python's own list slicing. Larger grids follow the same index arithmetic but are not enumerated.")
RULE = ("A case is one grid shape with a presence pattern of cells and of row/column default formats; its judge calls every accessor "
        "with every argument combination in range(-n-2, n+3) plus None. Non-trivial: the grid has at least one row. evaluations = accessor calls compared.")
ASSUMPTIONS = ["negative column arguments index from the end of each individual row, as with a Python list of rows"]

KINDS = ["num", "text", "bool", "err", "blank", "date"]


def build(shape, fmt, rowdef, coldef):
    """shape: tuple of row lengths. Cell kinds rotate so that neighbours differ; the last cell of a row is never blank
    unless formatting is on. Returns (bytes, model rows)."""
    body = b""
    for r in rowdef:
        body += B.rec(0x0208, B.pack("<HHHHHHI", r, 0, 1, 255, 0, 0, 0x100 | 0x80 | ((3 + r) << 16)))
    for c in coldef:
        body += B.rec(0x007D, B.pack("<HHHHHH", c, c, 2560, 7 + c, 2, 0))
    rows = []
    k = 0
    for r, n in enumerate(shape):
        row = []
        for c in range(n):
            k += 1
            kind = KINDS[(k * 5 + r) % len(KINDS)]
            hole = (k % 4 == 3) and c != n - 1
            if kind == "blank" and (not fmt):
                kind = "num"
            if hole:
                xf = 3 + r if r in rowdef else 7 + c if c in coldef else 15
                row.append((XL_CELL_EMPTY, "", xf))
                continue
            xf = k % 3
            if kind == "num":
                body += B.number(80, r, c, k + 0.5, xf); t = (XL_CELL_NUMBER, k + 0.5, xf)
            elif kind == "date":
                body += B.number(80, r, c, k + 0.25, 14); t = (XL_CELL_DATE, k + 0.25, 14)
            elif kind == "text":
                body += B.label(80, r, c, "s%d" % k, xf); t = (XL_CELL_TEXT, "s%d" % k, xf)
            elif kind == "bool":
                body += B.boolerr(80, r, c, k & 1, 0, xf); t = (XL_CELL_BOOLEAN, k & 1, xf)
            elif kind == "err":
                body += B.boolerr(80, r, c, 7, 1, xf); t = (XL_CELL_ERROR, 7, xf)
            else:
                body += B.blank(80, r, c, xf); t = (XL_CELL_BLANK, "", xf)
            row.append(t)
        rows.append(row)
    pre = B.font(80) + b"".join(B.xf(80, 14 if i == 14 else 0) for i in range(20))
    return B.workbook(80, [B.Sh("S", body)], pre=pre), rows


def call(fn, *a, **k):
    try:
        return ("ok", fn(*a, **k))
    except IndexError:
        return ("IndexError",)
    except Exception as e:
        return ("exc", type(e).__name__)


class Shapes(Space):
    def __init__(self, maxr, maxc, ragged, fmt, defaults=True):
        self.maxr, self.maxc, self.ragged, self.fmt, self.defaults = maxr, maxc, ragged, fmt, defaults
        self.name = "shapes ragged=%s fmt=%s" % (ragged, fmt)
        self.bound = "<=%d rows x <=%d cols" % (maxr, maxc)

    def gen(self):
        for nr in range(self.maxr + 1):
            if self.ragged:
                shapes = list(itertools.product(range(self.maxc + 1), repeat=nr))
                # the last stored row is never empty (an empty trailing row is not stored at all)
                shapes = [s for s in shapes if not s or s[-1]]
            else:
                shapes = [(nc,) * nr for nc in range(1, self.maxc + 1)] if nr else [()]
            for s in shapes:
                defs = [((), ())]
                if self.fmt and self.defaults:
                    defs += [((0,), ()), ((), (0,)), ((1,), (1,)), (tuple(range(nr)), tuple(range(self.maxc)))]
                for rd, cd in defs:
                    yield (s, rd, cd)

    def judge(self, case):
        shape, rd, cd = case
        data, rows = build(shape, self.fmt, rd, cd)
        sh = open_bytes(data, ragged_rows=self.ragged, formatting_info=self.fmt).sheet_by_index(0)
        n = 0
        nr = len(rows)
        nc = max([len(r) for r in rows] + [0])
        if (sh.nrows, sh.ncols) != (nr, nc):
            return Result("nrows,ncols %r != %r" % ((sh.nrows, sh.ncols), (nr, nc)))

        def cells(x):
            return [(c.ctype, c.value, c.xf_index) for c in x]

        fmt = self.fmt
        if not fmt:
            rows = [[(t, v, None) for t, v, x in row] for row in rows]
        R = range(-nr - 2, nr + 3)
        C = range(-nc - 2, nc + 3)
        bad = []

        def want(desc, got, exp):
            # exp: ("ok", value) or ("IndexError",)
            if got[0] == "ok":
                got = ("ok", list(got[1]) if not isinstance(got[1], (tuple, int, float, str)) else got[1])
            if got != exp or (got[0] == "ok" and not same(got[1], exp[1])):
                bad.append("%s gave %r, should be %r" % (desc, got, exp))

        def ix(fn):
            try:
                return ("ok", fn())
            except IndexError:
                return ("IndexError",)
        for r in R:
            want("row_len(%d)" % r, call(sh.row_len, r), ix(lambda: len(rows[r])))
            want("row(%d)" % r, call(lambda: cells(sh.row(r))), ix(lambda: rows[r]))
            want("[%d]" % r, call(lambda: cells(sh[r])), ix(lambda: rows[r]))
            n += 3
            for c in C:
                e = ix(lambda: rows[r][c])
                want("cell(%d,%d)" % (r, c), call(lambda: cells([sh.cell(r, c)])[0]), e)
                want("[%d,%d]" % (r, c), call(lambda: cells([sh[r, c]])[0]), e)
                want("cell_type(%d,%d)" % (r, c), call(sh.cell_type, r, c), ix(lambda: rows[r][c][0]))
                want("cell_value(%d,%d)" % (r, c), call(sh.cell_value, r, c), ix(lambda: rows[r][c][1]))
                n += 4
                if fmt:
                    want("cell_xf_index(%d,%d)" % (r, c), call(sh.cell_xf_index, r, c), ix(lambda: rows[r][c][2]))
                    n += 1
                if bad:
                    return Result(bad[0])
            ends = [None] + list(C)
            for s in C:
                for e in ends:
                    exp = ix(lambda: rows[r][s:e])
                    args = (r, s) if e is None and s % 2 else (r, s, e)
                    want("row_slice%r" % (args,), call(lambda: cells(sh.row_slice(*args))), exp)
                    want("row_values%r" % (args,), call(sh.row_values, *args), exp if exp[0] != "ok" else ("ok", [x[1] for x in exp[1]]))
                    want("row_types%r" % (args,), call(sh.row_types, *args), exp if exp[0] != "ok" else ("ok", [x[0] for x in exp[1]]))
                    n += 3
                    if bad:
                        return Result(bad[0])
            want("row_slice(%d)" % r, call(lambda: cells(sh.row_slice(r))), ix(lambda: rows[r]))
            want("row_slice(end_colx)", call(lambda: cells(sh.row_slice(r, end_colx=1))), ix(lambda: rows[r][:1]))
            want("row_values(start_colx)", call(lambda: sh.row_values(r, start_colx=1)), ix(lambda: [x[1] for x in rows[r][1:]]))
            want("row_types(rowx)", call(lambda: sh.row_types(rowx=r)), ix(lambda: [x[0] for x in rows[r]]))
            # every argument left out, or given by name
            for nm, k in (("row_slice", None), ("row_values", 1), ("row_types", 0)):
                f = getattr(sh, nm)
                g = cells if k is None else list
                for kw in ({}, {"start_colx": 1}, {"start_colx": -1}, {"end_colx": 1}, {"end_colx": -1}, {"start_colx": 1, "end_colx": 2}):
                    s, e = kw.get("start_colx", 0), kw.get("end_colx")
                    want("%s(%d, **%r)" % (nm, r, kw), call(lambda: g(f(r, **kw))),
                         ix(lambda: [x if k is None else x[k] for x in rows[r][s:e]]))
                    n += 1
        for c in C:
            ends = [None] + list(R)
            want("col(%d)" % c, call(lambda: cells(sh.col(c))), ix(lambda: [row[c] for row in rows]))
            for s in R:
                for e in ends:
                    exp = ix(lambda: [row[c] for row in rows[s:e]])
                    args = (c, s) if e is None and s % 2 else (c, s, e)
                    want("col_slice%r" % (args,), call(lambda: cells(sh.col_slice(*args))), exp)
                    want("col%r" % (args,), call(lambda: cells(sh.col(*args))), exp)
                    want("col_values%r" % (args,), call(sh.col_values, *args), exp if exp[0] != "ok" else ("ok", [x[1] for x in exp[1]]))
                    want("col_types%r" % (args,), call(sh.col_types, *args), exp if exp[0] != "ok" else ("ok", [x[0] for x in exp[1]]))
                    n += 4
                    if bad:
                        return Result(bad[0])
            for nm, k in (("col_slice", None), ("col", None), ("col_values", 1), ("col_types", 0)):
                f = getattr(sh, nm)
                g = cells if k is None else list
                for kw in ({}, {"start_rowx": 1}, {"start_rowx": -1}, {"end_rowx": 1}, {"end_rowx": -1}, {"start_rowx": 1, "end_rowx": 2}):
                    s, e = kw.get("start_rowx", 0), kw.get("end_rowx")
                    want("%s(%d, **%r)" % (nm, c, kw), call(lambda: g(f(c, **kw))),
                         ix(lambda: [row[c] if k is None else row[c][k] for row in rows[s:e]]))
                    n += 1
            want("col_values(end_rowx)", call(lambda: sh.col_values(c, end_rowx=1)), ix(lambda: [x[c][1] for x in rows[:1]]))
        for how, it in (("get_rows", sh.get_rows), ("iter", lambda: iter(sh)), ("get_rows again", sh.get_rows)):
            got = [cells(x) for x in it()]
            n += 1
            if got != rows:
                bad.append("%s gave %r, should be %r" % (how, got, rows))
        # what an accessor returned is the caller's own: emptying it leaves the sheet as it was
        for r in range(nr):
            for nm in ("row", "row_slice", "row_values", "row_types", "__getitem__"):
                for args in ((r,), (r - nr,)) + (((r, 0), (r, 0, None), (r, 0, len(rows[r]))) if nm.startswith("row_") else ()):
                    mine = getattr(sh, nm)(*args)
                    try:
                        mine.append(mine[0] if len(mine) else 0)
                        del mine[:1]
                    except (AttributeError, TypeError):
                        pass  # not a list
                    n += 1
                    if [cells(x) for x in sh.get_rows()] != rows:
                        bad.append("changing the result of %s%r changes the sheet" % (nm, args))
                        return Result(bad[0], evals=n)
        for c in range(nc if not self.ragged else 0):
            for nm in ("col", "col_slice", "col_values", "col_types"):
                for args in ((c,), (c - nc,)):
                    mine = getattr(sh, nm)(*args)
                    try:
                        mine.append(mine[0] if len(mine) else 0)
                        del mine[:1]
                    except (AttributeError, TypeError):
                        pass
                    n += 1
                    if [cells(x) for x in sh.get_rows()] != rows:
                        bad.append("changing the result of %s%r changes the sheet" % (nm, args))
                        return Result(bad[0], evals=n)
        return Result(bad[0] if bad else None, outcome=(case, rows), nontrivial=nr > 0, evals=n)


def same(a, b):
    return repr(a) == repr(b)


def spaces(tier):
    q = tier == "quick"
    m = 3 if q else 5
    out = [Shapes(m, m, False, f) for f in (False, True)]
    out += [Shapes(3 if q else 4, 3 if q else 4, True, f) for f in (False, True)]
    return out
