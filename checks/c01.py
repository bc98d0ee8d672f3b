"""C01: the cell grid is the last-write-wins image of the cell records."""
import itertools
import biff as B, neigh
from mc import Space, Result
from xl import *

ID = "C01"
LEVEL = "model_checking"
TECHNIQUE = "explicit bounded model checking: all record sequences to a depth on the real reader, against a dictionary model; every record followed by each of its single-bit alterations"
NOTE = ("Exhaustive within the bound: every sequence of cell/blank/row/merge/DIMENSIONS records over the alphabet, in all four "
        "padding/formatting modes, compared cell by cell with a reference model. Trusts the harness's record writer; larger grids "
        "and longer histories are beyond the bound.")
RULE = ("A case is a sequence of sheet records over colliding addresses; every sequence up to the bound is fed to "
        "open_workbook in 4 modes (ragged_rows x formatting_info) and compared, cell by cell, with a dictionary model. "
        "Non-trivial: at least one record stores a cell or a merged range.")
STATE_RULE = "states = distinct observed grids (dimensions, row lengths, types, values, XF indexes); transitions = records applied by the model"
ASSUMPTIONS = ["synthetic bare BIFF streams stand for sheet substreams of real files (C02 compares wrappers)"]

MODES = [(False, False), (True, False), (False, True), (True, True)]   # (ragged, fmt)


def prelude(ver):
    # XF 0 General, XF 1 a date format (builtin 14; versions before 5 index their own FORMAT records)
    if ver < 50:
        return B.font(ver) + B.fmt(ver, 0, "General") + B.fmt(ver, 1, "dd/mm/yy") + B.xf(ver, 0) + B.xf(ver, 1)
    return B.font(ver) + B.xf(ver, 0) + B.xf(ver, 14)


class Model(object):
    """Boring reference: dict of stored cells plus merged extents."""

    def __init__(self, fmt):
        self.fmt = fmt
        self.cells = {}
        self.merged = []

    def apply(self, ver, op, k):
        """Return the bytes of the record(s) for op, the k-th of the sequence."""
        kind, r, c = op[:3]
        v = float(k + 1)
        if kind == "num":
            self.cells[r, c] = (XL_CELL_NUMBER, v, 0)
            return B.number(ver, r, c, v, 0)
        if kind == "date":
            self.cells[r, c] = (XL_CELL_DATE, v, 1)
            return B.number(ver, r, c, v, 1)
        if kind == "text":
            self.cells[r, c] = (XL_CELL_TEXT, "t%d" % k, 1)
            return B.label(ver, r, c, "t%d" % k, 1)
        if kind == "rk":
            self.cells[r, c] = (XL_CELL_NUMBER, v, 0)
            return B.rk(r, c, ((k + 1) << 2) | 2, 0)
        if kind == "int2":
            self.cells[r, c] = (XL_CELL_NUMBER, v, 0)
            return B.integer2(r, c, k + 1, 0)
        if kind == "bool":
            self.cells[r, c] = (XL_CELL_BOOLEAN, k & 1, 1)
            return B.boolerr(ver, r, c, k & 1, 0, 1)
        if kind == "err":
            self.cells[r, c] = (XL_CELL_ERROR, 0x2A, 0)
            return B.boolerr(ver, r, c, 0x2A, 1, 0)
        if kind == "err9":
            # with a spare byte, as OpenOffice.org 2 writes it
            self.cells[r, c] = (XL_CELL_ERROR, 0x2A, 0)
            return B.rec(0x0205, B.boolerr(ver, r, c, 0x2A, 1, 0)[4:] + b"\0")
        if kind == "blank":
            if self.fmt:
                self.cells[r, c] = (XL_CELL_BLANK, "", 1)
            return B.blank(ver, r, c, 1)
        if kind == "fstr":
            self.cells[r, c] = (XL_CELL_TEXT, "f%d" % k, 0)
            return B.formula(ver, r, c, B.RES_STRING, 0) + B.string_rec(ver, "f%d" % k)
        if kind == "fnum":
            self.cells[r, c] = (XL_CELL_NUMBER, v, 0)
            return B.formula(ver, r, c, v, 0)
        if kind == "mulrk":
            n = op[3]
            for i in range(n):
                self.cells[r, c + i] = (XL_CELL_NUMBER, float(10 * (k + 1) + i), 0)
            return B.mulrk(r, c, [(0, ((10 * (k + 1) + i) << 2) | 2) for i in range(n)])
        if kind == "mulblank":
            n = op[3]
            if self.fmt:
                for i in range(n):
                    self.cells[r, c + i] = (XL_CELL_BLANK, "", 1)
            return B.mulblank(r, c, [1] * n)
        if kind == "row":
            return B.rec(0x0208, B.pack("<HHHHHHI", r, 0, c, 255, 0, 0, 0x100))
        if kind == "dim":
            # a declaration only
            return B.dimensions(ver, 0, r, 0, c)
        if kind == "merge":
            r1, r2, c1, c2 = op[1:5]
            if self.fmt:
                self.merged.append((r1, r2 + 1, c1, c2 + 1))
            return B.merged([(r1, r2, c1, c2)])
        raise ValueError(kind)

    def extent(self):
        nr = max([r + 1 for r, c in self.cells] + [m[1] for m in self.merged] + [0])
        nc = max([c + 1 for r, c in self.cells] + [m[3] for m in self.merged] + [0])
        return nr, nc


def compare(sh, m, ragged):
    nr, nc = m.extent()
    if (sh.nrows, sh.ncols) != (nr, nc):
        return "nrows,ncols = %r, should be %r" % ((sh.nrows, sh.ncols), (nr, nc))
    rowmax = {}
    for r, c in m.cells:
        rowmax[r] = max(rowmax.get(r, 0), c + 1)
    cell_nr = max([r + 1 for r, c in m.cells] + [0])
    for r in range(nr):
        want = rowmax.get(r, 0) if ragged else nc
        got = sh.row_len(r)
        if got != want:
            # a merged range that alone makes the sheet taller may leave one empty cell in the last row
            if not (ragged and r == nr - 1 and r >= cell_nr and got == 1):
                return "row_len(%d) = %d, should be %d" % (r, got, want)
        for c in range(got):
            exp = m.cells.get((r, c), (XL_CELL_EMPTY, "", None))
            t, v = sh.cell_type(r, c), sh.cell_value(r, c)
            if t != exp[0] or not veq(v, exp[1]):
                return "cell (%d,%d) is type %r value %r, should be type %r value %r" % (r, c, t, v, exp[0], exp[1])
            if m.fmt and exp[2] is not None and sh.cell_xf_index(r, c) != exp[2]:
                return "cell (%d,%d) has XF %r, should be %r" % (r, c, sh.cell_xf_index(r, c), exp[2])
            cell = sh.cell(r, c)
            if cell.ctype != t or not veq(cell.value, v):
                return "cell(%d,%d) object %r differs from cell_type/cell_value" % (r, c, cell)
        if ragged and not raises(IndexError, sh.cell_value, r, got):
            return "cell_value(%d,%d) beyond the end of a ragged row did not raise IndexError" % (r, got)
    if not raises(IndexError, sh.cell_value, nr, 0):
        return "cell_value(%d,0) beyond the last row did not raise IndexError" % nr
    if m.fmt and [tuple(x) for x in sh.merged_cells] != m.merged:
        return "merged_cells %r, should be %r" % (sh.merged_cells, m.merged)
    return None


class Seqs(Space):
    def __init__(self, name, ver, ops, depth, first=None, min_depth=0, modes=MODES):
        self.name, self.ver, self.ops, self.depth, self.first, self.min_depth = name, ver, ops, depth, first, min_depth
        self.modes = modes
        self.bound = "all sequences of <=%d of %d records, BIFF%s, %d modes" % (depth, len(ops), ver, len(modes))

    def gen(self):
        for n in range(self.min_depth, self.depth + 1):
            for seq in itertools.product(range(len(self.ops)), repeat=n):
                if self.first:
                    for f in range(len(self.first)):
                        yield (f,) + seq
                else:
                    yield seq

    def judge(self, case):
        seq = list(case)
        ops = []
        if self.first:
            f = self.first[seq.pop(0)]
            if f:
                ops.append(f)
        ops += [self.ops[i] for i in seq]
        keys = []
        for ragged, fmt in self.modes:
            m = Model(fmt)
            body = b"".join(m.apply(self.ver, op, k) for k, op in enumerate(ops))
            bk = open_bytes(B.single(self.ver, body, prelude(self.ver)), ragged_rows=ragged, formatting_info=fmt)
            sh = bk.sheet_by_index(0)
            f = compare(sh, m, ragged)
            if f:
                return Result("ragged_rows=%r formatting_info=%r records %r: %s" % (ragged, fmt, ops, f), evals=1)
            keys.append((sorted(m.cells.items()), m.extent(), ragged, fmt))
        return Result(outcome=keys, nontrivial=bool(seq), evals=len(self.modes), steps=len(ops) * len(self.modes))


def spaces(tier):
    q = tier == "quick"
    g33 = [("num", r, c) for r in range(3) for c in range(3)]
    g23 = [("num", r, c) for r in (0, 1, 2) for c in (0, 2)]
    mixed8 = ([(k, r, c) for k, r, c in [
        ("num", 0, 0), ("num", 1, 2), ("date", 2, 1), ("text", 0, 1), ("rk", 1, 0), ("bool", 2, 0),
        ("err9", 0, 2), ("blank", 1, 1), ("blank", 3, 3), ("fstr", 1, 1), ("fnum", 2, 2), ("row", 4, 5)]] +
        [("mulrk", 0, 0, 3), ("mulrk", 2, 1, 2), ("mulblank", 1, 0, 2), ("mulblank", 0, 2, 3),
         ("merge", 0, 1, 0, 1), ("merge", 3, 4, 0, 0), ("merge", 1, 1, 2, 4), ("merge", 4, 5, 3, 5)])
    mixed2 = [("num", 0, 0), ("date", 1, 1), ("num", 2, 1), ("int2", 1, 1), ("text", 0, 2), ("bool", 1, 0), ("err", 2, 2),
              ("blank", 3, 0), ("blank", 0, 1), ("fstr", 1, 2), ("fnum", 0, 0)]
    mixed5 = [o for o in mixed8 if o[0] != "merge"]
    dims = [None, ("dim", 0, 0), ("dim", 1, 1), ("dim", 3, 3), ("dim", 9, 9)]
    sp = [
        Seqs("numbers 3x3 BIFF8", 80, g33, 4 if q else 6),
        Seqs("numbers 3 rows x 2 cols gap BIFF8", 80, g23, 5 if q else 7, min_depth=5),
        Seqs("mixed records BIFF8", 80, mixed8, 3 if q else 4),
        Seqs("mixed records after DIMENSIONS BIFF8", 80, mixed8, 2 if q else 3, first=dims[1:]),
        Seqs("DIMENSIONS anywhere BIFF8", 80, [("dim", 0, 0), ("dim", 1, 2), ("dim", 9, 9), ("num", 0, 0), ("text", 1, 1), ("num", 3, 2), ("mulrk", 1, 0, 3), ("blank", 2, 3), ("merge", 3, 4, 0, 1)], 4 if q else 5),
        Seqs("DIMENSIONS anywhere BIFF5", 50, [("dim", 0, 0), ("dim", 4, 1), ("num", 0, 0), ("rk", 2, 2), ("blank", 1, 3)], 3 if q else 5),
        Seqs("DIMENSIONS anywhere BIFF4", 40, [("dim", 0, 0), ("dim", 4, 1), ("num", 0, 0), ("fstr", 2, 2), ("blank", 1, 3)], 3 if q else 5),
        Seqs("DIMENSIONS anywhere BIFF3", 30, [("dim", 0, 0), ("dim", 4, 1), ("num", 0, 0), ("text", 2, 2), ("blank", 1, 3)], 3 if q else 5),
        Seqs("DIMENSIONS anywhere BIFF2", 21, [("dim", 0, 0), ("dim", 4, 1), ("num", 0, 0), ("int2", 2, 2), ("blank", 1, 3)], 3 if q else 5),
        Seqs("mixed records BIFF2", 21, mixed2, 3 if q else 4, first=[("dim", 0, 0)]),
        Seqs("mixed records BIFF2 without DIMENSIONS", 21, mixed2, 2),
        Seqs("mixed records BIFF5", 50, mixed5, 2 if q else 3),
        Seqs("mixed records after DIMENSIONS BIFF3", 30, [o for o in mixed5 if o[0] not in ("mulrk", "mulblank", "row")],
             2 if q else 3, first=dims[1:]),
        Seqs("mixed records after DIMENSIONS BIFF4", 40, [o for o in mixed5 if o[0] not in ("mulrk", "mulblank", "row")],
             2 if q else 3, first=dims[1:]),
        Seqs("sheet corners BIFF8 ragged", 80, [("num", 65535, 0), ("num", 0, 255), ("num", 65535, 255), ("num", 1, 1),
                                                ("mulrk", 65535, 253, 3), ("mulblank", 0, 254, 2)], 2,
             modes=[(True, False), (True, True)]),
        Seqs("sheet corners BIFF8 padded", 80, [("num", 65535, 0), ("num", 0, 0), ("num", 0, 255), ("num", 300, 255)], 1),
        Seqs("sheet corners BIFF5", 50, [("num", 16383, 0), ("num", 0, 255), ("num", 16383, 255), ("num", 1, 1)], 2,
             modes=[(True, False), (True, True)]),
    ]
    return sp + [neigh.Neigh(neigh.cells, "cells")]
