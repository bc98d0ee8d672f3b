"""C18: defined names - listing, flags, scope, the two maps, Name.cell and Name.area2d."""
import itertools
from struct import pack
import biff as B, neigh
import rpn as R
from mc import Space, Result
from xl import *

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of workbooks with names: all arrangements of sheet kinds, all scopes and sheet references, all flag words, all small multisets of names, all orders of SUPBOOK records, all reference positions around sheet edges; compared with an independent model of the stored records; every record followed by each of its single-bit alterations"
NOTE = ("All arrangements of worksheets, charts, macro sheets and modules up to 4 (thorough: 5) sheets with one local name per sheet number and a reference to every pair of sheets; all 8192 option words; every sequence of up to 4 names over letters and scopes; "
        "all positions of single cells and rectangles around the edges of sheets of several sizes, ragged or not, on demand or not. BIFF5, 7 and 8.")
RULE = "evaluations = names or name lookups compared with the model. Every case has at least one name."
ASSUMPTIONS = ["when two names have the same text and scope, either may be the one in name_and_scope_map",
               "Name.cell for a cell outside the stored extent of its sheet may answer an empty cell or raise IndexError or XLRDError",
               "the scope of a name tied to a sheet that is not a worksheet is -2, of one tied to a sheet that does not exist -3 (BIFF8) or any negative number but -1"]

KINDS = {"w": 0, "c": 2, "m": 1, "v": 6}
NAMES4 = ["Sheet1", "Two words", "D\xe9ux", "x4", "Five"]
FLAGS = [("hidden", 0, 1), ("func", 1, 1), ("vbasic", 2, 1), ("macro", 3, 1), ("complex", 4, 1), ("builtin", 5, 1), ("funcgroup", 6, 0x3F), ("binary", 12, 1)]
BUILTIN = ["Consolidate_Area", "Auto_Open", "Auto_Close", "Extract", "Database", "Criteria", "Print_Area", "Print_Titles", "Recorder", "Data_Form", "Auto_Activate", "Auto_Deactivate", "Sheet_Title", "_FilterDatabase"]


def exc(f):
    """What f() raises, or None."""
    try:
        f()
    except Exception as e:
        return e


def links(ver, names, pairs):
    """Records that let formulas name sheets. BIFF8: refx k is pairs[k]; BIFF5/7: EXTERNSHEET k+1 (1-based) is sheet k, then the 'own document' one."""
    if ver >= 80:
        return B.supbook_internal(len(names)) + B.externsheet8([(0, a, b) for a, b in pairs])
    return B.externcount(len(names) + 1) + b"".join(B.externsheet5(3, n) for n in names) + B.externsheet5(4)


def area_tok(ver, k, pair, box, nsheets):
    """tArea3d (or tRef3d for one cell when box has 2 numbers) on the k-th pair of sheets."""
    sh = (k, (-(nsheets + 1), pair[0], pair[1]))
    if len(box) == 2:
        return b"\x3A" + R.sheet3d(ver, sh) + R.ref_bytes(ver, (box[0], box[1], 0, 0))
    return b"\x3B" + R.sheet3d(ver, sh) + R.area_bytes(ver, (box[0], box[2], 0, 0), (box[1] - 1, box[3] - 1, 0, 0))


def scope_name(ver, name, rpn, sheet, flags=0):
    """sheet: 0 global or 1-based sheet number."""
    return B.name_rec(ver, name, rpn, flags, sheet=sheet if ver >= 80 else min(sheet, 5), extsheet=sheet)


class Arrangements(Space):
    name = "sheet arrangements"
    case_limit = 30

    def __init__(self, nmax):
        self.nmax = nmax
        self.bound = "all sequences of 1..%d sheets of 4 kinds, names before or after the sheet declarations, sheets stored in file order or reversed; a name local to every sheet number and one global, each referring to every pair of sheets" % nmax

    def gen(self):
        for ver in (80, 70, 50):
            for n in range(1, self.nmax + 1):
                for kinds in itertools.product("wcmv", repeat=n):
                    if "w" not in kinds and n > 1:
                        continue
                    for early in (0, 1) if ver < 80 else (0,):
                        yield (ver, "".join(kinds), early)

    def judge(self, case):
        ver, kinds, early = case
        n = len(kinds)
        names = NAMES4[:n]
        pairs = [(a, b) for a in range(n) for b in range(a, n)] + ([(0xFFFF, 0xFFFF), (0xFFFE, 0xFFFE), (n, n), (1, 0)] if ver >= 80 else [(-1, -1), (n, n), (1, 0)])
        recs, model = b"", []
        ws = [i for i, k in enumerate(kinds) if k == "w"]
        for s in range(0, n + 1 + (ver >= 80)):
            for k, p in enumerate(pairs):
                nm = "n_%d_%d" % (s, k)
                recs += scope_name(ver, nm, area_tok(ver, k, p, (0, 2, 0, 1), n), s)
                scope = -1 if s == 0 else -3 if s > n else ws.index(s - 1) if s - 1 in ws else -2
                a, b = p
                if a == b == 0xFFFE:
                    target = "any"
                elif 0 <= a <= b < n and kinds[a] == kinds[b] == "w":
                    target = (ws.index(a), ws.index(b) + 1)
                else:
                    target = None
                model.append((nm, scope, target))
        sheets = [B.Sh(nm, B.number(ver, 0, 0, float(i)) + B.number(ver, 1, 0, 10.0 + i) if k == "w" else b"", KINDS[k]) for i, (nm, k) in enumerate(zip(names, kinds))]
        lk = links(ver, names, pairs)
        data = B.workbook(ver, sheets, pre=lk + recs if early else b"", post=b"" if early else lk + recs)
        bk = open_bytes(data)
        if [o.name for o in bk.name_obj_list] != [m[0] for m in model]:
            return Result(fail="%s: name_obj_list has %r" % (case, [o.name for o in bk.name_obj_list]))
        out = []
        for o, (nm, scope, target) in zip(bk.name_obj_list, model):
            if o.scope != scope and not (scope == -3 and o.scope < -1):
                return Result(fail="name %s local to sheet number %s of %s has scope %r, expected %r" % (nm, nm.split("_")[1], kinds, o.scope, scope))
            e = None
            if target is None or target == "any":
                res = o.result
                a, b = pairs[int(nm.split("_")[2])]
                for r in (res.value or ()) if res is not None else ():
                    # "any sheet" is one sheet of this workbook, not a range; a sheet that is gone is no range either
                    if target == "any" and tuple(r.coords[:2]) != (-1, 0) or a == b and r.coords[1] - r.coords[0] != 1:
                        e = "sheet part of the reference is %r" % (r.coords[:2],)
                if res is not None and res.text and a == b and ("$A$1:$A$2" not in res.text or any(names[i] in res.text for i in ws) or res.text.count(":") != 1):
                    e = "text of the reference is %r" % res.text
                for f in (o.cell, o.area2d, lambda: o.area2d(clipped=False)):
                    if target != "any" and o.result is not None and o.result.value is not None and any(r.coords[0] >= 0 for r in o.result.value):
                        e = "value %r" % (o.result.value,)
                    if not isinstance(exc(f), xlrd.XLRDError):
                        e = "cell() or area2d() does not raise XLRDError"
            else:
                v = o.result.value
                if [tuple(r.coords) for r in v] != [target + (0, 2, 0, 1)]:
                    e = "reference %r, expected %r" % (v, target)
                elif target[1] - target[0] == 1:
                    sh, *box = o.area2d()
                    if sh is not bk.sheet_by_index(target[0]) or box != [0, 2, 0, 1]:
                        e = "area2d gives %r" % ((sh.name, box),)
                    elif [sh.cell_value(r, 0) for r in (0, 1)] != [float(ws[target[0]]), 10.0 + ws[target[0]]]:
                        e = "area2d leads to the wrong sheet"
                elif not isinstance(exc(o.area2d), xlrd.XLRDError):
                    e = "area2d of several sheets does not raise XLRDError"
                if e is None and not isinstance(exc(o.cell), xlrd.XLRDError):
                    e = "cell of an area does not raise XLRDError"
            if e:
                return Result(fail="sheets %s, name %s -> sheets %r: %s" % (kinds, nm, pairs[int(nm.split("_")[2])], e))
            out.append((o.scope, target))
        return Result(outcome=tuple(out), evals=len(model))


class Flags(Space):
    """Option words and names."""
    name = "flags and names"
    bound = "all 8192 option words; built-in codes 0..30; names of every length 1..255 and of every kind of letter"
    case_limit = 60

    def gen(self):
        for ver in (80, 70):
            for hi in range(0, 8192, 256):
                yield (ver, "flags", hi)
            yield (ver, "builtin", 0)
            for k in range(4):
                yield (ver, "names", k)

    def judge(self, case):
        ver, what, k = case
        enc = "latin_1"
        recs, model = b"", []
        tok = R.int_(7).enc(ver)
        pre = b""
        if what == "flags":
            for w in range(k, k + 256):
                nm = "\x06" if w & 0x20 else "f%d" % w
                model.append((w, "Print_Area" if w & 0x20 else nm))
                recs += B.name_rec(ver, nm, tok, w)
        elif what == "builtin":
            for c in range(31):
                model.append((0x20, BUILTIN[c] if c < len(BUILTIN) else None))
                recs += B.name_rec(ver, chr(c), tok, 0x20)
        else:
            if ver < 80:
                pre, enc = B.codepage([1252, 1251, 932, 10000][k]), ["cp1252", "cp1251", "cp932", "mac_roman"][k]
            if k == 0:
                texts = ["a" * n for n in range(1, 256)]
            elif k == 1:
                texts = ["\u0434" * n + "z" for n in range(0, 120, 7)] + ["\u0434.\u0436_\u044f"]
            elif k == 2:
                texts = ["\u30c6" * n for n in (1, 2, 60)] + ["\uff71x", "a\u4e00b"]
            else:
                texts = ["\xe9t\xe9", "x\\y", "a?b", "_", "\xfcber.alles"]
            for t in texts:
                for wide in (0, 1) if ver >= 80 and B.can_narrow(t) else (None,):
                    model.append((0, t))
                    recs += B.name_rec(ver, t, tok, 0, enc=enc, wide=wide)
        bk = open_bytes(B.workbook(ver, [B.Sh("S", B.number(ver, 0, 0, 1.0))], pre=pre, post=recs))
        if len(bk.name_obj_list) != len(model):
            return Result(fail="%d names listed, %d stored" % (len(bk.name_obj_list), len(model)))
        for i, (o, (w, nm)) in enumerate(zip(bk.name_obj_list, model)):
            if o.name_index != i or o.book is not bk:
                return Result(fail="name %d has name_index %r" % (i, o.name_index))
            if nm is not None and o.name != nm:
                return Result(fail="name %r is reported as %r" % (nm, o.name))
            for attr, sh, mask in FLAGS:
                if getattr(o, attr) != w >> sh & mask:
                    return Result(fail="option word %04x: %s is %r" % (w, attr, getattr(o, attr)))
            if o.raw_formula[:o.basic_formula_len] != tok:
                return Result(fail="raw formula %r" % (o.raw_formula,))
            if not w & 0x1008 and (o.result is None or o.result.value != 7.0):
                return Result(fail="option word %04x: result %r" % (w, o.result))
        return Result(outcome=tuple((o.name, o.option_flags) for o in bk.name_obj_list), evals=len(model))


class Maps(Space):
    """name_map and name_and_scope_map for all short sequences of names."""
    name = "maps"
    case_limit = 60

    def __init__(self, nmax):
        self.nmax = nmax
        self.bound = "every sequence of 1..%d names over {a, A, b, \xc9, \xe9} x {global, worksheet 1, chart, worksheet 2, no such sheet}" % nmax

    def gen(self):
        for ver in (80, 70):
            for n in range(1, self.nmax + 1):
                # blocks: the first elements fixed, all possibilities for the rest inside one case
                for head in itertools.product(range(25), repeat=n - 1):
                    yield (ver, head)

    def judge(self, case):
        ver, head = case
        n = 0
        for last in range(25):
            seq = [("aAb\xc9\xe9"[i % 5], i // 5) for i in tuple(head) + (last,)]
            names = ["W1", "C", "W2"]
            recs = b"".join(scope_name(ver, t, R.int_(i).enc(ver), s) for i, (t, s) in enumerate(seq))
            num = B.number(ver, 0, 0, 1.0)
            bk = open_bytes(B.workbook(ver, [B.Sh("W1", num), B.Sh("C", b"", 2), B.Sh("W2", num)], post=links(ver, names, []) + recs))
            lst = bk.name_obj_list
            sc = [{0: -1, 1: 0, 2: -2, 3: 1}.get(s) for t, s in seq]
            for o, (t, s), x in zip(lst, seq, sc):
                if o.name != t or (o.scope != x if x is not None else o.scope > -2):
                    return Result(fail="%r: name %r scope %r" % (seq, o.name, o.scope))
            exp = {}
            for o in lst:
                exp.setdefault(o.name.lower(), []).append(o)
            for v in exp.values():
                v.sort(key=lambda o: (o.scope, o.name_index))
            if set(bk.name_map) != set(exp):
                return Result(fail="%r: name_map has %r" % (seq, sorted(bk.name_map)))
            for k, v in exp.items():
                got = bk.name_map[k]
                if [id(o) for o in got] != [id(o) for o in v] and (sorted(map(id, got)) != sorted(map(id, v)) or [o.scope for o in got] != [o.scope for o in v]):
                    return Result(fail="%r: name_map[%r] is %r" % (seq, k, [(o.name, o.scope) for o in got]))
            keys = {(o.name.lower(), o.scope) for o in lst}
            if set(bk.name_and_scope_map) != keys:
                return Result(fail="%r: name_and_scope_map has %r" % (seq, sorted(bk.name_and_scope_map)))
            for k, o in bk.name_and_scope_map.items():
                if not any(o is p and (p.name.lower(), p.scope) == k for p in lst):
                    return Result(fail="%r: name_and_scope_map[%r] is another name" % (seq, k))
            n += 1
        return Result(outcome=tuple(sorted((k, len(v)) for k, v in bk.name_map.items())), evals=n)


def grid_body(ver, rows):
    """rows: list of row widths; cell (r, c) holds 100 r + c."""
    return b"".join(B.number(ver, r, c, 100.0 * r + c) for r, w in enumerate(rows) for c in range(w))


class Positions(Space):
    """Name.cell and Name.area2d around the edges of sheets."""
    name = "cells and areas"
    case_limit = 60

    def __init__(self, deep):
        self.deep = deep
        self.bound = "every cell and rectangle with edges out of %d positions on sheets of 6 shapes, clipped or not, ragged or not, sheets loaded at once, on demand or unloaded" % (9 if deep else 7)

    def gen(self):
        for ver in (80, 70):
            for shape in ((), (1,), (3, 3), (2, 0, 4), (0, 0, 1), (1,) * 5):
                for ragged in (0, 1):
                    for mode in ("all", "demand", "unloaded"):
                        yield (ver, shape, ragged, mode)

    def judge(self, case):
        ver, shape, ragged, mode = case
        last_r, last_c = (65535 if ver >= 80 else 16383), 255
        rp = [0, 1, 2, 3, 5, last_r] + ([4, 6, 100] if self.deep else [])
        cp = [0, 1, 2, 3, 4, last_c] + ([5, 100, 254] if self.deep else [])
        boxes = [(r, c) for r in rp for c in cp] + [(r, r2 + 1, c, c2 + 1) for r in rp for r2 in rp if r2 >= r for c in cp for c2 in cp if c2 >= c]
        recs = b"".join(B.name_rec(ver, "n_%d" % i, area_tok(ver, 1, (1, 1), b, 3)) for i, b in enumerate(boxes))
        names = ["One", "Two", "Three"]
        other = B.number(ver, 9, 9, -1.0)
        data = B.workbook(ver, [B.Sh("One", other), B.Sh("Two", grid_body(ver, shape)), B.Sh("Three", other)], post=links(ver, names, [(0, 0), (1, 1), (2, 2)]) + recs)
        bk = open_bytes(data, ragged_rows=bool(ragged), on_demand=mode != "all")
        if mode == "unloaded":
            bk.sheet_by_index(1)
            bk.unload_sheet(1)
        nrows = max([i + 1 for i, w in enumerate(shape) if w] or [0])
        ncols = max(shape or [0])
        n = 0
        for o, b in zip(bk.name_obj_list, boxes):
            full = (b[0], b[0] + 1, b[1], b[1] + 1) if len(b) == 2 else b
            sh, *raw = o.area2d(clipped=False)
            if sh.name != "Two" or sh is not bk.sheet_by_index(1) or tuple(raw) != full:
                return Result(fail="%s: area2d(clipped=False) of %r is %r on %r" % (case, b, raw, sh.name))
            if (sh.nrows, sh.ncols) != (nrows, ncols):
                return Result(fail="harness: sheet is %dx%d" % (sh.nrows, sh.ncols))
            rlo, clo = min(full[0], nrows), min(full[2], ncols)
            want = (rlo, max(rlo, min(full[1], nrows)), clo, max(clo, min(full[3], ncols)))
            for args in ((), (True,)):
                sh2, *got = o.area2d(*args)
                if sh2 is not sh or tuple(got) != want:
                    return Result(fail="%s: area2d of %r is %r, clipped to the sheet it is %r" % (case, b, got, want))
            one = full[1] - full[0] == 1 == full[3] - full[2]
            try:
                cell = o.cell()
            except Exception as e:
                cell = e
            if not one:
                if not isinstance(cell, xlrd.XLRDError):
                    return Result(fail="%s: cell() of the area %r gives %r" % (case, b, cell))
            elif full[0] < nrows and full[2] < ncols and (not ragged or full[2] < shape[full[0]]):
                stored = full[2] < (shape + (0,) * 9)[full[0]]
                if isinstance(cell, Exception) or cell.ctype != (xlrd.XL_CELL_NUMBER if stored else xlrd.XL_CELL_EMPTY) or cell.value != (100.0 * full[0] + full[2] if stored else ""):
                    return Result(fail="%s: cell() of %r gives %r" % (case, b, cell))
            elif isinstance(cell, Exception):
                if not isinstance(cell, (IndexError, xlrd.XLRDError)):
                    return Result(fail="%s: cell() of %r raises %r" % (case, b, cell))
            elif cell.ctype not in (xlrd.XL_CELL_EMPTY, xlrd.XL_CELL_BLANK) or cell.value != "":
                return Result(fail="%s: cell() outside the sheet, %r, gives %r" % (case, b, cell))
            n += 4
        return Result(outcome=(shape, ragged, nrows, ncols), evals=n)


class NotRefs(Space):
    """Everything that is not one cell or one area in one sheet: XLRDError, whatever the formula."""
    name = "other formulas"
    bound = "every operand token, every pair of operands under every reference operator and +, no formula, macro and binary names"
    case_limit = 60

    def gen(self):
        for ver in (80, 70):
            for i in range(40):
                yield (ver, i)

    def toks(self, ver):
        n = 3
        a1, area = area_tok(ver, 0, (0, 0), (0, 0), n), area_tok(ver, 1, (1, 1), (0, 2, 0, 2), n)
        b8 = ver >= 80
        rel = b"\x3A" + R.sheet3d(ver, (0, (-4, 0, 0))) + R.ref_bytes(ver, (0, 0, 1, 0))
        return [(a1, (0, 0, 1, 0, 1)), (area, (1, 0, 2, 0, 2)), (area_tok(ver, 2, (0, 1), (0, 0), n), None), (R.int_(1).enc(ver), None), (R.str_("x").enc(ver), None), (R.bool_(1).enc(ver), None), (R.err(7).enc(ver), None),
                (b"\x16", None), (b"\x60" + bytes(7), None), (rel, None), (b"\x44" + R.ref_bytes(ver, (0, 0, 0, 0)), None), (b"\x24" + R.ref_bytes(ver, (0, 0, 0, 0)), None), (b"\x25" + R.area_bytes(ver, (0, 0, 0, 0), (1, 1, 0, 0)), None),
                (b"\x2C" + R.ref_bytes(ver, (0, 0, 0, 0)), None), (b"\x2D" + R.area_bytes(ver, (0, 0, 0, 0), (1, 1, 0, 0)), None),
                (b"\x2A" + bytes(4 if b8 else 3), None), (b"\x2B" + bytes(8 if b8 else 6), None), (b"\x3C" + bytes(6 if b8 else 17), None), (b"\x3D" + bytes(10 if b8 else 20), None),
                (b"\x42\x00\x08\x00", None), (b"\x41\x13\x00", None)]

    def judge(self, case):
        ver, i = case
        toks = self.toks(ver)
        forms = []
        if i < len(toks):
            a = toks[i]
            forms.append(a)
            forms.append((a[0] + b"\x15", a[1]))
            for b in toks:
                for op in (3, 15, 16, 17):
                    if a in toks[:3] and b in toks[:3] and op in (15, 17) and not (a is b and a[1]):
                        continue                # C19 judges the values of these
                    forms.append((a[0] + b[0] + bytes([op]), a[1] if a is b and op in (15, 17) else None))
        else:
            forms = [(b"", None), (b"\x1e", None), (toks[0][0] + toks[1][0], None)]
        recs = b"".join(B.name_rec(ver, "n_%d" % k, f[0]) for k, f in enumerate(forms))
        for fl in (8, 0x1000, 0xE, 0x1008):
            recs += B.name_rec(ver, "m_%d" % fl, toks[0][0], fl)
            forms.append((b"", None))
        names = ["One", "Two", "Three"]
        body = grid_body(ver, (3, 3, 3))
        bk = open_bytes(B.workbook(ver, [B.Sh(n, body) for n in names], post=links(ver, names, [(0, 0), (1, 1), (0, 1)]) + recs))
        outs = []
        for o, (f, want) in zip(bk.name_obj_list, forms):
            got = []
            for fn in (o.cell, o.area2d, lambda: o.area2d(False)):
                try:
                    r = fn()
                    got.append(r.value if hasattr(r, "value") else (names.index(r[0].name),) + tuple(r[1:]))
                except xlrd.XLRDError:
                    got.append(None)
                except Exception as e:
                    return Result(fail="name with tokens %s: %s: %s" % (f.hex(), type(e).__name__, e), evals=len(outs))
            exp = [None] * 3
            if want:
                exp = [0.0 if want == (0, 0, 1, 0, 1) else None, want, want]
            if got != exp:
                return Result(fail="name with tokens %s: cell, area2d, area2d(False) give %r, expected %r" % (f.hex(), got, exp))
            outs.append(tuple(g is None for g in got))
        return Result(outcome=tuple(outs), evals=3 * len(forms))


class Supbooks(Space):
    """The own-document SUPBOOK anywhere among others, EXTERNSHEET cut into CONTINUE records, long external books."""
    name = "link tables, BIFF8"
    bound = "all orders of up to 4 SUPBOOK kinds with EXTERNNAME records; EXTERNSHEET of 1..65535 entries, cut by CONTINUE after every entry or byte, or every two bytes; an external SUPBOOK cut after every byte"
    case_limit = 60

    def gen(self):
        for n in range(1, 5):
            for kinds in itertools.product("iead", repeat=n):
                if kinds.count("i") == 1 and kinds.count("a") <= 1:
                    yield ("order", "".join(kinds))
        for cut in range(2, 44):
            yield ("cut", cut)
        for cuts in itertools.combinations(range(2, 44), 2):
            yield ("cut", cuts)
        for k in (6, 4, 3, 2):
            yield ("cut", tuple(range(2 + k, 44, k)))
        for nref in (1, 2, 1369, 1370, 1371, 2000, 2740, 2741, 4110, 4111, 65535):
            yield ("many", nref)
        for cut in range(13, 80):      # (real ones are cut beyond 8224 bytes)
            yield ("ext", cut)

    def judge(self, case):
        what, x = case
        ver = 80
        kinds = x if what == "order" else "i"
        sup = b""
        for k in kinds:
            if k == "i":
                sup += B.supbook_internal(3)
            elif k == "e":
                sup += B.supbook_external("\x01book.xls", ["S", "T"]) + B.externname8("outer")
            elif k == "a":
                sup += B.supbook_addin() + B.externname8("EDATE") + B.externname8("EOMONTH")
            else:
                sup += B.rec(0x01AE, pack("<H", 0) + B.ustr("\x01prog\x03topic", 2)) + B.externname8("item")
        me = kinds.index("i")
        refs = []
        for i, k in enumerate(kinds):
            refs += [(i, 0, 0), (i, 1, 1), (i, 0xFFFE, 0xFFFE)] if k != "a" else [(i, 0xFFFE, 0xFFFE)]
        if what == "cut":
            refs = [(0, j % 3, j % 3) for j in range(7)]
            raw = pack("<H", 7) + b"".join(pack("<HHH", *r) for r in refs)
            cuts = x if isinstance(x, (tuple, list)) else (x,)
            ext = B.rec(0x0017, raw[:cuts[0]]) + b"".join(B.rec(0x003C, raw[p:q]) for p, q in zip(cuts, tuple(cuts[1:]) + (44,)))
        elif what == "many":
            refs = [(0, j % 3, j % 3) for j in range(x)]
            raw = pack("<H", x) + b"".join(pack("<HHH", *r) for r in refs)
            ext = B.rec(0x0017, raw[:8222]) + b"".join(B.rec(0x003C, raw[p:p + 8220]) for p in range(8222, len(raw), 8220))
        else:
            ext = B.externsheet8(refs)
        if what == "ext":
            raw = B.supbook_external("\x01b.xls", ["Sheet one", "\u0434\u0436", "Three", "S4", "Number five"])[4:]
            if x >= len(raw):
                return Result(nontrivial=False)
            sup += B.rec(0x01AE, raw[:x]) + B.rec(0x003C, raw[x:])
        recs, model = b"", []
        for j, r in enumerate(refs):
            if what == "many" and 3 < j < len(refs) - 3:
                continue
            recs += B.name_rec(ver, "n_%d" % j, area_tok(ver, j, (0, 0), (0, 0), 3))
            model.append(r)
        names = ["One", "Two", "Three"]
        try:
            bk = open_bytes(B.workbook(ver, [B.Sh(n, B.number(ver, 0, 0, float(i))) for i, n in enumerate(names)], post=sup + ext + recs))
        except Exception as e:
            return Result(fail="%s: workbook unreadable: %s: %s" % (case, type(e).__name__, e))
        for o, r in zip(bk.name_obj_list, model):
            try:
                got = o.cell().value
            except xlrd.XLRDError:
                got = None
            want = float(r[1]) if r[0] == me and r[1] < 3 else None
            if got != want:
                return Result(fail="%s: reference through entry %r leads to %r" % (case, r, got))
        if "a" in kinds and bk.addin_func_names != ["EDATE", "EOMONTH"]:
            return Result(fail="%s: add-in function names %r" % (case, bk.addin_func_names))
        return Result(outcome=(kinds, len(model)), evals=len(model))


class Sheets57(Space):
    """BIFF5/7: every kind of EXTERNSHEET record a local name may be tied to."""
    name = "scope records, BIFF5/7"
    bound = "every sequence of up to 3 EXTERNSHEET records of 6 kinds with a name tied to each index 0..4"
    case_limit = 60

    def gen(self):
        for ver in (70, 50):
            for n in range(0, 4):
                for kinds in itertools.product(("one", "two", "chart", "gone", "own", "url"), repeat=n):
                    yield (ver, kinds)

    def judge(self, case):
        ver, kinds = case
        sheets = {"one": "One", "two": "D\xe9ux", "chart": "Ch", "gone": "Deleted"}
        ext = B.externcount(len(kinds)) if kinds else b""
        for k in kinds:
            ext += B.externsheet5(3, sheets[k]) if k in sheets else B.externsheet5(4) if k == "own" else B.rec(0x0017, b"\x06\x01\x01b.xls")
        recs = b"".join(B.name_rec(ver, "n_%d" % i, R.int_(i).enc(ver), sheet=min(i, 3), extsheet=i) for i in range(5))
        try:
            bk = open_bytes(B.workbook(ver, [B.Sh("One", B.number(ver, 0, 0, 1.0)), B.Sh("Ch", b"", 2), B.Sh("D\xe9ux", B.number(ver, 0, 0, 2.0))], pre=B.codepage(1252), post=ext + recs))
        except Exception as e:
            return Result(fail="%s: workbook unreadable: %s: %s" % (case, type(e).__name__, e))
        got = [o.scope for o in bk.name_obj_list]
        for i, s in enumerate(got):
            k = kinds[i - 1] if 0 < i <= len(kinds) else None
            ok = s == -1 if i == 0 else s == 0 if k == "one" else s == 1 if k == "two" else s < -1
            if not ok:
                return Result(fail="%s: name tied to EXTERNSHEET record %d has scope %r" % (case, i, s))
            if bk.name_obj_list[i].result.value != float(i):
                return Result(fail="%s: result of name %d" % (case, i))
        return Result(outcome=tuple(got), evals=5)


class Alike(Space):
    """BIFF5/7: a scope is given by the name of the sheet."""
    name = "sheets with similar names"
    case_limit = 60
    NAMES = ("A", "A ", " A", "AA", "A A", "A'", "'A'", "A!", "\xc4", "A.", "1", "1.0", "TRUE", "-")

    def __init__(self, n):
        self.n = n
        self.bound = "all orders of %d of %d similar sheet names; a name local to each sheet, one referring to each" % (n, len(self.NAMES))

    def gen(self):
        for ver in (80, 70, 50):
            for names in itertools.permutations(self.NAMES, self.n):
                yield ver, names

    def judge(self, case):
        ver, names = case
        n = len(names)
        pairs = [(i, i) for i in range(n)]
        recs = b"".join(scope_name(ver, "n", area_tok(ver, i, (i, i), (0, 1, 0, 1), n), i + 1) for i in reversed(range(n)))
        sheets = [B.Sh(nm, B.number(ver, 0, 0, float(i))) for i, nm in enumerate(names)]
        bk = open_bytes(B.workbook(ver, sheets, pre=B.codepage(1252) if ver < 80 else b"", post=links(ver, names, pairs) + recs))
        if bk.sheet_names() != list(names):
            return Result(fail="%s: sheet names %r" % (case, bk.sheet_names()))
        for i, nm in enumerate(names):
            o = bk.name_and_scope_map.get(("n", i))
            if o is None:
                return Result(fail="%s: no name with scope %d; scopes %r" % (case, i, [x.scope for x in bk.name_obj_list]))
            sh = o.area2d()[0]
            if sh is not bk.sheet_by_index(i) or bk.sheet_by_name(nm) is not sh or sh.name != nm or sh.cell_value(0, 0) != float(i) or o.cell().value != float(i):
                return Result(fail="%s: the name local to sheet %r leads to %r" % (case, nm, sh.name))
        if [o.scope for o in bk.name_map["n"]] != list(range(n)):
            return Result(fail="%s: name_map has scopes %r" % (case, [o.scope for o in bk.name_map["n"]]))
        return Result(outcome=case, evals=n)


def spaces(tier):
    deep = tier == "thorough"
    return [Arrangements(5 if deep else 4), Flags(), Maps(4 if deep else 3), Positions(deep), NotRefs(), Supbooks(), Sheets57(), Alike(3 if deep else 2), neigh.Neigh(neigh.names, "names")]
