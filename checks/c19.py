"""C19: defined-name formulas - text and constant result agree with the formula's meaning; nothing makes the workbook unreadable."""
import itertools
from struct import pack
import biff as B
import rpn as R
from mc import Space, Result
from xl import *

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of postfix token programs (all expression trees up to a number of operators, all constant operands of the operators, all name-reference graphs, all malformed token sequences up to a length), each loaded as a defined name of a real workbook; text parsed back by an independent parser of Excel's grammar and values computed by an independent evaluator"
NOTE = ("Every tree with up to 3 operators (thorough: 4) over the 15 binary, 3 unary and several function tokens; every pair and triple of constant operands; IF/CHOOSE over every kind of test; "
        "reference operators over all pairs of boxes; every graph of references among 4 names; chains and cycles; every opcode with every operand class in sequences up to 2 (thorough: 3); every function id with 0..8 arguments. BIFF5, 7 and 8.")
RULE = "A case is a block of names in one workbook; evaluations = names whose text, kind and value were compared. Every case is non-trivial: all formulas but the first block's single operands contain an operator."
ASSUMPTIONS = ["'?' in a text stands for an operand that xlrd documents it cannot render (array constants, 2-D references in names, reference errors, functions it does not know)",
               "a constant the library chooses not to compute (errors, arithmetic on logical values) may be left unknown; ordinary numbers and text may not",
               "text comparison is judged on letters only and number-to-text conversion where Excel's result is a plain decimal: elsewhere Excel's collation and display rules are not modelled"]

SHEETS = ["Sheet1", "A b", "C-D"]
EXT8 = [(0, 0, 0), (0, 1, 1), (0, 2, 2), (0, 0, 2), (0, 0xFFFF, 0xFFFF), (0, 0xFFFE, 0xFFFE), (1, 0, 0)]
SH = {k: (k, (-1, k, k)) for k in range(3)}
SH[(0, 2)] = (3, (-1, 0, 2))


def ref3d(k, r, c, rrel=0, crel=0, klass=1):
    """Leaf for a 3-D cell reference on sheet k (or a sheet range)."""
    ks = k if isinstance(k, tuple) else (k, k)
    names = tuple(SHEETS[i] for i in ks) if ks[0] != ks[1] else (SHEETS[ks[0]],)
    cell = (r, c, rrel, crel)
    box = (ks[0], ks[1] + 1, r, r + 1, c, c + 1)
    val = ("none",) if klass != 1 else ("const", ("R", [box + (0, 0, rrel, rrel, crel, crel)]) if rrel or crel else ("r", [box]))
    return R.Leaf("ref3d%r%r/%d" % (k, cell, klass), lambda ver: R.cls(0x1A, klass) + R.sheet3d(ver, SH[k]) + R.ref_bytes(ver, cell), ("area", names, cell, cell), val)


def area3d(k, a, b, klass=1):
    ks = k if isinstance(k, tuple) else (k, k)
    names = tuple(SHEETS[i] for i in ks) if ks[0] != ks[1] else (SHEETS[ks[0]],)
    box = (ks[0], ks[1] + 1, a[0], b[0] + 1, a[1], b[1] + 1)
    rel = (0, 0, a[2], b[2], a[3], b[3])
    val = ("none",) if klass != 1 else ("const", ("R", [box + rel]) if any(rel) else ("r", [box]))
    return R.Leaf("area3d%r%r%r/%d" % (k, a, b, klass), lambda ver: R.cls(0x1B, klass) + R.sheet3d(ver, SH[k]) + R.area_bytes(ver, a, b), ("area", names, a, b), val)


def name_token(ver, idx, klass=1):
    pad = {80: 2}.get(ver, 12)
    return R.cls(0x03, klass) + pack("<H", idx) + bytes(pad)


def namex_token(ver, idx, klass=1):
    if ver >= 80:
        return R.cls(0x19, klass) + pack("<HHH", 5, idx, 0)
    return R.cls(0x19, klass) + pack("<h8xH12x", -1, idx)


BASE = [("seven", 0, R.int_(7)), ("boxx", 0, None), ("loc_al", 2, R.str_("x"))]   # defined before the formulas under test


def nref(idx):
    name, scope, leaf = BASE[idx]
    val = leaf.val if leaf else ("const", ("r", [(0, 1, 0, 2, 0, 2)]))
    return R.Leaf("name:" + name, lambda ver: name_token(ver, idx + 1), ("name", (SHEETS[scope - 1],), name) if scope else ("name", name), val)


def nxref(idx):
    l = nref(idx)
    return R.Leaf("namex:" + l.key, lambda ver: namex_token(ver, idx + 1), l.tree, l.val)


BOX = area3d(0, (0, 0, 0, 0), (1, 1, 0, 0))
ARRAY = R.Leaf("array", lambda ver: b"\x60" + bytes(7), ("array",), ("none",))
SPECIAL = [
    ARRAY,
    R.Leaf("ref2d", lambda ver: b"\x44" + R.ref_bytes(ver, (1, 1, 1, 1)), ("ref2d",), ("none",)),
    R.Leaf("ref2dR", lambda ver: b"\x24" + R.ref_bytes(ver, (1, 1, 1, 1)), ("ref2d",), ("any",)),
    R.Leaf("area2d", lambda ver: b"\x45" + R.area_bytes(ver, (1, 1, 1, 1), (2, 2, 1, 1)), ("area2d",), ("none",)),
    R.Leaf("referr", lambda ver: b"\x2A" + bytes(4 if ver >= 80 else 3), ("refed",), ("any",)),
    R.Leaf("areaerr", lambda ver: b"\x4B" + bytes(8 if ver >= 80 else 6), ("refed",), ("any",)),
    R.Leaf("referr3d", lambda ver: b"\x3C" + bytes(6 if ver >= 80 else 17), ("refed",), ("any",)),
    R.Leaf("areaerr3d", lambda ver: b"\x3D" + bytes(10 if ver >= 80 else 20), ("refed",), ("any",)),
]
CONSTS = [R.int_(0), R.int_(2), R.num(-1.5), R.num(0.5), R.str_(""), R.str_("5"), R.str_("ab"), R.str_("AB"), R.bool_(1), R.bool_(0), R.err(7), R.num(1e308), R.num(-1e308), R.str_("_")]
MORE = [R.int_(1), R.int_(65535), R.num(1e-5), R.num(1e20), R.num(0.1), R.num(1 / 3.0), R.num(123456789012.0), R.num(-0.0), R.str_('say "hi"'), R.str_("a,b)+("), R.str_("\xe9"),
        R.str_("nan"), R.str_("1_0"), R.str_(" 7 "), R.str_("1e3"), R.str_("9"), R.str_("zz"), R.err(42), R.err(0), R.err(15), R.err(23), R.err(29), R.err(36)]
REFS = [BOX, ref3d(1, 4, 3), ref3d(1, 4, 3, klass=2), area3d(2, (65535 >> 2, 0, 0, 0), (65535 >> 2, 255, 0, 0)), area3d((0, 2), (0, 0, 0, 0), (1, 1, 0, 0)), ref3d(0, -1, 2, 1, 0), area3d(0, (0, 0, 1, 1), (3, 3, 1, 1)),
        area3d(0, (1, 1, 0, 0), (3, 3, 0, 0), klass=3)]
NAMES = [nref(0), nref(1), nref(2), nxref(0), nxref(2)]


def book(ver, formulas, extra=()):
    """formulas: list of token strings (or (tokens, tail) or (tokens, tail, cce)); names f0, f1... after the base names, then a sentinel."""
    def nm(name, rpn, scope=0, tail=b"", cce=None):
        return B.name_rec(ver, name, rpn, sheet=scope, extsheet=scope, tail=tail, cce=cce)
    recs = [nm(n, (l or BOX).enc(ver), s) for n, s, l in BASE]
    for i, f in enumerate(formulas):
        if isinstance(f, bytes):
            f = (f,)
        recs.append(nm("f_%d" % i, f[0], 0, *f[1:]))
    recs.append(nm("last_one", R.encode(("bin", 3, ("leaf", nref(0)), ("leaf", R.int_(1))), ver)))
    ext = B.supbook_internal(3) + B.supbook_external("\x01b.xls", ["S"]) + B.externsheet8(EXT8) if ver >= 80 else \
        B.externcount(4) + B.externsheet5(4) + b"".join(B.externsheet5(3, s) for s in SHEETS)
    if ver < 80:
        # local names are tied to a sheet by an EXTERNSHEET record: index 2 is the first sheet
        recs[2] = B.name_rec(ver, "loc_al", BASE[2][2].enc(ver), sheet=2, extsheet=3)
    body = B.number(ver, 0, 0, 1.5) + B.label(ver, 1, 1, "ok")
    sheets = [B.Sh(s, body) for s in SHEETS]
    return B.workbook(ver, sheets, post=ext + b"".join(recs))


def check_base(bk):
    n = bk.name_obj_list
    out = []
    for nm, val in ((n[0], ("n", 7.0)), (n[1], ("r", [(0, 1, 0, 2, 0, 2)])), (n[2], ("s", "x")), (n[-1], ("n", 8.0))):
        if nm.result is None:
            out.append("%s lost its result" % nm.name)
        else:
            e = R.check_value(("const", val), nm.result.kind, nm.result.value)
            if e:
                out.append("%s: %s" % (nm.name, e))
    if n[2].scope != 1:
        out.append("local name has scope %r" % (n[2].scope,))
    for sh in bk.sheets():
        if (sh.nrows, sh.ncols) != (2, 2) or sh.cell_value(0, 0) != 1.5 or sh.cell_value(1, 1) != "ok":
            out.append("cells of %r changed" % sh.name)
    return out[0] if out else None


def judge_node(node, nobj):
    """None or a failure text."""
    res = nobj.result
    if res is None:
        return "no result for a well-formed formula (stack %r)" % (nobj.stack,)
    try:
        t = R.parse(res.text, sheets=SHEETS)
    except R.ParseError as e:
        return "text %r is not a formula: %s" % (res.text, e)
    want = R.tree(node)
    if not R.same(want, t):
        return "text %r means %r, the formula is %r" % (res.text, t, want)
    e = R.check_value(R.ev(node), res.kind, res.value)
    return e and "%s (text %r)" % (e, res.text)


class Nodes(Space):
    """Blocks of expression trees."""
    def __init__(self, name, nodes, bound, vers=(80, 70), block=400, case_limit=60):
        Space.__init__(self, name=name, bound=bound, case_limit=case_limit)
        self.nodes, self.vers, self.block = nodes, vers, block

    def gen(self):
        for ver in self.vers:
            it = iter(self.nodes())
            k = 0
            while True:
                blk = list(itertools.islice(it, self.block))
                if not blk:
                    break
                self.current = blk
                yield (ver, k)
                k += 1

    def judge(self, case):
        ver, blk = case[0], self.current
        enc = [R.encode(n, ver) for n in blk]
        try:
            bk = open_bytes(book(ver, enc))
        except Exception as e:
            for n, f in zip(blk, enc):
                try:
                    open_bytes(book(ver, [f]))
                except Exception as e1:
                    return Result(fail="name formula %s (tokens %s) makes the workbook unreadable: %s: %s" % (show(n), f.hex(), type(e1).__name__, e1), outcome="raise", evals=len(blk))
            return Result(fail="a block of well-formed formulas cannot be opened: %s: %s" % (type(e).__name__, e), outcome="raise", evals=len(blk))
        out = []
        for n, f, nobj in zip(blk, enc, bk.name_obj_list[len(BASE):]):
            e = judge_node(n, nobj)
            if e:
                return Result(fail="%s (tokens %s): %s" % (show(n), f.hex(), e), outcome="bad", evals=len(blk))
            out.append((nobj.result.text, nobj.result.kind))
        return Result(fail=check_base(bk), outcome=tuple(out), evals=len(blk))


def show(n):
    t = n[0]
    if t == "leaf":
        return repr(n[1])
    if t in ("bin", "ref"):
        return "(%s %s %s)" % (show(n[2]), (R.BIN if t == "bin" else R.REFOP)[n[1]], show(n[3]))
    if t == "un":
        return "(%s %s)" % (R.UN[n[1]], show(n[2]))
    if t in ("fn", "fv"):
        return "%s%d(%s)" % (t, n[1], "; ".join(show(a) for a in n[2]))
    return "%s(%s)" % (t, show(n[-1]))


L = lambda x: ("leaf", x)
BINOPS = [("bin", c) for c in R.BIN] + [("ref", c) for c in R.REFOP]


def all_leaves():
    for l in CONSTS + MORE + REFS + NAMES + SPECIAL:
        yield L(l)


def one_op():
    pool = CONSTS + MORE[:12] + REFS + NAMES + SPECIAL
    refs = set(REFS + NAMES + SPECIAL[1:])        # reference operators take references only
    for a in pool:
        for w in ("paren", "sp", "sum"):
            yield (w, L(a))
        for u in R.UN:
            yield ("un", u, L(a))
        for fid in (24, 38):
            yield ("fn", fid, [L(a)])
        for tok in (6, 7, 8, 9):
            yield ("mem", tok, L(a))
        for b in pool:
            for k, c in BINOPS:
                if k == "bin" or a in refs and b in refs:
                    yield (k, c, L(a), L(b))


BUILDERS1 = [lambda a, u=u: ("un", u, a) for u in R.UN] + [lambda a: ("sum", a), lambda a: ("fn", 24, [a])]
BUILDERS2 = [lambda a, b, k=k, c=c: (k, c, a, b) for k, c in BINOPS] + [lambda a, b: ("fv", 4, [a, b])]


def shapes(k, leaves):
    """All trees with exactly k operators; leaves are numbered from left to right."""
    def rec(k, i):
        if k == 0:
            yield L(leaves[i % len(leaves)]), i + 1
            return
        for t, j in rec(k - 1, i):
            for f in BUILDERS1:
                yield f(t), j
        for left in range(k):
            for a, j in rec(left, i):
                for b, m in rec(k - 1 - left, j):
                    for f in BUILDERS2:
                        yield f(a, b), m
    for t, _ in rec(k, 0):
        yield t


def const3(ops, leaves):
    for x, y in itertools.product(ops, repeat=2):
        for a, b, c in itertools.product(leaves, repeat=3):
            yield ("bin", x, ("bin", y, L(a), L(b)), L(c))
            yield ("bin", x, L(a), ("bin", y, L(b), L(c)))


def functions():
    args = [R.int_(0), R.int_(1), R.int_(2), R.num(1.5), R.num(-1.0), R.str_("a"), R.bool_(1), R.bool_(0), R.err(7), R.MISS, BOX, nref(0), ref3d(0, 0, 0, klass=2)]
    two = [L(x) for x in args]
    two.append(("bin", 3, L(R.int_(0)), L(R.int_(1))))
    two.append(("fv", 8, []))
    two.append(("bin", 3, L(ref3d(0, 0, 0, klass=2)), L(R.int_(1))))
    two.append(("ref", 16, L(BOX), L(REFS[1])))
    wraps = [lambda f: f, lambda f: ("bin", 3, L(R.int_(1)), f), lambda f: ("fv", 4, [L(R.int_(1)), f, L(R.int_(2))])]
    for w in wraps:
        for fid in (4, 8, 0):
            yield w(("fv", fid, []))
        for fid in (10, 19, 34):
            yield w(("fn", fid, []))
        for a in two:
            for fid in (4, 8, 6, 0, 148):
                yield w(("fv", fid, [a]))
            for b in two:
                yield w(("fv", 1, [a, b]))
                yield w(("fv", 100, [a, b]))
                yield w(("fn", 27, [a, b]))
    for a, b, c in itertools.product(two, repeat=3):
        yield ("fv", 1, [a, b, c])
        yield ("fv", 100, [a, b, c])
    for n in range(2, 7):
        for x in (-1e9, -2.0, -1.5, -1.0, -0.5, -1e-9, -0.0, 1e-9, 0.25, 0.5, 0.999999, 1.0, 1.000001, 1.5, 1.999999, 2.0, 2.5, n - 1.0, n - 0.5, n - 0.000001, float(n), n + 0.5, 254.0, 65536.0, 1e300):
            # every way to write the number, bare and inside an outer expression
            for w in wraps:
                yield w(("fv", 100, [L(R.num(x))] + [L(R.int_(70 + i)) for i in range(n - 1)]))
            yield ("fv", 100, [("bin", 3, L(R.num(x)), L(R.int_(0)))] + [L(R.int_(70 + i)) for i in range(n - 1)])
            yield ("fv", 1, [L(R.num(x))] + [L(R.int_(70 + i)) for i in range(min(n - 1, 2))] if n > 2 else [L(R.num(x)), L(R.int_(70))])
    for n in range(3, 31):
        for k in (0, 1, 2, n - 1, n):
            yield ("fv", 100, [L(R.int_(k))] + [L(R.int_(i)) for i in range(n - 1)])
        yield ("fv", 4, [L(R.int_(i)) for i in range(n)])


def box_pairs():
    iv = [(0, 0), (0, 2), (1, 1), (1, 3), (3, 3)]
    areas = []
    for s in (0, 1):
        for r in iv:
            for c in iv:
                areas.append((s, r, c))
    for a in areas:
        for b in areas:
            if a[0] == 1 and b[0] == 1:
                continue
            for op in (15, 16, 17):
                yield ("ref", op, L(area3d(a[0], (a[1][0], a[2][0], 0, 0), (a[1][1], a[2][1], 0, 0))), L(area3d(b[0], (b[1][0], b[2][0], 0, 0), (b[1][1], b[2][1], 0, 0))))
    iv = [(-2, 0), (0, 1), (-1, -1), (2, 3)]
    for r, c, r2, c2 in itertools.product(iv, repeat=4):
        for op in (15, 16, 17):
            yield ("ref", op, L(area3d(0, (r[0], c[0], 1, 1), (r[1], c[1], 1, 1))), L(area3d(0, (r2[0], c2[0], 1, 1), (r2[1], c2[1], 1, 1))))


def flag_refs():
    """Every combination of relative flags, offsets at the edges, sheets."""
    rows8 = [(0, 0), (65535, 0), (-32768, 1), (32767, 1), (-1, 1), (0, 1), (5, 0)]
    for k in (0, 1, 2, (0, 2)):
        for (r, rr), (r2, rr2) in itertools.product(rows8, repeat=2):
            for (c, cr), (c2, cr2) in itertools.product([(0, 0), (255, 0), (-128, 1), (127, 1), (0, 1)], repeat=2):
                yield L(area3d(k, (r, c, rr, cr), (r2, c2, rr2, cr2)))
                if (r, rr, c, cr) == (r2, rr2, c2, cr2):
                    yield L(ref3d(k, r, c, rr, cr))


def flag_refs7():
    m = {65535: 16383, -32768: -8192, 32767: 8191}
    rows = [(0, 0), (16383, 0), (-8192, 1), (8191, 1), (-1, 1), (0, 1), (5, 0)]
    for k in (0, 1, 2, (0, 2)):
        for (r, rr), (r2, rr2) in itertools.product(rows, repeat=2):
            for (c, cr), (c2, cr2) in itertools.product([(0, 0), (255, 0), (-128, 1), (127, 1), (0, 1)], repeat=2):
                yield L(area3d(k, (r, c, rr, cr), (r2, c2, rr2, cr2)))
                if (r, rr, c, cr) == (r2, rr2, c2, cr2):
                    yield L(ref3d(k, r, c, rr, cr))


class Graphs(Space):
    """Names that refer to each other."""
    name = "name reference graphs"
    case_limit = 60

    def __init__(self, n, block=300):
        self.n, self.block = n, block
        self.bound = "every assignment of {constant, reference to any of the %d names, sum of constant and such a reference} to %d names; chains and rings up to 60 names in both orders" % (n, n)

    def systems(self):
        n = self.n
        opts = [("k",)] + [("n", i) for i in range(n)] + [("s", i) for i in range(n)]
        for sys_ in itertools.product(opts, repeat=n):
            yield sys_
        for m in (5, 6, 7, 10, 11, 12, 13, 25, 60):
            for last in (("k",), ("s", 0)):
                chain = [("s", i + 1) for i in range(m - 1)] + [last]
                yield tuple(chain)
                rev = [("k",) if last == ("k",) else ("s", m - 1)] + [("s", i - 1) for i in range(1, m)]
                yield tuple(rev)

    def gen(self):
        for ver in (80, 70):
            it = iter(self.systems())
            k = 0
            while True:
                blk = list(itertools.islice(it, self.block))
                if not blk:
                    break
                self.current = blk
                yield (ver, k)
                k += 1

    def judge(self, case):
        ver, blk = case[0], self.current
        forms, off = [], len(BASE)
        for s in blk:
            for d in s:
                ref = name_token(ver, off + d[1] + 1) if len(d) > 1 else b""
                forms.append({"k": R.int_(5).enc(ver), "n": ref, "s": ref + R.int_(1).enc(ver) + b"\x03"}[d[0]])
            off += len(s)
        try:
            bk = open_bytes(book(ver, forms))
        except Exception as e:
            for s in blk:
                fs = []
                for d in s:
                    ref = name_token(ver, len(BASE) + d[1] + 1) if len(d) > 1 else b""
                    fs.append({"k": R.int_(5).enc(ver), "n": ref, "s": ref + R.int_(1).enc(ver) + b"\x03"}[d[0]])
                try:
                    open_bytes(book(ver, fs))
                except Exception as e1:
                    return Result(fail="names %r: workbook unreadable: %s: %s" % (s, type(e1).__name__, e1), outcome="raise")
            return Result(fail="block unreadable: %s: %s" % (type(e).__name__, e), outcome="raise")
        off, out = len(BASE), []
        for s in blk:
            for i, d in enumerate(s):
                nobj = bk.name_obj_list[off + i]
                val, depth = self.value(s, i)
                text = "f_%d" % (off - len(BASE) + d[1]) if len(d) > 1 else ""
                text = {"k": "5.0", "n": text, "s": text + "+1.0"}[d[0]]
                if nobj.result is None or R.parse(nobj.result.text) != R.parse(text):
                    return Result(fail="names %r: name %d has text %r, expected %r" % (s, i, nobj.result and nobj.result.text, text), outcome="text")
                if val is None:
                    e = None if nobj.result.value is None else "circular name %d has value %r" % (i, nobj.result.value)
                else:
                    e = R.check_value(("const" if depth <= 8 else "maybe", ("n", val)), nobj.result.kind, nobj.result.value)
                if e:
                    return Result(fail="names %r: name %d: %s" % (s, i, e), outcome="value")
                out.append(nobj.result.value)
            off += len(s)
        return Result(fail=check_base(bk), outcome=tuple(out), evals=len(forms))

    @staticmethod
    def value(s, i):
        seen, add = [], 0.0
        while True:
            if i in seen:
                return None, 0
            seen.append(i)
            d = s[i]
            if d[0] == "k":
                return 5.0 + add, len(seen)
            if d[0] == "s":
                add += 1
            i = d[1]


def size_of(ver, op):
    """Token length for opcode byte op, by the published layouts (None: no such token or variable)."""
    base = op & 0x1F
    if not op & 0x60:
        return {1: 5, 2: 5, 0x17: None, 0x18: None, 0x19: 4, 0x1A: None, 0x1B: None, 0x1C: 2, 0x1D: 2, 0x1E: 3, 0x1F: 9, 0: None}.get(base, 1)
    b8 = ver >= 80
    return {0: 8, 1: 3, 2: 4, 3: 5 if b8 else 15, 4: 5 if b8 else 4, 5: 9 if b8 else 7, 6: 7, 7: 7, 8: 7, 9: 3, 10: 5 if b8 else 4, 11: 9 if b8 else 7, 12: 5 if b8 else 4, 13: 9 if b8 else 7, 14: 3, 15: 3,
            0x19: 7 if b8 else 25, 0x1A: 7 if b8 else 18, 0x1B: 11 if b8 else 21, 0x1C: 7 if b8 else 18, 0x1D: 11 if b8 else 21}.get(base)


class Malformed(Space):
    """Whatever the tokens, the workbook stays readable and the other names and the cells are right."""
    name = "malformed token sequences"
    case_limit = 120

    def __init__(self, depth, block=400):
        self.depth, self.block = depth, block
        self.bound = "every sequence of up to %d tokens over all 128 opcodes with zero, small, all-ones parameters (third position: %d tokens); every truncation of longer formulas; declared lengths off by any amount" % (min(depth, 2), 0 if depth < 3 else 128)

    def alphabet(self, ver):
        out = []
        for op in range(128):
            n = size_of(ver, op)
            n = 1 if n is None else n
            pars = {bytes(n - 1), b"\xff" * (n - 1), (b"\x01" + bytes(8) + b"\x01" * 20)[:n - 1], (b"\x02\x04" + bytes(30))[:n - 1]}
            for p in sorted(pars):
                out.append(bytes([op]) + p)
        out += [b"\x17\x03abc", b"\x17\xff", b"\x17", b"\xff", b"\x80\x01", b"\x42\x00\x04\x00", b"\x42\x02\xff\x00", b"\x42\x01\x64\x00", b"\x42\x02\x01\x00", b"\x19\x04\xff\xff", b"\x19\x04\x01\x00" + bytes(4)]
        return out

    def formulas(self, ver):
        al = self.alphabet(ver)
        for a in al:
            yield a
        two = al if self.depth >= 2 else al[::1]
        for a in two:
            for b in two:
                yield a + b
        if self.depth >= 3:
            small = [bytes([op]) + bytes((size_of(ver, op) or 1) - 1) for op in range(128)]
            lead = [R.int_(1).enc(ver), BOX.enc(ver), b"\x17\x01a" if ver < 80 else b"\x17\x01\0a", R.MISS.enc(ver), name_token(ver, 1)]
            for a in lead:
                for b in small:
                    for c in small:
                        yield a + b + c
        # every truncation
        samples = [R.encode(n, ver) for n in (("bin", 3, L(BOX), L(R.str_("abc"))), ("fv", 1, [L(R.int_(1)), L(nxref(0)), L(R.num(2.5))]), ("fv", 100, [L(R.int_(1)), L(BOX), L(ARRAY)]))]
        for s in samples:
            for i in range(len(s)):
                yield s[:i]
            for i in range(len(s) + 5):
                yield (s, b"", i)          # declared length differs from what is there

    def gen(self):
        for ver in (80, 70, 50):
            if ver == 50 and self.depth < 3:
                continue
            it = iter(self.formulas(ver))
            k = 0
            while True:
                blk = list(itertools.islice(it, self.block))
                if not blk:
                    break
                self.current = blk
                yield (ver, k)
                k += 1

    def judge(self, case):
        ver, blk = case[0], self.current
        try:
            bk = open_bytes(book(ver, blk))
            e = check_base(bk)
            if e is None and len(bk.name_obj_list) != len(blk) + len(BASE) + 1:
                e = "names lost"
        except Exception as e0:
            e = "%s: %s" % (type(e0).__name__, e0)
        if e is None:
            return Result(outcome=tuple((n.result.kind, n.any_err) if n.result is not None else None for n in bk.name_obj_list), evals=len(blk))
        for f in blk:
            try:
                e1 = check_base(open_bytes(book(ver, [f])))
            except Exception as x:
                e1 = "workbook unreadable: %s: %s" % (type(x).__name__, x)
            if e1:
                return Result(fail="name formula %r: %s" % (f, e1), outcome="bad", evals=len(blk))
        return Result(fail="block of malformed formulas: " + e, outcome="bad", evals=len(blk))


def every_function():
    a = [L(R.int_(i)) for i in range(30)]
    for fid, name, lo, hi in R.FTAB:
        if fid in (1, 100):
            continue
        if lo is None:
            for wrap in (0, 1):
                n = ("fn", fid, a[:hi])
                yield ("bin", 4, a[9], n) if wrap else n
        else:
            for k in range(lo, min(hi, 8) + 1):
                n = ("fv", fid, a[:k])
                yield n
                yield ("bin", 4, a[9], n)
            yield ("fv", fid, a[:hi])


class Functions(Space):
    """Every function number, known or not, with any number of arguments."""
    name = "function numbers"
    bound = "every id 0..511 plus 0x7FFF and 0xFFFF, tFunc and tFuncVar with 0..8 arguments on a stack of 0..9"
    case_limit = 60

    def gen(self):
        for ver in (80, 70):
            for fid in list(range(512)) + [0x7FFF, 0xFFFF]:
                yield (ver, fid)

    def judge(self, case):
        ver, fid = case
        forms, exp = [], []
        one = R.int_(1).enc(ver)
        for n in range(10):
            forms.append(one * n + b"\x41" + pack("<H", fid))
            for k in range(9):
                forms.append(one * n + b"\x42" + bytes([k]) + pack("<H", fid))
        bk = open_bytes(book(ver, forms))
        e = check_base(bk)
        # an unknown function with a stated number of arguments takes them from the stack all the same
        known = {f[0]: f for f in R.FTAB}
        if not e:
            for f, nobj in zip(forms, bk.name_obj_list[len(BASE):]):
                n = f.count(one) if f[:1] == b"\x1e" else 0
                if f[3 * n] == 0x42 and f[3 * n + 1] == n and fid not in (255,) and nobj.result is None:
                    e = "function %d with %d arguments leaves no single result (stack %r)" % (fid, n, nobj.stack)
                    break
        return Result(fail=e, outcome=tuple(repr(n.result) for n in bk.name_obj_list[len(BASE):]), evals=len(forms))


def mixed():
    """Longer formulas: members of a reference list, nested lists in functions, memory tokens."""
    u = lambda a, b: ("ref", 16, a, b)
    i = lambda a, b: ("ref", 15, a, b)
    r = lambda a, b: ("ref", 17, a, b)
    xs = [L(BOX), L(REFS[1]), L(area3d(0, (1, 1, 0, 0), (3, 3, 0, 0))), L(nref(1)), L(REFS[5])]
    for a, b, c in itertools.product(xs, repeat=3):
        for f in (u, i, r):
            for g in (u, i, r):
                for n in (f(g(a, b), c), f(a, g(b, c))):
                    yield n
                    yield ("mem", 6, n)
                    yield ("mem", 9, n)
                    yield ("fv", 4, [n])
                    yield ("fv", 4, [n, L(R.int_(1))])
                    yield ("fv", 4, [("paren", n), L(R.int_(1))])
                    yield ("un", 0x13, n)
    for n in range(2, 12):
        t = L(BOX)
        for k in range(n):
            t = u(t, L(ref3d(1, k, 0)))
        yield t
        yield ("mem", 6, t)
        yield ("fv", 4, [t])
    for sp in ("paren", "sp"):
        for k, c in BINOPS:
            for d, e in BINOPS:
                yield (k, c, (sp, (d, e, L(BOX), L(REFS[1]))), L(BOX))
                yield (k, c, L(BOX), (sp, (d, e, L(BOX), L(REFS[1]))))


def spaces(tier):
    deep = tier == "thorough"
    lv1 = [R.int_(3), R.num(0.5), R.int_(7), R.int_(2), R.num(10.0)]
    lv2 = [BOX, area3d(0, (1, 1, 0, 0), (3, 3, 0, 0)), ref3d(0, 1, 1), nref(1), BOX]
    sp = [
        Nodes("single operands", all_leaves, "every operand token", vers=(80, 70, 50)),
        Nodes("one operator", one_op, "every operator, function class and memory token over every pair of %d operands" % (len(CONSTS) + 12 + len(REFS) + len(NAMES) + len(SPECIAL)), vers=(80, 70) if deep else (80,)),
        Nodes("trees, 2 operators", lambda: itertools.chain(shapes(2, lv1), shapes(2, lv2)), "all trees with 2 operators out of 21, numbers and references"),
        Nodes("trees, 3 operators", lambda: itertools.chain(shapes(3, lv1), shapes(3, lv2)), "all trees with 3 operators out of 21, numbers and references", vers=(80, 70) if deep else (80,)),
        Nodes("constant triples", lambda: const3(list(R.BIN) if deep else [3, 4, 6, 7, 8, 9, 11], CONSTS if deep else CONSTS[:1] + CONSTS[2:3] + CONSTS[3:4] + CONSTS[5:9] + CONSTS[10:11]),
              "both groupings of every two operators over every three constants (%s)" % ("12 operators, 12 constants" if deep else "7 operators, 8 constants"), vers=(80,)),
        Nodes("functions with arguments", functions, "IF and CHOOSE over every kind of test and choice, zero to thirty arguments, nested in an outer expression"),
        Nodes("every worksheet function", every_function, "every function with every legal argument count up to 8"),
        Nodes("pairs of boxes", box_pairs, "intersection, union and range of all pairs of boxes from a 5x5 set on two sheets, and of relative boxes"),
        Nodes("reference fields, BIFF8", flag_refs, "both corners over edge rows and columns, relative or not, one sheet or a range of sheets", vers=(80,)),
        Nodes("reference fields, BIFF5/7", flag_refs7, "the same for the older layout", vers=(70, 50) if deep else (70,)),
        Nodes("reference lists", mixed, "all groupings of two reference operators over 5 references, bare, in memory tokens and as arguments", vers=(80, 70) if deep else (80,)),
        Graphs(4 if deep else 3),
        Malformed(3 if deep else 2),
        Functions(),
    ]
    if deep:
        sp.append(Nodes("trees, 4 operators", lambda: shapes(4, lv1), "all trees with 4 operators out of 21", vers=(80,), case_limit=120))
    return sp
