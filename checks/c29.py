"""C29: decompile_formula - the text of any parsed cell formula."""
import itertools
from struct import pack
import biff as B
import rpn as R
from mc import Space, Result
from xl import *
from xlrd import formula as F

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of postfix token programs (all expression trees up to a number of operators, every operand token with edge positions, every function and tAttr token) times every formula type, base cell and notation; each text is parsed back by an independent parser of Excel's grammar"
NOTE = ("All trees with up to 3 operators (thorough: 4) out of 21; every pair of operands under every operator; every reference token over edge rows and columns with all relative flags, in every context (cell, shared, array, conditional format, data validation, name, unstated; "
        "base cells at the corners and in the middle, none; A1 and R1C1). BIFF2 to BIFF8.")
RULE = "evaluations = formulas whose text was parsed back and compared with the tree. Every formula is well-formed."
ASSUMPTIONS = ["'?' in a text stands for an operand xlrd documents it cannot render (array constants, deleted references, unknown functions)",
               "names used in a formula, and sheets of 3-D references, are those of the book passed in; a name the book does not have may be shown in any way",
               "relative references of cell and array formulas are stored as absolute positions, those of the other types as offsets which wrap at the edge of the sheet"]

SHEETS = ["Sheet1", "A b", "C-D", "R1"]
TYPES = [("cell", F.FMLA_TYPE_CELL, 0), ("array", F.FMLA_TYPE_ARRAY, 0), ("shared", F.FMLA_TYPE_SHARED, 1), ("cond_fmt", F.FMLA_TYPE_COND_FMT, 1), ("data_val", F.FMLA_TYPE_DATA_VAL, 1), ("name", F.FMLA_TYPE_NAME, 1), ("unstated", None, 0)]
BASES = [(5, 3), (0, 0), None, "last"]
NROWS = {80: 65536}
ROWS7 = 16384
VERS = (80, 70, 50, 45, 40, 30, 20)
_books = {}


def book(ver):
    if ver not in _books:
        if ver < 50:
            _books[ver] = open_bytes(B.single(ver, B.number(ver, 0, 0, 1.0)))
        else:
            one = R.int_(1).enc(ver)
            n2 = B.name_rec(ver, "loc_al", one, sheet=2, extsheet=3)
            recs = B.name_rec(ver, "seven", one) + n2 + B.name_rec(ver, "quo ted" if 0 else "_q.x", one, sheet=3, extsheet=4) + B.name_rec(ver, "\x06", one, sheet=1, extsheet=2, flags=0x20)
            ext = (B.supbook_internal(4) + B.supbook_external("\x01b.xls", ["S"]) + B.supbook_addin() + B.externname8("EDATE") + B.externsheet8([(0, k, k) for k in range(4)] + [(0, 0, 2), (0, 0xFFFE, 0xFFFE), (0, 0xFFFF, 0xFFFF), (1, 0, 0), (2, 0xFFFE, 0xFFFE)])) \
                if ver >= 80 else B.externcount(5) + B.externsheet5(4) + b"".join(B.externsheet5(3, s) for s in SHEETS)
            _books[ver] = open_bytes(B.workbook(ver, [B.Sh(s, B.number(ver, 0, 0, 1.0)) for s in SHEETS], post=ext + recs))
        _books[ver].logfile = NULL
    return _books[ver]


class Ctx(object):
    """How a formula is looked at: type, base cell, notation."""
    def __init__(self, ver, typ, base, r1c1):
        self.ver, self.name, self.fmlatype, self.delta = ver, typ[0], typ[1], typ[2]
        self.nrows = 65536 if ver >= 80 else ROWS7
        self.base = (self.nrows - 1, 255) if base == "last" else base
        self.r1c1 = r1c1
        # without a base cell offsets can only be shown as R1C1; stored positions need no base
        self.rel_r1c1 = bool(r1c1 or (self.delta and self.base is None))

    def kw(self):
        k = dict(fmlatype=self.fmlatype, r1c1=self.r1c1)
        if self.base is not None:
            k.update(browx=self.base[0], bcolx=self.base[1])
        return k

    def corner(self, cell):
        """Meaning of a stored corner (row, col, rrel, crel) in the notation of this context, as the parser reports it."""
        out = []
        for v, rel, n, b in ((cell[0], cell[2], self.nrows, 0), (cell[1], cell[3], 256, 1)):
            if not rel:
                out.append((v, 0))
                continue
            base = self.base[b] if self.base is not None else None
            if self.delta:
                off = v
            elif base is None:
                out.append((v % n, 1))
                continue
            else:
                off = v - base
            out.append((off % n, 1) if self.rel_r1c1 else ((base + off) % n, 1))
        return out[0][0], out[1][0], out[0][1], out[1][1]

    def parse(self, text):
        # any A1 text carries the base implicitly; R1C1 text is refused by the parser when a base is given
        return R.parse(text, base=None if self.rel_r1c1 else (0, 0), sheets=SHEETS, modes="R" if self.r1c1 else "AR" if self.rel_r1c1 else "A", wrap=(self.nrows, 256), signed=self.delta and self.base is None)


def cell2(tok, cell, klass):
    l = R.Leaf("%s%r" % ({4: "ref", 12: "refn"}[tok], cell), lambda ver: R.cls(tok, klass) + R.ref_bytes(ver, cell), ("CELL", (), cell, cell), None)
    return l


def area2(tok, a, b, klass):
    return R.Leaf("%s%r%r" % ({5: "area", 13: "arean"}[tok], a, b), lambda ver: R.cls(tok, klass) + R.area_bytes(ver, a, b), ("CELL", (), a, b), None)


SHX = {k: (k, (-(k + 2), k, k)) for k in range(4)}
SHX[(0, 2)] = (4, (-2, 0, 2))


def shnames(k):
    return tuple(SHEETS[i] for i in k) if isinstance(k, tuple) else (SHEETS[k],)


def sh3(ver, k):
    refx, b57 = SHX[k]
    # BIFF5/7 internal references: index of the EXTERNSHEET record, negative; 1 is the 'own document' record
    return (refx, b57)


def cell3(k, cell, klass):
    return R.Leaf("ref3d%r%r" % (k, cell), lambda ver: R.cls(0x1A, klass) + R.sheet3d(ver, sh3(ver, k)) + R.ref_bytes(ver, cell), ("CELL", shnames(k), cell, cell), None)


def area3(k, a, b, klass):
    return R.Leaf("area3d%r%r%r" % (k, a, b), lambda ver: R.cls(0x1B, klass) + R.sheet3d(ver, sh3(ver, k)) + R.area_bytes(ver, a, b), ("CELL", shnames(k), a, b), None)


def name(i, nm, sheet=None):
    pad = lambda ver: 2 if ver >= 80 else 12 if ver >= 50 else 8 if ver >= 30 else 5
    tree = ("name", (sheet,), nm) if sheet else ("name", nm)
    return R.Leaf("name" + nm, lambda ver: b"\x43" + pack("<H", i) + bytes(pad(ver)), tree, None)


def namex(i, nm, sheet=None):
    tree = ("name", (sheet,), nm) if sheet else ("name", nm)
    return R.Leaf("namex" + nm, lambda ver: b"\x59" + (pack("<HHH", 5, i, 0) if ver >= 80 else pack("<h8xH12x", -1, i)), tree, None)


def resolve(tree, ctx):
    if not isinstance(tree, tuple):
        return tree
    if tree and tree[0] == "CELL":
        return ("area", tree[1], ctx.corner(tree[2]), ctx.corner(tree[3]))
    return tuple(resolve(t, ctx) for t in tree)


L = lambda x: ("leaf", x)
CONSTS = [R.int_(0), R.int_(65535), R.num(-1.5), R.num(1e300), R.num(0.1), R.str_(""), R.str_('a"b'), R.str_("A1,(b"), R.bool_(1), R.bool_(0)] + [R.err(e) for e in R.ERR]
ARRAYL = R.Leaf("array", lambda ver: b"\x60" + bytes(7 if ver >= 30 else 6), ("array",), None)
REFERR = [R.Leaf("referr", lambda ver: b"\x4A" + bytes(4 if ver >= 80 else 3), ("refed",), None), R.Leaf("areaerr", lambda ver: b"\x2B" + bytes(8 if ver >= 80 else 6), ("refed",), None)]
REFERR3 = [R.Leaf("referr3d", lambda ver: b"\x3C" + bytes(6 if ver >= 80 else 17), ("refed",), None), R.Leaf("areaerr3d", lambda ver: b"\x3D" + bytes(10 if ver >= 80 else 20), ("refed",), None)]
REF2 = [cell2(4, (1, 2, 0, 0), 2), cell2(4, (1, 2, 1, 1), 1), cell2(12, (1, 2, 1, 0), 3), area2(5, (0, 0, 0, 0), (3, 3, 0, 0), 1), area2(5, (0, 0, 1, 0), (3, 3, 1, 1), 2), area2(13, (0, 0, 0, 1), (3, 3, 0, 1), 1)]
REF3 = [cell3(0, (4, 4, 0, 0), 1), cell3(1, (4, 4, 1, 1), 2), area3(2, (0, 0, 0, 0), (1, 1, 0, 0), 1), area3((0, 2), (0, 0, 1, 1), (1, 1, 1, 1), 1), area3(3, (0, 1, 0, 1), (1, 1, 0, 1), 3)]
NAMES = [name(1, "seven"), name(2, "loc_al", "A b"), name(3, "_q.x", "C-D"), namex(1, "seven"), namex(2, "loc_al", "A b")]


def pool(ver):
    return CONSTS + [ARRAYL] + REFERR + REF2 + (REFERR3 + REF3 + NAMES if ver >= 50 else [])


def refpool(ver):
    return REF2 + (REF3 + NAMES if ver >= 50 else [])


def contexts(ver, all_=True):
    for t in TYPES:
        for b in BASES if all_ else BASES[:1]:
            for r1c1 in (0, 1):
                if r1c1 and b is None and not t[2]:
                    continue                    # positions only, no base: no R1C1 text exists
                yield Ctx(ver, t, b, r1c1)


def judge_node(node, ctx, enc=None):
    data = enc or R.encode(node, ctx.ver)
    bk = book(ctx.ver)
    try:
        text = F.decompile_formula(bk, data, len(data), **ctx.kw())
    except Exception as e:
        return "raised %s: %s" % (type(e).__name__, e), None
    if not isinstance(text, str):
        return "gave %r" % (text,), None
    try:
        t = ctx.parse(text)
    except R.ParseError as e:
        return "text %r is not a formula: %s" % (text, e), text
    want = R.mknorm(resolve(R.rawtree(node), ctx))
    if not R.same(want, t):
        return "text %r means %r, the formula is %r" % (text, t, want), text
    return None, text


class Nodes(Space):
    case_limit = 60

    def __init__(self, name, nodes, bound, vers=VERS, ctx=None, block=500):
        self.name, self.nodes, self.bound, self.vers, self.ctx, self.block = name, nodes, bound, vers, ctx or (lambda ver: contexts(ver)), block

    def gen(self):
        for ver in self.vers:
            it = iter(self.nodes(ver))
            k = 0
            while True:
                blk = list(itertools.islice(it, self.block))
                if not blk:
                    break
                self.current = blk
                yield (ver, k)
                k += 1

    def judge(self, case):
        ver, blk = case[0], self.current
        texts = []
        n = 0
        for ctx in self.ctx(ver):
            for node in blk:
                n += 1
                e, text = judge_node(node, ctx)
                if e:
                    return Result(fail="BIFF%d %s base=%r r1c1=%d: %s (tokens %s): %s" % (ver, ctx.name, ctx.base, ctx.r1c1, show(node), R.encode(node, ver).hex(), e), outcome="bad", evals=n)
                texts.append(text)
        return Result(outcome=tuple(texts), evals=n)


def show(n):
    t = n[0]
    if t == "leaf":
        return repr(n[1])
    if t in ("bin", "ref"):
        return "(%s %s %s)" % (show(n[2]), (R.BIN if t == "bin" else R.REFOP)[n[1]], show(n[3]))
    if t == "un":
        return "(%s %s)" % (R.UN[n[1]], show(n[2]))
    if t in ("fn", "fv"):
        return "%s%d(%s)" % (t, n[1], "; ".join(show(a) for a in n[2]))
    return "%s(%s)" % (t, show(n[-1]))


BINOPS = [("bin", c) for c in R.BIN] + [("ref", c) for c in R.REFOP]


def leaves(ver):
    for l in pool(ver):
        yield L(l)


def one_op(ver):
    refs = set(refpool(ver))
    for a in pool(ver):
        for w in ("paren", "sp", "sum"):
            yield (w, L(a))
        for u in R.UN:
            yield ("un", u, L(a))
        yield ("fn", 24, [L(a)])
        if a in refs:
            for tok in (6, 7, 8, 9, 14, 15):
                yield ("mem", tok, L(a))
        for b in pool(ver):
            for k, c in BINOPS:
                if k == "bin" or a in refs and b in refs:
                    yield (k, c, L(a), L(b))


BUILD1 = [lambda a, u=u: ("un", u, a) for u in R.UN] + [lambda a: ("sum", a), lambda a: ("fn", 24, [a])]
BUILD2 = [lambda a, b, k=k, c=c: (k, c, a, b) for k, c in BINOPS] + [lambda a, b: ("fv", 4, [a, b])]


def shapes(k, lv):
    def rec(k, i):
        if k == 0:
            yield L(lv[i % len(lv)]), i + 1
            return
        for t, j in rec(k - 1, i):
            for f in BUILD1:
                yield f(t), j
        for left in range(k):
            for a, j in rec(left, i):
                for b, m in rec(k - 1 - left, j):
                    for f in BUILD2:
                        yield f(a, b), m
    for t, _ in rec(k, 0):
        yield t


def few_ctx(ver):
    yield Ctx(ver, TYPES[0], (5, 3), 0)
    yield Ctx(ver, TYPES[2], (5, 3), 0)


def functions(ver):
    a = [L(R.int_(i)) for i in range(30)]
    r = L(REF2[1])
    for fid, fname, lo, hi in R.FTAB:
        if fid > 255 and ver < 40 or fid > 255 and ver < 50:
            continue
        if lo is None:
            yield ("bin", 4, r, ("fn", fid, a[:hi]))
        elif fid in (1, 100):
            pass
        else:
            for k in range(lo, min(hi, 8) + 1):
                yield ("bin", 4, r, ("fv", fid, a[:k]))
            yield ("fv", fid, a[:hi])
    args = [L(x) for x in (R.int_(1), R.MISS, R.str_("a,b"), R.err(7), R.bool_(1))] + [r, ("bin", 3, r, L(R.int_(1))), ("ref", 16, r, L(REF2[0])), ("fv", 4, [r, r])]
    for x, y, z in itertools.product(args, repeat=3):
        yield ("fv", 1, [x, y, z])
        yield ("fv", 100, [x, y, z])
        yield ("fv", 1, [x, y])
        yield ("fv", 6, [x, y, z])
        yield ("fv", 1, [x, ("fv", 100, [y, z]), ("fv", 1, [z, y])])
    for n in range(2, 31):
        yield ("fv", 100, a[:n])


EDGE8 = [0, 1, 5, 127, 128, 32767, 32768, 65535]
EDGE7 = [0, 1, 5, 8191, 8192, 16383]


def ref_fields(ver):
    """Every corner field; relative flags in all combinations (row and column numbers as stored in the file)."""
    rows = EDGE8 if ver >= 80 else EDGE7
    cols = [0, 1, 3, 127, 128, 255]
    for tok in (4, 12):
        for r, c, rr, cr in itertools.product(rows, cols, (0, 1), (0, 1)):
            yield L(cell2(tok, (r, c, rr, cr), 2))
    if ver >= 50:
        for k in (0, 1, 2, 3, (0, 2)):
            for r, c, rr, cr in itertools.product(rows, (0, 3, 128, 255), (0, 1), (0, 1)):
                yield L(cell3(k, (r, c, rr, cr), 1))


def area_fields(ver):
    rows = [(0, 5), (1, 1), (0, 65535 if ver >= 80 else 16383), (5, 32768 if ver >= 80 else 8192)]
    cols = [(0, 3), (2, 2), (0, 255), (3, 128)]
    for (r, r2), (c, c2) in itertools.product(rows, cols):
        for f in itertools.product((0, 1), repeat=4):
            a, b = (r, c, f[0], f[2]), (r2, c2, f[1], f[3])
            for tok in (5, 13):
                yield L(area2(tok, a, b, 1))
            if ver >= 50:
                yield L(area3(1, a, b, 1))
                yield L(area3((0, 2), a, b, 1))


def lists(ver):
    xs = [L(x) for x in (REF2[0], REF2[1], REF2[4])] + ([L(REF3[0]), L(REF3[3]), L(NAMES[1])] if ver >= 50 else [])
    for a, b, c in itertools.product(xs, repeat=3):
        for f, g in itertools.product((15, 16, 17), repeat=2):
            for n in (("ref", f, ("ref", g, a, b), c), ("ref", f, a, ("ref", g, b, c))):
                yield n
                yield ("mem", 9, n)
                yield ("fv", 4, [n, L(R.int_(1))])
                yield ("un", 0x13, n)
                yield ("fv", 4, [("paren", n)])


class Odd(Space):
    """Tokens without a rendering, in the middle of an otherwise good formula."""
    name = "unsupported tokens"
    bound = "tExp and tTbl in every context; every tAttr option byte; names and references beyond what the book has; unknown and add-in functions; BIFF2-4 sheet tokens"
    case_limit = 30

    def gen(self):
        for ver in VERS:
            for i in range(5):
                yield (ver, i)

    def judge(self, case):
        ver, i = case
        one = R.int_(1).enc(ver)
        n = 0
        outs = []
        for ctx in contexts(ver):
            for data, ok in self.formulas(ver, i, one, ctx):
                n += 1
                try:
                    text = F.decompile_formula(book(ver), data, len(data), **ctx.kw())
                    more = F.decompile_formula(book(ver), data + b"\x01\x02\x03", len(data), **ctx.kw())
                except Exception as e:
                    return Result(fail="BIFF%d %s base=%r: tokens %s raised %s: %s" % (ver, ctx.name, ctx.base, data.hex(), type(e).__name__, e), outcome="raise", evals=n)
                if text != more:
                    return Result(fail="BIFF%d: tokens %s: bytes after the formula change the text from %r to %r" % (ver, data.hex(), text, more), outcome="bad", evals=n)
                if not ok(text):
                    return Result(fail="BIFF%d %s: tokens %s: text %r" % (ver, ctx.name, data.hex(), text), outcome="bad", evals=n)
                outs.append(text)
        return Result(outcome=tuple(outs), evals=n)

    def formulas(self, ver, i, one, ctx):
        anyt = lambda t: isinstance(t, str) and t
        plus = lambda t: isinstance(t, str) and t.startswith("1.0+") and len(t) > 4
        if i == 0:
            for op in (1, 2):
                for r, c in ((0, 0), (5, 3), (300, 255)):
                    if ver == 20:
                        yield bytes([op]) + pack("<HB", r, c), anyt
                    else:
                        yield bytes([op]) + pack("<HH", r, c), anyt
        elif i == 1:
            for sub in range(256):
                if sub in (4, 16):
                    continue
                a = R.attr(ver, sub, 7)
                yield a + one + one + b"\x03", lambda t: t == "1.0+1.0"
                yield one + a + one + b"\x03", lambda t: t == "1.0+1.0"
                yield one + one + a + b"\x03", lambda t: t == "1.0+1.0"
                yield one + one + b"\x03" + a, lambda t: t == "1.0+1.0"
        elif i == 2:
            for idx in (0, 9, 65535):
                yield one + name(idx, "x").enc(ver) + b"\x03", plus
                if ver >= 50:
                    yield one + namex(idx, "x").enc(ver) + b"\x03", plus
            if ver >= 80:
                for refx in (5, 6, 7, 8, 9, 65535):
                    for k in (1, 9):
                        yield one + b"\x39" + pack("<HHH", refx, k, 0) + b"\x03", plus
                    yield one + b"\x3A" + pack("<HHH", refx, 1, 0x4001) + b"\x03", plus
                    yield one + b"\x3B" + pack("<HHHHH", refx, 1, 2, 0xC001, 5) + b"\x03", plus
            elif ver >= 50:
                for ext, s1, s2 in ((1, 0, 0), (9, 0, 0), (0, 0, 0), (-9, 0, 0), (-1, -1, -1), (-2, 9, 9), (-2, -1, -1), (-2, 2, 1), (2, 1, 1)):
                    yield one + b"\x39" + pack("<h8xH12x", ext, 1) + b"\x03", plus
                    yield one + b"\x3A" + R.sheet3d(ver, (0, (ext, s1, s2))) + R.ref_bytes(ver, (1, 1, 1, 0)) + b"\x03", plus
                    yield one + b"\x3B" + R.sheet3d(ver, (0, (ext, s1, s2))) + R.area_bytes(ver, (1, 1, 0, 0), (2, 2, 1, 1)) + b"\x03", plus
        elif i == 3:
            known = {f[0] for f in R.FTAB}
            for fid in list(range(256 if ver < 40 else 512)) + ([0x7FFF, 0x80FF, 0xFFFF] if ver >= 40 else []):
                for k in (0, 1, 3, 8):
                    data = one + one * k + b"\x42" + bytes([k]) + R.funcid(ver, fid) + b"\x03"
                    yield data, plus
                    yield data.replace(b"\x42" + bytes([k]), b"\x42" + bytes([k | 0x80])), plus
                if fid not in known:
                    yield one * 12 + b"\x41" + R.funcid(ver, fid), lambda t: t is None or isinstance(t, str)
        elif i == 4:
            if ver >= 80:
                # an add-in function: its name, then the arguments
                yield b"\x39" + pack("<HHH", 8, 1, 0) + one + b"\x42\x02\xff\x00", lambda t: anyt(t) and "EDATE" in t and "1.0" in t
            if ver < 50:
                sheet = b"\x1A" + bytes(7 if ver < 30 else 10)
                end = b"\x1B" + bytes(3 if ver < 30 else 4)
                yield sheet + R.encode(L(REF2[0]), ver) + end + one + b"\x03", lambda t: anyt(t) and t.endswith("+1.0")
            yield b"", lambda t: t is None or isinstance(t, str)


def split_sheets(text):
    """('a', quoted) parts of the sheet range before the last '!' outside quotes, and what follows it."""
    parts, i = [], 0
    while True:
        if text[i:i + 1] == "'":
            j, nm = i + 1, ""
            while True:
                k = text.index("'", j)
                nm += text[j:k]
                if text[k:k + 2] != "''":
                    break
                nm, j = nm + "'", k + 2
            parts += [(x, True) for x in nm.split(":")]
            i = k + 1
        else:
            k = i
            while text[k] not in ":!":
                k += 1
            parts.append((text[i:k], False))
            i = k
        if text[i] == "!":
            return parts, text[i + 1:]
        if text[i] != ":":
            raise ValueError("no ':' or '!' at %d" % i)
        i += 1


def plain(nm):
    """May a formula name the sheet without quotes?"""
    if not (nm[0].isalpha() or nm[0] == "_") or not all(c.isalnum() or c in "_." for c in nm):
        return False
    u = nm.upper()
    tail = u.lstrip("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
    if tail and tail.isdigit() and tail.isascii() and 1 <= len(u) - len(tail) <= 3:
        return False                # A1
    if u[0] == "R":
        u = "R" + u[1:].lstrip("0123456789")
        if u == "R":
            return False
        u = u[1:]
    if u[0] == "C" and not u[1:].strip("0123456789"):
        return False                # R1C1, R, C, RC
    return True


class SheetNames(Space):
    name = "sheet names"
    alphabet = "ARc1_.' -\xe9&"
    more = ["XFD1", "ABC1", "abc9", "ABCD1", "R1C1", "r1c", "RC", "rc2", "A1B", "AB12", "1a", "a.b", "x" * 31, "it''s", "a" + "'" * 4 + "b", "a!b", "a(b", "a,b", "a;b", "a\"b", "{a}",
            "=a", "a+b", "a#b", "a$b", "a%b", "a@b", "a^b", "a<b", "a>b", "a~b", "a`b", "a|b", "Sheet1", "Sheet 1", "_1", "__", "R0", "C00", "R12C34", "RA", "CR", "R1C1A", "\u0416x", "\u65e5\u672c", "a\U0001F600"]

    def __init__(self, deep):
        self.deep = deep
        self.bound = ("every sheet name of up to %d characters out of %r and %d more x {reference, range of sheets, local name, name formula} x BIFF8, 7 and 5"
                      % (4 if deep else 3, self.alphabet, len(self.more)))

    def names(self):
        out = list(self.more)
        for n in range(1, 5 if self.deep else 4):
            out += ["".join(t) for t in itertools.product(self.alphabet, repeat=n)]
        return [x for x in out if x.strip() == x and x.strip("'") == x or x in self.more]

    def gen(self):
        # names equal but for letter case cannot be in one book
        blk, seen, blocks = [], set(), []
        rest = self.names()
        while rest:
            later = []
            for x in rest:
                if x.lower() in seen:
                    later.append(x)
                else:
                    blk.append(x)
                    seen.add(x.lower())
                if len(blk) == 50:
                    blocks.append(blk)
                    blk, seen = [], set()
            if blk:
                blocks.append(blk)
            blk, seen, rest = [], set(), later
        for ver in (80, 70, 50):
            for b in blocks:
                if ver >= 80 or all(ord(c) < 256 for x in b for c in x):
                    yield ver, tuple(b)

    def judge(self, case):
        ver, names = case
        all_ = list(names) + ["Last one"]
        last = len(names)
        tok3 = lambda k, hi: b"\x3A" + R.sheet3d(ver, (k if hi == k else last + 1 + k, (-(k + 2), k, hi))) + R.ref_bytes(ver, (1, 1, 0, 0))
        locs = b"".join(B.name_rec(ver, "loc", tok3(k, k), sheet=k + 1, extsheet=k + 2) for k in range(last))
        if ver >= 80:
            post = B.supbook_internal(last + 1) + B.externsheet8([(0, k, k) for k in range(last + 1)] + [(0, k, last) for k in range(last)]) + locs
        else:
            post = B.externcount(last + 2) + B.externsheet5(4) + b"".join(B.externsheet5(3, s) for s in all_) + locs
        bk = open_bytes(B.workbook(ver, [B.Sh(s, B.number(ver, 0, 0, 1.0)) for s in all_], post=post))
        bk.logfile = NULL
        if bk.sheet_names() != all_:
            return Result("BIFF%d: sheet names %r" % (ver, bk.sheet_names()))
        n, outs = 0, []
        for k, nm in enumerate(names):
            ref, rng = tok3(k, k), tok3(k, last)
            dec = lambda d: F.decompile_formula(bk, d, len(d), fmlatype=F.FMLA_TYPE_CELL, browx=5, bcolx=3)
            texts = [("reference", dec(ref), [nm], "$B$2"), ("range of sheets", dec(rng), [nm, "Last one"], "$B$2"),
                     ("local name", dec(name(k + 1, "loc").enc(ver)), [nm], "loc"),
                     ("name formula", bk.name_obj_list[k].result.text, [nm], "$B$2")]
            for what, text, want, tail in texts:
                n += 1
                try:
                    parts, rest = split_sheets(text)
                except (ValueError, IndexError, TypeError) as e:
                    return Result("BIFF%d %s to sheet %r: %r (%s)" % (ver, what, nm, text, e), evals=n)
                if [p for p, _ in parts] != want or rest != tail:
                    return Result("BIFF%d %s to sheet %r: %r" % (ver, what, nm, text), evals=n)
                if not all(q or plain(p) for p, q in parts):
                    return Result("BIFF%d %s to sheet %r: %r needs quotes" % (ver, what, nm, text), evals=n)
                outs.append(text)
        return Result(None, outcome=tuple(outs), evals=n)


def spaces(tier):
    deep = tier == "thorough"
    lv1 = [R.int_(3), R.num(0.5), R.str_("x"), R.bool_(1), R.num(10.0)]
    lv2 = [REF2[0], REF2[4], REF2[1], REF2[5], REF2[2]]
    vs = VERS if deep else (80, 70, 20)
    sp = [
        Nodes("operands", leaves, "every operand token in every context"),
        Nodes("one operator", one_op, "every operator over every pair of operands", ctx=None if deep else few_ctx, vers=VERS),
        Nodes("trees, 2 operators", lambda v: itertools.chain(shapes(2, lv1), shapes(2, lv2)), "all trees with 2 operators out of 21", ctx=few_ctx),
        Nodes("trees, 3 operators", lambda v: itertools.chain(shapes(3, lv1), shapes(3, lv2)), "all trees with 3 operators out of 21", ctx=few_ctx, vers=vs if deep else (80,)),
        Nodes("reference fields", ref_fields, "edge rows and columns, all flags, every context"),
        Nodes("area fields", area_fields, "edge rows and columns, all flags, every context"),
        Nodes("reference lists", lists, "all groupings of two reference operators, bare and as arguments", ctx=few_ctx, vers=vs),
        Nodes("functions", functions, "every function with every legal argument count, IF and CHOOSE with every kind of argument", ctx=few_ctx, vers=vs),
        Odd(),
        SheetNames(deep),
    ]
    if deep:
        sp.append(Nodes("trees, 4 operators", lambda v: shapes(4, lv1), "all trees with 4 operators out of 21", vers=(80,), ctx=lambda v: [Ctx(v, TYPES[0], (5, 3), 0)]))
    return sp
