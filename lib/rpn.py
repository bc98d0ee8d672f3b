"""Formula tokens, expression trees, a parser for formula text under Excel's grammar, and Excel's meaning of constants.

Written from the published token layouts and Excel's operator precedence; nothing is imported from xlrd.

Nodes (tuples), built by the checks:
  ('leaf', Leaf)              an operand token
  ('bin', code, a, b)         arithmetic, concatenation, comparison
  ('ref', code, a, b)         0x0F intersection, 0x10 union, 0x11 range
  ('un', code, a)             0x12 +, 0x13 -, 0x14 %
  ('fn', funcid, args)        fixed argument count (tFunc)
  ('fv', funcid, args)        variable argument count (tFuncVar)
  ('sum', a)                  SUM of one argument written as tAttr
  ('paren', a), ('sp', a), ('mem', tok, a)   display-only parentheses, tAttrSpace, tMemFunc/tMemArea around a
"""
import re
from struct import pack
import biff as B

BIN = {3: "+", 4: "-", 5: "*", 6: "/", 7: "^", 8: "&", 9: "<", 10: "<=", 11: "=", 12: ">=", 13: ">", 14: "<>"}
REFOP = {15: " ", 16: ",", 17: ":"}
UN = {0x12: "+", 0x13: "-", 0x14: "%"}
ERR = {0: "#NULL!", 7: "#DIV/0!", 15: "#VALUE!", 23: "#REF!", 29: "#NAME?", 36: "#NUM!", 42: "#N/A"}
FN = {10: "NA", 19: "PI", 24: "ABS", 27: "ROUND", 65: "DATE", 119: "REPLACE", 34: "TRUE", 38: "NOT"}
FV = {1: "IF", 100: "CHOOSE", 4: "SUM", 8: "ROW", 6: "MIN", 0: "COUNT", 148: "INDIRECT", 78: "OFFSET"}


# The worksheet functions of BIFF5-8: number, name, fewest and most arguments ('F': fixed count, written as tFunc)
FUNCS = """0 COUNT 0 30;1 IF 2 3;2 ISNA F 1;3 ISERROR F 1;4 SUM 0 30;5 AVERAGE 1 30;6 MIN 1 30;7 MAX 1 30;8 ROW 0 1;9 COLUMN 0 1;10 NA F 0;11 NPV 2 30;12 STDEV 1 30;13 DOLLAR 1 2;14 FIXED 2 3;15 SIN F 1;16 COS F 1;17 TAN F 1;
18 ATAN F 1;19 PI F 0;20 SQRT F 1;21 EXP F 1;22 LN F 1;23 LOG10 F 1;24 ABS F 1;25 INT F 1;26 SIGN F 1;27 ROUND F 2;28 LOOKUP 2 3;29 INDEX 2 4;30 REPT F 2;31 MID F 3;32 LEN F 1;33 VALUE F 1;34 TRUE F 0;35 FALSE F 0;
36 AND 1 30;37 OR 1 30;38 NOT F 1;39 MOD F 2;40 DCOUNT F 3;41 DSUM F 3;42 DAVERAGE F 3;43 DMIN F 3;44 DMAX F 3;45 DSTDEV F 3;46 VAR 1 30;47 DVAR F 3;48 TEXT F 2;49 LINEST 1 4;50 TREND 1 4;51 LOGEST 1 4;52 GROWTH 1 4;
56 PV 3 5;57 FV 3 5;58 NPER 3 5;59 PMT 3 5;60 RATE 3 6;61 MIRR F 3;62 IRR 1 2;63 RAND F 0;64 MATCH 2 3;65 DATE F 3;66 TIME F 3;67 DAY F 1;68 MONTH F 1;69 YEAR F 1;70 WEEKDAY 1 2;71 HOUR F 1;72 MINUTE F 1;73 SECOND F 1;
74 NOW F 0;75 AREAS F 1;76 ROWS F 1;77 COLUMNS F 1;78 OFFSET 3 5;82 SEARCH 2 3;83 TRANSPOSE F 1;86 TYPE F 1;97 ATAN2 F 2;98 ASIN F 1;99 ACOS F 1;100 CHOOSE 2 30;101 HLOOKUP 3 4;102 VLOOKUP 3 4;105 ISREF F 1;109 LOG 1 2;
111 CHAR F 1;112 LOWER F 1;113 UPPER F 1;114 PROPER F 1;115 LEFT 1 2;116 RIGHT 1 2;117 EXACT F 2;118 TRIM F 1;119 REPLACE F 4;120 SUBSTITUTE 3 4;121 CODE F 1;124 FIND 2 3;125 CELL 1 2;126 ISERR F 1;127 ISTEXT F 1;
128 ISNUMBER F 1;129 ISBLANK F 1;130 T F 1;131 N F 1;140 DATEVALUE F 1;141 TIMEVALUE F 1;142 SLN F 3;143 SYD F 4;144 DDB 4 5;148 INDIRECT 1 2;162 CLEAN F 1;163 MDETERM F 1;164 MINVERSE F 1;165 MMULT F 2;167 IPMT 4 6;
168 PPMT 4 6;169 COUNTA 0 30;183 PRODUCT 0 30;184 FACT F 1;189 DPRODUCT F 3;190 ISNONTEXT F 1;193 STDEVP 1 30;194 VARP 1 30;195 DSTDEVP F 3;196 DVARP F 3;197 TRUNC 1 2;198 ISLOGICAL F 1;199 DCOUNTA F 3;204 USDOLLAR 1 2;
205 FINDB 2 3;206 SEARCHB 2 3;207 REPLACEB F 4;208 LEFTB 1 2;209 RIGHTB 1 2;210 MIDB F 3;211 LENB F 1;212 ROUNDUP F 2;213 ROUNDDOWN F 2;214 ASC F 1;215 DBCS F 1;216 RANK 2 3;219 ADDRESS 2 5;220 DAYS360 2 3;221 TODAY F 0;
222 VDB 5 7;227 MEDIAN 1 30;228 SUMPRODUCT 1 30;229 SINH F 1;230 COSH F 1;231 TANH F 1;232 ASINH F 1;233 ACOSH F 1;234 ATANH F 1;235 DGET F 3;244 INFO F 1;247 DB 4 5;252 FREQUENCY F 2;261 ERROR.TYPE F 1;269 AVEDEV 1 30;
270 BETADIST 3 5;271 GAMMALN F 1;272 BETAINV 3 5;273 BINOMDIST F 4;274 CHIDIST F 2;275 CHIINV F 2;276 COMBIN F 2;277 CONFIDENCE F 3;278 CRITBINOM F 3;279 EVEN F 1;280 EXPONDIST F 3;281 FDIST F 3;282 FINV F 3;283 FISHER F 1;
284 FISHERINV F 1;285 FLOOR F 2;286 GAMMADIST F 4;287 GAMMAINV F 3;288 CEILING F 2;289 HYPGEOMDIST F 4;290 LOGNORMDIST F 3;291 LOGINV F 3;292 NEGBINOMDIST F 3;293 NORMDIST F 4;294 NORMSDIST F 1;295 NORMINV F 3;
296 NORMSINV F 1;297 STANDARDIZE F 3;298 ODD F 1;299 PERMUT F 2;300 POISSON F 3;301 TDIST F 3;302 WEIBULL F 4;303 SUMXMY2 F 2;304 SUMX2MY2 F 2;305 SUMX2PY2 F 2;306 CHITEST F 2;307 CORREL F 2;308 COVAR F 2;
309 FORECAST F 3;310 FTEST F 2;311 INTERCEPT F 2;312 PEARSON F 2;313 RSQ F 2;314 STEYX F 2;315 SLOPE F 2;316 TTEST F 4;317 PROB 3 4;318 DEVSQ 1 30;319 GEOMEAN 1 30;320 HARMEAN 1 30;321 SUMSQ 0 30;322 KURT 1 30;
323 SKEW 1 30;324 ZTEST 2 3;325 LARGE F 2;326 SMALL F 2;327 QUARTILE F 2;328 PERCENTILE F 2;329 PERCENTRANK 2 3;330 MODE 1 30;331 TRIMMEAN F 2;332 TINV F 2;336 CONCATENATE 0 30;337 POWER F 2;342 RADIANS F 1;
343 DEGREES F 1;344 SUBTOTAL 2 30;345 SUMIF 2 3;346 COUNTIF F 2;347 COUNTBLANK F 1;350 ISPMT F 4;351 DATEDIF F 3;352 DATESTRING F 1;353 NUMBERSTRING F 2;354 ROMAN 1 2;359 HYPERLINK 1 2;360 PHONETIC F 1;
361 AVERAGEA 1 30;362 MAXA 1 30;363 MINA 1 30;364 STDEVPA 1 30;365 VARPA 1 30;366 STDEVA 1 30;367 VARA 1 30"""
FTAB = []
for _l in FUNCS.replace("\n", "").split(";"):
    _p = _l.split()
    FTAB.append((int(_p[0]), _p[1], None if _p[2] == "F" else int(_p[2]), int(_p[3])))
for _id, _n, _lo, _hi in FTAB:
    (FN if _lo is None else FV)[_id] = _n


class Leaf(object):
    """enc(ver) -> token bytes; tree: normalised parse tree; val: meaning (see ev)."""
    def __init__(self, key, enc, tree, val):
        self.key, self.enc, self.tree, self.val = key, enc, tree, val

    def __repr__(self):
        return self.key


def num(x):
    return Leaf("num%r" % x, lambda ver: b"\x1f" + pack("<d", x), numtree(x), ("const", ("n", float(x))))


def int_(x):
    return Leaf("int%d" % x, lambda ver: b"\x1e" + pack("<H", x), ("num", float(x)), ("const", ("n", float(x))))


def numtree(x):
    return ("un", "-", ("num", -x)) if str(x).startswith("-") else ("num", float(x))


def str_(s, wide=None):
    return Leaf("str%r" % s, lambda ver: b"\x17" + B.vstr(ver, s, 1), ("str", s), ("const", ("s", s)))


def bool_(b):
    return Leaf("bool%d" % b, lambda ver: b"\x1d" + bytes([b]), ("name", "TRUE" if b else "FALSE"), ("const", ("b", b)))


def err(code):
    return Leaf("err%d" % code, lambda ver: b"\x1c" + bytes([code]), ("err", ERR[code]), ("const", ("e", code)))


MISS = Leaf("miss", lambda ver: b"\x16", ("miss",), ("miss",))


def cell_bytes(ver, r, c, rrel=0, crel=0):
    """Row and column fields of one corner, relative parts given as offsets (reference stored as in names and shared formulas) or as stored numbers."""
    if ver >= 80:
        return pack("<H", r & 0xFFFF), pack("<H", (c & 0xFF) | rrel << 15 | crel << 14)
    return pack("<H", (r & 0x3FFF) | rrel << 15 | crel << 14), bytes([c & 0xFF])


def ref_bytes(ver, cell):
    r, c = cell_bytes(ver, *cell)
    return r + c


def area_bytes(ver, a, b):
    r1, c1 = cell_bytes(ver, *a)
    r2, c2 = cell_bytes(ver, *b)
    return r1 + r2 + c1 + c2


def sheet3d(ver, sh):
    """sh: (refx for BIFF8, (extsheet, first, last) for BIFF5/7)."""
    if ver >= 80:
        return pack("<H", sh[0])
    return pack("<h8xhh", *sh[1])


def cls(base, k):
    """Operand class k: 1 reference, 2 value, 3 array."""
    return bytes([(base & 0x1F) | k << 5])


def attr(ver, sub, n=0):
    return bytes([0x19, sub]) + (pack("<H", n) if ver >= 30 else bytes([n & 0xFF]))


def funcid(ver, fid):
    return pack("<H", fid) if ver >= 40 else bytes([fid & 0xFF])


def encode(node, ver):
    t = node[0]
    if t == "leaf":
        return node[1].enc(ver)
    if t in ("bin", "ref"):
        return encode(node[2], ver) + encode(node[3], ver) + bytes([node[1]])
    if t == "un":
        return encode(node[2], ver) + bytes([node[1]])
    if t == "fn":
        return b"".join(encode(a, ver) for a in node[2]) + b"\x41" + funcid(ver, node[1])
    if t == "fv":
        args = [encode(a, ver) for a in node[2]]
        out = b""
        if node[1] == 1:              # IF, with the jump tokens Excel writes
            for i, a in enumerate(args):
                out += a + (attr(ver, 2) if i == 0 else attr(ver, 8, 3))
        elif node[1] == 100:
            n = len(args) - 1
            out = args[0] + attr(ver, 4, n) + bytes((n + 1) * (2 if ver >= 30 else 1))
            for a in args[1:]:
                out += a + attr(ver, 8, 3)
        else:
            out = b"".join(args)
        return out + b"\x42" + bytes([len(args)]) + funcid(ver, node[1])
    if t == "sum":
        return encode(node[1], ver) + attr(ver, 16)
    if t == "paren":
        return encode(node[1], ver) + b"\x15"
    if t == "sp":
        return attr(ver, 0x40, 0x100) + encode(node[1], ver)
    if t == "mem":
        sub = encode(node[2], ver)
        size = {0x06: b"\0" * 4, 0x07: b"\x17\0\0\0", 0x08: b"\0" * 4}.get(node[1], b"")
        return cls(node[1], 1) + (size + pack("<H", len(sub)) if ver >= 30 else size[:3] + bytes([len(sub) & 0xFF])) + sub
    raise ValueError(node)


def tree(node):
    """Canonical tree of the expression."""
    return mknorm(rawtree(node))


def rawtree(node):
    t = node[0]
    if t == "leaf":
        return node[1].tree
    if t == "bin":
        return ("bin", BIN[node[1]], rawtree(node[2]), rawtree(node[3]))
    if t == "ref":
        return mkref(REFOP[node[1]], rawtree(node[2]), rawtree(node[3]))
    if t == "un":
        return ("un", UN[node[1]], rawtree(node[2]))
    if t in ("fn", "fv"):
        return mkfn((FN if t == "fn" else FV)[node[1]], [rawtree(a) for a in node[2]])
    if t == "sum":
        return ("fn", "SUM", (rawtree(node[1]),))
    if t in ("paren", "sp"):
        return rawtree(node[1])
    return rawtree(node[2])


def mkref(op, a, b):
    if op != ":":
        return ("refop", op, a, b)
    f = lambda t: list(t[1]) if t[0] == "range" else [t]
    return ("range", tuple(f(a) + f(b)))


def mknorm(t):
    """Canonical tree: the range operator gives the box around its operands, so chains of it are flat, areas in them are their corners, and cells need no sheet once one has it."""
    if not isinstance(t, tuple):
        return t
    if not t or t[0] != "range":
        return tuple(mknorm(x) for x in t)
    items, sheets = [], []
    for x in t[1]:
        x = mknorm(x)
        for y in x[1] if x[0] == "range" else [x]:
            if y[0] == "area":
                if y[1] and y[1] not in sheets:
                    sheets.append(y[1])
                for c in y[2:]:
                    if ("cell", c) not in items:
                        items.append(("cell", c))
            else:
                items.append(y)
    if all(y[0] == "cell" for y in items) and len(items) <= 2 and len(sheets) <= 1:
        return ("area", sheets[0] if sheets else (), items[0][1], items[-1][1])
    return ("range", tuple(sheets), tuple(items))


def mkfn(name, args):
    if len(args) == 1 and args[0] == ("miss",):
        args = []
    if name in ("TRUE", "FALSE") and not args:
        return ("name", name)
    return ("fn", name, tuple(args))


WILD = ("?",)


def same(a, b):
    """Equality of trees; a '?' in the text stands for any operand the library cannot render (b is the parsed text)."""
    if b == WILD:
        return a[0] in ("array", "ref2d", "refed", "area2d", "unknown", WILD[0])
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == "num":
        return repr(a[1]) == repr(b[1])
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and isinstance(y, tuple) and y and isinstance(y[0], str):
            if not same(x, y):
                return False
        elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], tuple) and isinstance(y[0], tuple):   # lists of trees
            if len(x) != len(y) or not all(same(p, q) for p, q in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


# --- parser of formula text ---------------------------------------------------------------------------------------

NUMRE = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
STRRE = re.compile(r'"(?:[^"]|"")*"')
ERRRE = re.compile(r"#(?:NULL!|DIV/0!|VALUE!|REF!|NAME\?|NUM!|N/A)")
A1RE = re.compile(r"(\$?)([A-Z]{1,3})(\$?)(\d+)(?![\w.(!])")
RCRE = re.compile(r"R(\d+|\[-?\d+\])?C(\d+|\[-?\d+\])?(?![\w.(!\[])")
QRE = re.compile(r"'(?:[^']|'')*'")
SHRE = re.compile(r"[^\W\d][\w.]*|<<external>>|\?[^?]*\?")
NAMERE = re.compile(r"[^\W\d]\w*(?:\.\w+)*|_\w*")


class ParseError(Exception):
    pass


def colnum(s):
    n = 0
    for ch in s:
        n = n * 26 + ord(ch) - 64
    return n - 1


class Parser(object):
    """expression := comparison; Excel precedence, all binary operators left associative."""
    LEVELS = [("<=", ">=", "<>", "<", ">", "="), ("&",), ("+", "-"), ("*", "/"), ("^",)]

    def __init__(self, text, base=None, limit=256, sheets=None, modes="AR", wrap=None, signed=False):
        self.signed = signed            # offsets are the signed numbers of the format: -n/2 <= offset < n/2
        self.wrap = wrap                # (rows, columns): offsets in R1C1 text are equal modulo the size of the sheet
        self.modes = modes              # notations of cell references that may occur
        self.sheets = sheets            # 'x:Sheet2!A1' is a range of sheets only when x is a sheet
        self.s, self.i, self.base, self.limit = text, 0, base, limit

    def parse(self):
        t = self.expr(0, True)
        if self.i != len(self.s):
            raise ParseError("unexpected %r" % self.s[self.i:])
        return t

    def expr(self, level, union):
        if level == len(self.LEVELS):
            return self.percent(union)
        a = self.expr(level + 1, union)
        while True:
            for op in self.LEVELS[level]:
                if self.s.startswith(op, self.i):
                    self.i += len(op)
                    a = ("bin", op, a, self.expr(level + 1, union))
                    break
            else:
                return a

    def percent(self, union):
        a = self.unary(union)
        while self.s.startswith("%", self.i):
            self.i += 1
            a = ("un", "%", a)
        return a

    def unary(self, union):
        if self.s[self.i:self.i + 1] in ("-", "+"):
            op = self.s[self.i]
            self.i += 1
            return ("un", op, self.unary(union))
        return self.refs(union)

    def refs(self, union):
        """union , < intersection ' ' < range :"""
        a = self.isect()
        while union and self.s.startswith(",", self.i):
            self.i += 1
            a = mkref(",", a, self.isect())
        return a

    def isect(self):
        a = self.range()
        while self.s.startswith(" ", self.i):
            self.i += 1
            a = mkref(" ", a, self.range())
        return a

    def range(self):
        a = self.primary()
        while self.s.startswith(":", self.i):
            self.i += 1
            a = mkref(":", a, self.primary())
        return a

    def m(self, rx):
        return rx.match(self.s, self.i)

    def primary(self):
        s, i = self.s, self.i
        ch = s[i:i + 1]
        if ch == "(":
            self.i += 1
            t = self.expr(0, True)
            if s[self.i:self.i + 1] != ")":
                raise ParseError("no ) at %d" % self.i)
            self.i += 1
            return t
        if ch == '"':
            m = self.m(STRRE)
            if not m:
                raise ParseError("open string")
            self.i = m.end()
            return ("str", m.group()[1:-1].replace('""', '"'))
        if ch == "#":
            m = self.m(ERRRE)
            if not m:
                raise ParseError("bad error value")
            self.i = m.end()
            return ("err", m.group())
        m = self.m(NUMRE)
        if m:
            self.i = m.end()
            return ("num", float(m.group()))
        sh = self.sheet()
        if sh is not None:
            c = self.cells(sh)
            if c is not None:
                return c
            m = self.m(NAMERE)
            if not m:
                raise ParseError("nothing after the sheet name at %d" % self.i)
            self.i = m.end()
            return ("name", sh, m.group())
        if ch == "?":
            self.i += 1
            return WILD
        c = self.cells(())
        if c is not None:
            return c
        m = self.m(NAMERE)
        if not m:
            raise ParseError("operand expected at %d: %r" % (i, s[i:i + 20]))
        self.i = m.end()
        name = m.group()
        if s[self.i:self.i + 1] == "(":
            self.i += 1
            args = []
            if s[self.i:self.i + 1] == ")":
                self.i += 1
                return mkfn(name, [])
            while True:
                if s[self.i:self.i + 1] in (",", ")"):
                    args.append(("miss",))
                else:
                    args.append(self.expr(0, False))
                nxt = s[self.i:self.i + 1]
                self.i += 1
                if nxt == ")":
                    return mkfn(name, args)
                if nxt != ",":
                    raise ParseError("bad argument list at %d" % self.i)
        return ("name", name)

    def sheet(self):
        """Sheet or Sheet:Sheet followed by !, each part quoted or not."""
        save, out = self.i, []
        while True:
            m = self.m(QRE)
            if m:
                out.append(m.group()[1:-1].replace("''", "'"))
            else:
                m = self.m(SHRE)
                if not m:
                    break
                out.append(m.group())
            self.i = m.end()
            nxt = self.s[self.i:self.i + 1]
            if nxt == "!":
                self.i += 1
                return tuple(out)
            if nxt != ":" or len(out) == 2 or self.sheets is not None and out[0] not in self.sheets:
                break
            self.i += 1
        self.i = save
        return None

    def cells(self, sh):
        a = self.cell()
        if a is None:
            return None
        save = self.i
        if self.s.startswith(":", self.i):
            self.i += 1
            b = self.cell()
            if b is not None:
                return ("area", sh, a, b)
            self.i = save
        return ("area", sh, a, a)

    def cell(self):
        """(row, col, row relative?, col relative?): relative parts of A1 text are resolved against the base cell."""
        m = self.m(A1RE) if "A" in self.modes else None
        if m and colnum(m.group(2)) < self.limit:
            self.i = m.end()
            r, c = int(m.group(4)) - 1, colnum(m.group(2))
            rrel, crel = not m.group(3), not m.group(1)
            if (rrel or crel) and self.base is None:
                raise ParseError("relative A1 reference without a base cell: %r" % m.group())
            return (r, c, int(rrel), int(crel))
        m = self.m(RCRE) if "R" in self.modes else None
        if m:
            self.i = m.end()
            out = []
            for k, g in enumerate(m.groups()):
                if g is None or g[0] == "[":
                    off = int(g[1:-1]) if g else 0
                    if self.signed and not -self.wrap[k] // 2 <= off < self.wrap[k] // 2:
                        raise ParseError("offset %d is not a signed offset" % off)
                    out.append((off % self.wrap[k] if self.wrap else off, 1))
                else:
                    out.append((int(g) - 1, 0))
            if self.base is not None:
                raise ParseError("R1C1 text although a base cell was given: %r" % m.group())
            return (out[0][0], out[1][0], out[0][1], out[1][1])
        return None


def parse(text, base=None, limit=256, sheets=None, modes="AR", wrap=None, signed=False):
    return mknorm(Parser(text, base, limit, sheets, modes, wrap, signed).parse())


# --- Excel's meaning of constant expressions ----------------------------------------------------------------------
# ('const', v)  the library computes v;  ('maybe', v) it may leave the value unknown;  ('none',) not constant;
# ('any',) undefined here;  ('miss',) omitted argument.   v: ('n', float) ('s', str) ('b', 0/1) ('e', code) ('r', boxes) ('R', boxes+flags)

SIMPLE = re.compile(r"^[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?$")
PLAIN = re.compile(r"^[A-Za-z0-9]*$")


def tonum(v):
    """(number, sure) or ('e', code), or None when the answer depends on things outside this model."""
    if v[0] == "n":
        return v[1], True
    if v[0] == "b":
        return float(v[1]), False
    if v[0] == "s":
        if SIMPLE.match(v[1]):
            return float(v[1]), True
        if re.match(r"^[A-Za-z]{2,}$", v[1]) or v[1] == "":
            return ("e", 15)
        return None
    if v[0] == "e":
        return v
    return None


def fin(x):
    return x == x and x not in (float("inf"), float("-inf"))


def arith(op, x, y):
    """Excel's result of x op y, ('n', v) or ('e', code) or None."""
    try:
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            if y == 0:
                return ("e", 7)
            r = x / y
        else:
            if x == 0 and y == 0:
                return ("e", 36)
            if x == 0 and y < 0:
                return ("e", 7)
            if x < 0 and y != int(y):
                return None
            r = x ** y
    except OverflowError:
        return ("e", 36)
    return ("n", r) if fin(r) else ("e", 36)


def totext(v):
    if v[0] == "s":
        return v[1], True
    if v[0] == "n":
        x = v[1]
        if x == int(x) and abs(x) < 1e15:
            return "%d" % x, True
        if 1e-3 <= abs(x) < 1e9:
            return "%.15g" % x, True
        if x == 1e20:
            return "1E+20", True
        return None
    if v[0] == "b":
        return "TRUE" if v[1] else "FALSE", False
    return None


def demote(v, *parts):
    return ("maybe", v) if any(p[0] != "const" for p in parts) else ("const", v)


def ev(node):
    t = node[0]
    if t == "leaf":
        return node[1].val
    if t == "bin":
        return ev_bin(BIN[node[1]], ev(node[2]), ev(node[3]))
    if t == "un":
        return ev_un(UN[node[1]], ev(node[2]))
    if t == "ref":
        return ev_ref(REFOP[node[1]], ev(node[2]), ev(node[3]))
    if t == "fv" and node[1] == 1:
        return ev_if([ev(a) for a in node[2]])
    if t == "fv" and node[1] == 100:
        return ev_choose([ev(a) for a in node[2]])
    if t in ("fn", "fv", "sum"):
        return ("none",)
    if t in ("paren", "sp"):
        return ev(node[1])
    return ev(node[2])


def ev_bin(op, a, b):
    if a[0] == "any" or b[0] == "any":
        return ("any",)
    if a[0] == "none" or b[0] == "none":
        other = b if a[0] == "none" else a
        return ("any",) if other[0] in ("const", "maybe") and other[1][0] == "e" else ("none",)
    u, v = a[1], b[1]
    if u[0] in "rR" or v[0] in "rR":
        return ("any",) if "e" in (u[0], v[0]) else ("none",)
    for w in (u, v):
        if w[0] == "e":
            return ("maybe", w)
    if op == "&":
        x, y = totext(u), totext(v)
        if x is None or y is None:
            return ("any",)
        r = ("s", x[0] + y[0])
        return demote(r, a, b) if x[1] and y[1] else ("maybe", r)
    if op in "+-*/^":
        x, y = tonum(u), tonum(v)
        if x is None or y is None:
            return ("any",)
        for w in (x, y):
            if w[0] == "e":
                return ("maybe", w)
        r = arith(op, x[0], y[0])
        if r is None:
            return ("any",)
        if r[0] == "e" or not (x[1] and y[1]):
            return ("maybe", r)
        return demote(r, a, b)
    # comparison: numbers before text before logical values; text without regard to case
    order = {"n": 0, "s": 1, "b": 2}
    sure = "b" not in (u[0], v[0])
    if u[0] != v[0]:
        x, y = order[u[0]], order[v[0]]
    elif u[0] == "s":
        x, y = u[1].lower(), v[1].lower()
        if "_" in (x, y) and (x + y).replace("_", "").isalpha() and (x + y).isascii():
            pass    # punctuation sorts before letters
        elif not (PLAIN.match(u[1]) and PLAIN.match(v[1])):
            return ("any",)
        elif not (x.isalpha() and y.isalpha() or x.isdigit() and y.isdigit() or x == y or not x or not y):
            return ("any",)
    else:
        x, y = u[1], v[1]
        if u[0] == "n" and x != y and abs(x - y) <= 1e-13 * max(abs(x), abs(y)):
            return ("any",)
    r = ("b", int({"<": x < y, "<=": x <= y, "=": x == y, ">=": x >= y, ">": x > y, "<>": x != y}[op]))
    return demote(r, a, b) if sure else ("maybe", r)


def ev_un(op, a):
    if a[0] in ("any", "none"):
        return a
    v = a[1]
    if v[0] in "rR":
        return ("any",) if op == "+" else ("none",)
    if v[0] == "e":
        return ("maybe", v)
    if op == "+":
        return demote(v, a) if v[0] == "n" else ("maybe", v)
    x = tonum(v)
    if x is None:
        return ("any",)
    if x[0] == "e":
        return ("maybe", x)
    r = ("n", -x[0] if op == "-" else x[0] / 100.0)
    return demote(r, a) if v[0] == "n" else ("maybe", r)


def ev_ref(op, a, b):
    if a[0] in ("const", "maybe") and a[1][0] == "e" or b[0] in ("const", "maybe") and b[1][0] == "e":
        return ("any",)
    if a[0] != "const" or b[0] != "const":
        return ("any",) if "any" in (a[0], b[0]) or "maybe" in (a[0], b[0]) else ("none",)
    u, v = a[1], b[1]
    if u[0] not in "rR" or v[0] not in "rR":
        return ("any",)
    if op == ",":
        return ("const", ("R" if "R" in (u[0], v[0]) else "r", u[1] + v[1]))
    if len(u[1]) != 1 or len(v[1]) != 1:
        return ("any",)
    if u[0] != v[0] or u[0] == "R" and u[1][0][6:] != v[1][0][6:]:
        # offsets and positions cannot be compared without a base cell: any box would be wrong for some base
        return ("none",)
    x, y = u[1][0], v[1][0]
    f = [max, min] * 3 if op == " " else [min, max] * 3
    box = tuple(g(p, q) for g, p, q in zip(f, x[:6], y[:6]))
    if op == ":" and x[:2] != y[:2]:
        return ("any",)
    if box[0] >= box[1] or box[2] >= box[3] or box[4] >= box[5]:
        return ("maybe", ("e", 0))
    return ("const", (u[0], [box + x[6:]]))


def ev_if(args):
    t = args[0]
    if t[0] == "miss":
        return ("any",)
    if t[0] in ("any", "none"):
        return t
    v = t[1]
    if v[0] == "n" or v[0] == "b":
        test = v[1] != 0
        if test:
            r = args[1]
        elif len(args) == 3:
            r = args[2]
        else:
            r = ("const", ("b", 0))
        if r == ("miss",):
            r = ("const", ("n", 0.0))
        if r[0] == "const" and (t[0] != "const" or v[1] not in (0, 1)):
            return ("maybe", r[1])
        return r
    if v[0] == "e":
        return ("maybe", v)
    return ("any",)


def ev_choose(args):
    t = args[0]
    if t[0] == "miss":
        return ("any",)
    if t[0] in ("any", "none"):
        return t
    v = t[1]
    if v[0] == "e":
        return ("maybe", v)
    if v[0] == "n":
        k = int(v[1]) if abs(v[1]) < 1e6 else 0
        if 1 <= v[1] and 1 <= k < len(args):
            r = args[k]
            if r == ("miss",):
                r = ("const", ("n", 0.0))
            return ("maybe", r[1]) if t[0] != "const" and r[0] == "const" else r
        return ("maybe", ("e", 15))
    return ("any",)


KIND = {"n": 2, "s": 1, "b": 3, "e": 4, "r": -1, "R": -2}


def boxes(value):
    return [tuple(x.coords) + (tuple(x.relflags) if any(x.relflags) else ()) for x in value]


def check_value(want, kind, value):
    """None or a text: does (kind, value) agree with the meaning?"""
    if want[0] in ("any", "miss"):
        return None
    if want[0] == "none":
        return None if value is None else "value %r (kind %r) given for an expression that is not constant" % (value, kind)
    v = want[1]
    if value is None:
        return None if want[0] == "maybe" else "value unknown, Excel's is %r" % (v,)
    if kind != KIND[v[0]]:
        return "kind %r value %r, Excel's is %r" % (kind, value, v)
    if v[0] in "rR":
        got = boxes(value)
        exp = [tuple(b[:6]) + (tuple(b[6:]) if any(b[6:]) else ()) for b in v[1]]
        return None if got == exp else "reference %r, expected %r" % (got, exp)
    if v[0] == "n":
        ok = isinstance(value, (int, float)) and float(value) == v[1]
    else:
        ok = value == v[1] and isinstance(value, str) == (v[0] == "s")
    return None if ok else "value %r, Excel's is %r" % (value, v)
