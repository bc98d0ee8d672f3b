"""C08: shared strings survive any legal split of the SST record."""
import itertools
from struct import pack
import biff as B, neigh
from mc import Space, Result
from xl import *

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the legal ways to split shared-string tables over CONTINUE records, replayed on the real reader; every record followed by each of its single-bit alterations"
NOTE = ("An independent writer turns a list of strings into atoms (header, character, formatting run, phonetic byte) and breaks the record before every "
        "atom, every pair (thorough: triple) of atoms, with every legal compression choice of every part; the cells of a workbook using the table must "
        "show the strings and the rich-text runs as stored.")
RULE = "A case is one physical encoding of one table; opened with and without formatting_info. Every case is non-trivial."
ASSUMPTIONS = ["a break inside a string's header, a single formatting run or a code unit is not legal and not generated", "lone surrogates are not generated"]

EMOJI = "\U0001F600"
R2 = [(1, 5), (2, 6)]
PH = bytes(range(1, 13))
# name -> (text, runs, phonetic, preferred compression: None = narrow where possible)
KINDS = {
    "empty": ("", None, None),
    "a": ("a", None, None),
    "nar": ("ab\xe9", None, None),
    "wide": ("\u0416x\u20ac", None, None),
    "emoji": ("p" + EMOJI + "q", None, None),
    "rich": ("abc", R2, None),
    "pho": ("abc", None, PH),
    "both": ("\u0416bc", R2, PH[:5]),
    "eboth": (EMOJI, [(0, 1)], PH[:2]),
    "erich": ("", [(0, 3)], None),
    "epho": ("", None, PH[:4]),
    "pho0": ("z", None, b""),
}


def atoms(kinds):
    """[(tag, payload)]: tag h (header: payload = string index), c (code unit), r, p."""
    out = []
    for i, k in enumerate(kinds):
        text, runs, ph = KINDS[k] if isinstance(k, str) else k
        out.append(("h", i))
        out += [("c", u) for u in B.units(text)]
        out += [("r", pack("<HH", *x)) for x in (runs or [])]
        out += [("p", bytes([x])) for x in (ph or b"")]
    return out


def narrow_ok(us):
    return all(u[1] == 0 for u in us)


def parts(at, cuts):
    """Character runs ('string part's) in stream order: lists of atom indexes needing one compression choice each."""
    cs = set(cuts)
    out, cur = [], None
    for i, (t, v) in enumerate(at):
        if t == "h":
            cur = [i]
            out.append(cur)          # the header itself opens a (possibly empty) part
        elif t == "c":
            if i in cs:
                cur = [i]
                out.append(cur)
            else:
                cur.append(i)
    return out


def choices(at, cuts):
    """All legal compression assignments: tuple of booleans, one for each part."""
    opts = []
    for p in parts(at, cuts):
        us = [at[i][1] for i in p if at[i][0] == "c"]
        opts.append((0, 1) if narrow_ok(us) else (1,))
    return opts


def encode(kinds, cuts, comp, at=None):
    """The SST record and its CONTINUEs for breaks before the atoms in `cuts`."""
    at = at or atoms(kinds)
    ps = parts(at, cuts)
    wide = {}
    first = {}
    for p, w in zip(ps, comp):
        for i in p:
            wide[i] = w
        first[p[0]] = w
    recs = [pack("<II", len(kinds) + 3, len(kinds))]
    cs = set(cuts)
    for i, (t, v) in enumerate(at):
        if i in cs:
            recs.append(b"")
            if t == "c":
                recs[-1] += bytes([wide[i]])
        if t == "h":
            k = kinds[v]
            text, runs, ph = KINDS[k] if isinstance(k, str) else k
            o = pack("<HB", len(B.units(text)), wide[i] | (8 if runs is not None else 0) | (4 if ph is not None else 0))
            if runs is not None:
                o += pack("<H", len(runs))
            if ph is not None:
                o += pack("<i", len(ph))
            recs[-1] += o
        elif t == "c":
            recs[-1] += v if wide[i] else v[:1]
        else:
            recs[-1] += v
    return b"".join(B.rec(0x00FC if n == 0 else B.CONTINUE, r) for n, r in enumerate(recs))


_pre = B.font(80) + B.xf(80)


def check(kinds, sstrec, evals=2, out=None):
    n = len(kinds)
    cells = b"".join(B.labelsst(i, 0, i) for i in range(n))
    data = B.workbook(80, [B.Sh("S", cells)], pre=_pre, post=sstrec)
    texts = [(KINDS[k] if isinstance(k, str) else k)[0] for k in kinds]
    runs = {(i, 0): (KINDS[k] if isinstance(k, str) else k)[1] for i, k in enumerate(kinds)}
    runs = {p: r for p, r in runs.items() if r}
    for fmt in (False, True):
        sh = open_bytes(data, formatting_info=fmt).sheet_by_index(0)
        got = [sh.cell_value(r, 0) for r in range(sh.nrows)]
        if got != texts:
            i = next((i for i, (a, b) in enumerate(zip(got, texts)) if a != b), min(len(got), len(texts)))
            return "fmt=%s: string %d of %d is %.80r, stored %.80r" % (fmt, i, n, got[i] if i < len(got) else None, texts[i] if i < n else None)
        if any(sh.cell_type(r, 0) != XL_CELL_TEXT for r in range(n)):
            return "a shared string is not a text cell"
        rm = {k: [tuple(x) for x in v] for k, v in sh.rich_text_runlist_map.items()}
        if rm != (runs if fmt else {}):
            return "fmt=%s: rich text runs %r, stored %r" % (fmt, rm, runs)
    return None


class Cuts(Space):
    def __init__(self, name, tables, ncuts):
        self.name, self.tables, self.ncuts = name, tables, ncuts
        self.bound = "%d tables, every choice of %s break positions, every legal compression choice" % (len(tables), ncuts)

    def gen(self):
        for kinds in self.tables:
            at = atoms(kinds)
            for n in self.ncuts:
                for cuts in itertools.combinations(range(1, len(at)), n):
                    cs = set(cuts)
                    touched = []
                    # only the strings a break touches get every compression choice; others are as narrow as possible
                    opts = choices(at, cuts)
                    owner = []
                    cur = -1
                    own_cut = set()
                    for i, (t, v) in enumerate(at):
                        if t == "h":
                            cur = v
                        if i in cs:
                            own_cut.add(cur)
                    k = -1
                    for p in parts(at, cuts):
                        if at[p[0]][0] == "h":
                            k = at[p[0]][1]
                        owner.append(k)
                    opts = [o if owner[j] in own_cut else o[:1] for j, o in enumerate(opts)]
                    for comp in itertools.product(*opts):
                        yield kinds, cuts, comp

    def judge(self, case):
        kinds, cuts, comp = case
        r = encode(kinds, cuts, comp)
        return Result(check(kinds, r), outcome=r, evals=2)


class Long(Space):
    """Strings around the record size limit, split where a writer that fills each record would split them."""
    name = "record-size limits"

    def __init__(self, q):
        self.q = q
        self.bound = "string lengths around 1..4 full records of 8224 bytes, narrow/wide/rich/phonetic, preceded by 0..3 other strings"

    def gen(self):
        L = 8224
        lens = set()
        for k in (1, 2) if self.q else (1, 2, 3, 4):
            for w in (1, 2):
                for d in range(-14, 3) if self.q else range(-30, 12):
                    lens.add((k * L + d) // w)
        lens |= {32767, 65534, 65535}
        for n in sorted(lens):
            for text in ("a", "\u0416", "a\u0416", EMOJI):
                for extra in (0, 1, 2):
                    yield n, text, extra

    def judge(self, case):
        n, text, extra = case
        m = len(B.units(text))
        t = (text * (n // m + 1))
        us = B.units(t)[:n]
        if us and us[-1][1] & 0xFC == 0xD8:
            us = us[:-1]
        t = b"".join(us).decode("utf_16_le")
        runs = [(0, 1), (n - 1, 2)] if extra else None
        ph = PH * 700 if extra == 2 else None
        kinds = ["nar"] * extra + [(t, runs, ph), "wide", "a"]
        # fill each record up to 8224 bytes
        at = atoms(kinds)
        cuts, size = [], 8
        wide = {}
        cur = 0
        for i, (tg, v) in enumerate(at):
            if tg == "h":
                k = kinds[v]
                k = KINDS[k] if isinstance(k, str) else k
                cur = 0 if B.can_narrow(k[0]) else 1
                sz = 3 + (2 if k[1] is not None else 0) + (4 if k[2] is not None else 0)
            elif tg == "c":
                sz = 1 + cur
            else:
                sz = len(v)
            if size + sz > 8224:
                cuts.append(i)
                size = 1 if tg == "c" else 0
            size += sz
        comp = []
        for p in parts(at, cuts):
            us = [at[i][1] for i in p if at[i][0] == "c"]
            # continuation parts keep the string's own width
            j = p[0]
            while at[j][0] != "h":
                j -= 1
            k = kinds[at[j][1]]
            k = KINDS[k] if isinstance(k, str) else k
            comp.append(0 if B.can_narrow(k[0]) else 1)
        return Result(check(kinds, encode(kinds, cuts, comp, at)), outcome=(n, text, extra, len(cuts)), evals=2)


class AllChars(Space):
    name = "every character"
    bound = "every BMP code point and the edges of every supplementary plane as a one-character string, 1024 strings a table, each table also broken before every 64th string"

    def gen(self):
        for lo in range(0, 0x10000, 1024):
            if not 0xD800 <= lo < 0xE000:
                for mode in (0, 1, 2):
                    yield lo, mode
        yield -1, 0
        yield -1, 1
        yield -1, 2

    def judge(self, case):
        lo, mode = case
        cps = range(lo, lo + 1024) if lo >= 0 else [p * 0x10000 + d for p in range(1, 17) for d in (0, 1, 0x3FF, 0x400, 0xFFFD)]
        kinds = [(chr(c) + ("" if mode < 2 else "q"), None, None) for c in cps]
        at = atoms(kinds)
        if mode == 0:
            cuts = []
        else:
            heads = [i for i, a in enumerate(at) if a[0] == "h"]
            cuts = [h + (1 if mode == 2 else 0) for h in heads[1::64]]
        comp = tuple(o[-1] if mode == 1 else o[0] for o in choices(at, cuts))
        return Result(check(kinds, encode(kinds, cuts, comp, at)), outcome=case, evals=2 * len(kinds))


class Refs(Space):
    name = "references to the table"
    bound = "all reference sequences of 4 cells over a 3-string table, any total count"

    def gen(self):
        for idx in itertools.product(range(3), repeat=4):
            for total in (0, 3, 4, 2 ** 31 - 1):
                yield idx, total

    def judge(self, case):
        idx, total = case
        kinds = ("rich", "wide", "both")
        body = b"".join(B.ustr(t, 2, runs=r, phonetic=p) for t, r, p in (KINDS[k] for k in kinds))
        rec = B.rec(0x00FC, pack("<II", total, 3) + body)
        data = B.workbook(80, [B.Sh("S", b"".join(B.labelsst(i // 2, i % 2, k) for i, k in enumerate(idx))),
                               B.Sh("T", B.labelsst(0, 0, idx[0]))], pre=_pre, post=rec)
        bk = open_bytes(data, formatting_info=True)
        sh = bk.sheet_by_index(0)
        for i, k in enumerate(idx):
            text, runs, ph = KINDS[kinds[k]]
            if sh.cell_value(i // 2, i % 2) != text:
                return Result("cell %d is %r, should be %r" % (i, sh.cell_value(i // 2, i % 2), text))
            if [tuple(x) for x in sh.rich_text_runlist_map.get((i // 2, i % 2), [])] != (runs or []):
                return Result("runs of cell %d" % i)
        if bk.sheet_by_index(1).cell_value(0, 0) != KINDS[kinds[idx[0]]][0]:
            return Result("second sheet")
        return Result(None, outcome=idx)


class Elsewhere(Space):
    """The same string layout in the other BIFF8 records that hold text."""
    name = "strings in other records"
    bound = "16 places x 13 texts x narrow or wide x 0..3 formatting runs or none x 0, 1 or 12 phonetic bytes or none"
    TEXTS = ("", "a", "ab\xe9", "it's", "\u0416x\u20ac", "p" + EMOJI + "q", "n" * 31, "\u0394" * 31,
             "q\x80\x85\x92\x9f\xa0\xad\xffq", "a\x01\n\x0b\x7fb", "a\0b", " a ", "\ufeffa\uffff\u202e")

    def gen(self):
        for t in self.TEXTS:
            for wide in (False, True):
                if not wide and not B.can_narrow(t):
                    continue
                for runs in (None, 0, 1, 2, 3):
                    for ph in (None, 0, 1, 12):
                        yield t, wide, runs, ph

    def judge(self, case):
        t, wide, nr, np = case
        runs = None if nr is None else [(i, 5 + i) for i in range(nr)]
        ph = None if np is None else bytes(range(65, 65 + np))
        u = lambda s, lenlen=2, **k: B.ustr(s, lenlen, wide, runs, ph, **k)
        rec = B.rec
        n = len(B.units(t))
        pre = rec(0x005C, u(t) + b" " * 20)
        pre += rec(0x0031, pack("<HHHHHBBBB", 200, 0, 0x7FFF, 400, 0, 0, 0, 0, 0) + u(t, 1))
        pre += rec(0x041E, pack("<H", 170) + u('"%s"' % t)) + rec(0x041E, pack("<H", 171) + u("yyyy" + "\u00e9"))
        pre += B.xf(80, 0) + B.xf(80, 171) + rec(0x0293, pack("<H", 0) + u("s" + t))
        name = lambda nm, rpn: rec(0x0018, pack("<HBBHHHBBBB", 0, 0, len(B.units(nm)), len(rpn), 0, 0, 0, 0, 0, 0) + u(nm, with_len=False) + rpn)
        ten = b"\x1e\x0a\x00"
        post = (rec(0x01AE, pack("<H", 2) + u("\x01x" + t) + u("s1" + t) + u("s2")) + B.supbook_internal(2) + B.supbook_addin() +
                rec(0x0023, pack("<HI", 0, 0) + u("f" + t, 1) + b"\x02\0\x1c\x17") + rec(0x0023, pack("<HI", 0, 0) + u("last", 1) + b"\x02\0\x1c\x17") +
                B.externsheet8([(1, 1, 1), (2, 0xFFFE, 0xFFFE)]))
        # a string constant between two numbers: what follows the string must be found
        lit = b"\x17" + u(t, 1)
        post += name("n" + t, ten) + name("k", ten)
        post += name("c", lit) + name("cc", lit + ten + b"\x08" + lit + b"\x08")
        post += B.name_rec(80, "r", b"\x3a" + pack("<HHH", 0, 0, 0))
        cells = rec(0x0204, pack("<HHH", 0, 0, 0) + u(t)) + rec(0x00D6, pack("<HHH", 1, 0, 0) + u(t) + pack("<H", 2) + pack("<HHHH", 0, 1, 1, 2))
        cells += B.number(80, 2, 0, 40000.0, 1)
        cells += B.obj(1) + B.txo([("hello", 0)], []) + rec(0x001C, pack("<HHHH", 3, 0, 0, 1) + u(t) + b"\0")
        sh_name = "S" + t[:30]
        orig = B.boundsheet
        try:
            B.boundsheet = lambda ver, off, nm, typ=0, vis=0, enc="latin_1": rec(0x0085, pack("<IBB", off, vis, typ) + B.ustr(nm, 1, wide or not B.can_narrow(nm), runs, ph))
            data = B.workbook(80, [B.Sh(sh_name, cells), B.Sh("two", B.number(80, 0, 0, 5.0))], pre=pre, post=post)
        finally:
            B.boundsheet = orig
        out, k = [], [0]

        def eq(what, got, want):
            k[0] += 1
            if got != want:
                out.append("%s is %.100r, stored %.100r" % (what, got, want))
        for fi in (False, True):
            bk = open_bytes(data, formatting_info=fi)
            sh = bk.sheet_by_index(0)
            eq("sheet names", bk.sheet_names(), [sh_name, "two"])
            eq("user_name", bk.user_name.strip(), t.strip())
            eq("LABEL", (sh.cell_type(0, 0), sh.cell_value(0, 0)), (1, t))
            eq("RSTRING", (sh.cell_type(1, 0), sh.cell_value(1, 0)), (1, t))
            eq("date cell", (sh.cell_type(2, 0), sh.cell_value(2, 0)), (3, 40000.0))
            eq("sheet two", bk.sheet_by_index(1).cell_value(0, 0), 5.0)
            eq("names", [o.name for o in bk.name_obj_list], ["n" + t, "k", "c", "cc", "r"])
            eq("name constant", bk.name_obj_list[0].result.value, 10.0)
            eq("string constant", bk.name_obj_list[2].result.value, t)
            eq("string expression", bk.name_obj_list[3].result.value, t + "10" + t)
            eq("reference", [tuple(r.coords) for r in bk.name_obj_list[4].result.value], [(1, 2, 0, 1, 0, 1)])
            eq("add-in functions", bk.addin_func_names, ["f" + t, "last"])
            eq("note author", [x.author for x in sh.cell_note_map.values()], [t])
            eq("format", bk.format_map[170].format_str, '"%s"' % t)
            if fi:
                eq("font", bk.font_list[0].name, t)
                eq("style", sorted(bk.style_name_map), ["s" + t])
                eq("run list", [tuple(x) for x in sh.rich_text_runlist_map[1, 0]], [(0, 1), (1, 2)])
        return Result(out[0] if out else None, outcome=case, evals=k[0])


def spaces(tier):
    q = tier == "quick"
    names = list(KINDS)
    pairs = [(a, b) for a in names for b in names]
    mix = [("emoji", "both", "nar"), ("rich", "pho", "wide"), ("eboth", "empty", "both"), ("pho", "erich", "epho", "a")]
    out = [Cuts("one break", [(a,) for a in names] + pairs + ([(a, b, c) for a in names for b in names for c in names] if not q else
                [(a, "empty", b) for a in names for b in names]), (0, 1)),
           Cuts("two breaks", pairs + mix if q else [(a, b, c) for a in names for b in names for c in ("a", "both", "emoji")] + mix, (2,)),
           Cuts("three breaks", [("emoji", "a"), ("pho",), ("eboth", "a"), ("rich",)] if q else [(a, "a") for a in names] + mix, (3,))]
    out.append(Cuts("four and more breaks", [("pho0", "pho"), ("emoji",), ("eboth",)] if q else [("pho", "a"), ("emoji", "pho0"), ("eboth", "a"), ("both",)],
                    (4, 5) if q else (4, 5, 6)))
    out += [Long(q), AllChars(), Refs(), Elsewhere()]
    return out + [neigh.Neigh(neigh.strings, "strings")]
