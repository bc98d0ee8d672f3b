"""C30: the runxlrd tool runs every documented command on every readable file."""
import ast
import contextlib
import gc
import io
import itertools
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from collections import Counter
from struct import pack
import biff as B
import corpus
import mc
import ole
import recs
import snap
from mc import Space, Result
from xl import *

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of commands x options x files on the real script, its output parsed and compared with the API; all file sequences up to a length for the continuation after unreadable files"
NOTE = ("The script itself is run (in the process, and as a program for the profiled and shell-level variants) for every documented command, every combination of options and workbooks of all nine versions with every record kind, edge workbooks and the sample files; "
        "show's output is parsed back into (address, type, value) and compared cell by cell with the API. All sequences of up to three readable, unreadable, missing files. The log file named with -l is compared with what the library writes about each file.")
RULE = "A case is one command with one option combination on one file (or file sequence); non-trivial when at least one readable file was processed and its output compared."
ASSUMPTIONS = ["standard output can encode the text (UTF-8)", "file names contain no glob metacharacters", "hotshot does not exist for this Python"]
VERS = (20, 21, 30, 40, 45, 50, 70, 80)
SCRIPT = os.path.join(mc.REPO, "scripts", "runxlrd.py")
SAMPLES = os.path.join(mc.REPO, "tests", "samples")
CMDS = ("hdr", "ov", "show", "2rows", "3rows", "bench", "fonts", "names", "name_dump", "labels", "xfc", "biff_dump", "biff_count")


def program(args, cwd):
    env = dict(os.environ, PYTHONPATH=mc.REPO, PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([sys.executable, SCRIPT] + list(args), cwd=cwd, env=env, capture_output=True, timeout=100)


def tool(args, cwd):
    """(exit status, stdout, stderr) of the script run with these arguments."""
    if any(a.startswith("biff_") for a in args):     # these print to the standard output the module was imported with
        p = program(args, cwd)
        return p.returncode and "exit %d" % p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8")
    out, err = io.StringIO(), io.StringIO()
    argv, old = sys.argv, os.getcwd()
    code = 0
    sys.argv = ["runxlrd.py"] + list(args)
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e:
                code = e.code or 0
            except mc.Hang:
                raise
            except BaseException as e:
                return "%s: %s (%s)" % (type(e).__name__, e, " ".join(mc.short_tb().strip().splitlines()[-4:-1])), out.getvalue(), err.getvalue()
    finally:
        sys.argv = argv
        os.chdir(old)
        gc.enable()
    return code, out.getvalue(), err.getvalue()


CELL = re.compile(r"^cell ([A-Z]+)(\d+): type=(\d+), data: (.*)$")
SHEET = re.compile(r"^sheet (\d+): name = (.*); nrows = (\d+); ncols = (\d+)$")


def colnum(s):
    n = 0
    for ch in s:
        n = n * 26 + ord(ch) - 64
    return n - 1


def rows_of(cmd, n):
    k = {"ov": 0, "2rows": 2, "3rows": 3}.get(cmd, n)
    return [r for r in range(n) if r < k - 1 or (r == n - 1 and k)]


def shown(bk, sh, r, c, fmt):
    """(type, value) the way the tool shows dates and errors."""
    t, v = sh.cell_type(r, c), sh.cell_value(r, c)
    if t == XL_CELL_DATE:
        try:
            v = xlrd.xldate_as_tuple(v, bk.datemode)
        except ValueError as e:
            t, v = XL_CELL_ERROR, "%s:%s" % (type(e).__name__, e)
        except OverflowError as e:
            t, v = XL_CELL_ERROR, "%s:%s" % (type(e).__name__, e)
    elif t == XL_CELL_ERROR:
        v = xlrd.error_text_from_code.get(v, "<Unknown error code 0x%02x>" % v)
    return t, v


def expected_sheets(bk, cmd, opts):
    """[(number, name, nrows, ncols, [(r, c, type, repr of value, xf)])]"""
    fmt = opts["f"]
    one = opts.get("s")
    idx = range(bk.nsheets)
    if one:
        idx = [int(one)] if one.isdigit() else [bk.sheet_names().index(one)]
    out = []
    for i in idx:
        sh = bk.sheet_by_index(i)
        cells = []
        if cmd in ("show", "2rows", "3rows"):
            for r in rows_of(cmd, sh.nrows):
                for c in range(sh.row_len(r)):
                    t, v = shown(bk, sh, r, c, fmt)
                    cells.append((r, c, t, repr(v), str(sh.cell_xf_index(r, c)) if fmt else None))
        out.append((i, sh.name, sh.nrows, sh.ncols, cells))
    return out


def parse_sheets(text, fmt):
    out = []
    for l in text.split("\n"):
        m = SHEET.match(l)
        if m:
            try:
                name = ast.literal_eval(m.group(2))
            except Exception:
                name = m.group(2)
            out.append((int(m.group(1)), name, int(m.group(3)), int(m.group(4)), []))
            continue
        m = CELL.match(l)
        if m:
            data, xf = m.group(4), None
            if fmt:
                data, _, xf = data.rpartition(", xfx: ")
            if not out:
                return "cell line before any sheet line: %r" % l
            out[-1][4].append((int(m.group(2)) - 1, colnum(m.group(1)), int(m.group(3)), data, xf))
    return out


def check_header(text, bk, opts):
    want = {
        "BIFF version": "BIFF version: %s; datemode: %s" % (xlrd.biff_text_from_num[bk.biff_version], bk.datemode),
        "codepage": "codepage: %r (encoding: %s); countries: %r" % (bk.codepage, bk.encoding, bk.countries),
        "Last saved by": "Last saved by: %r" % bk.user_name,
        "Number of data sheets": "Number of data sheets: %d" % bk.nsheets,
        "Ragged rows": "Ragged rows: %d" % opts["r"],
    }
    if bk.formatting_info:
        want["FORMATs"] = "FORMATs: %d, FONTs: %d, XFs: %d" % (len(bk.format_list), len(bk.font_list), len(bk.xf_list))
    lines = text.split("\n")
    for k, w in want.items():
        if not any(w in l for l in lines):
            got = [l for l in lines if k in l]
            return "no line %r (got %r)" % (w, got[:2])
    m = re.search(r"Use mmap: (\d+); Formatting: (\d+); On demand: (\d+)", text)
    if not m or int(m.group(2)) != int(bool(bk.formatting_info)) or int(m.group(3)) != int(bool(bk.on_demand)):
        return "the line of load options is %r" % (m and m.group(0))
    if opts.get("m") in (0, 1) and int(m.group(1)) != opts["m"]:
        return "mmap option %d, reported %s" % (opts["m"], m.group(1))
    return None


def printed(attr, value, text):
    return re.search(r"^\s*%s: (%s|%s)$" % (attr, re.escape(repr(value)), re.escape(ascii(value))), text, re.M)


def check_one(cmd, opts, data, out, err, log):
    """The output of one command for one readable file against the API."""
    fmt = opts["f"] or cmd == "xfc"
    opts = dict(opts, f=fmt)
    bk = open_bytes(data, formatting_info=bool(fmt), ragged_rows=bool(opts["r"]), on_demand=bool(opts["d"]), encoding_override=opts.get("e") or None)
    if cmd != "labels":
        bad = check_header(out, bk, opts)
        if bad:
            return "header: " + bad
    if cmd in ("show", "2rows", "3rows", "bench", "ov", "xfc"):
        want = expected_sheets(bk, cmd, opts if cmd != "xfc" else dict(opts, s=None))
        got = parse_sheets(out, fmt)
        if isinstance(got, str):
            return got
        if [w[:4] for w in want] != [g[:4] for g in got]:
            return "sheet lines %.300r, API: %.300r" % ([g[:4] for g in got], [w[:4] for w in want])
        for w, g in zip(want, got):
            if w[4] != g[4]:
                for a, b in itertools.zip_longest(g[4], w[4]):
                    if a != b:
                        return "sheet %d: prints %.200r where the API has %.200r" % (w[0], a, b)
    if cmd == "xfc":
        ts = re.findall(r"^type stats (\[.*\])$", out, re.M)
        xs = re.findall(r"^XF stats (\[.*\])$", out, re.M)
        if len(ts) != bk.nsheets or len(xs) != bk.nsheets:
            return "statistics for %d sheets of %d" % (len(ts), bk.nsheets)
        for i, (t, x) in enumerate(zip(ts, xs)):
            sh = bk.sheet_by_index(i)
            c = Counter(sh.cell_type(r, k) for r in range(sh.nrows) for k in range(sh.row_len(r)))
            t = ast.literal_eval(t)
            if [c.get(k, 0) for k in range(7)] != (t + [0] * 7)[:7]:
                return "sheet %d: type counts %r, the API has %r" % (i, t, dict(c))
            if len(ast.literal_eval(x)) != 4:
                return "XF statistics %r" % x
    if cmd == "fonts":
        both = out + err
        if both.count("== Index ") != len(bk.font_list):
            return "%d fonts printed, the API has %d" % (both.count("== Index "), len(bk.font_list))
        parts = re.split(r"== Index (\d+) ==", both)[1:]
        for k, f in enumerate(bk.font_list):
            if int(parts[2 * k]) != k:
                return "font %s printed in place %d" % (parts[2 * k], k)
            for a in ("name", "height", "weight", "colour_index", "bold", "italic", "underline_type", "escapement", "character_set", "family", "font_index"):
                if a in vars(f) and not printed(a, getattr(f, a), parts[2 * k + 1]):
                    return "font %d: %s is %r, not printed so" % (k, a, getattr(f, a))
    if cmd in ("names", "name_dump"):
        if bk.biff_version < 50:
            return None if "not extracted" in out else "no notice that names are not extracted"
        if "Name list: %d entries" % len(bk.name_obj_list) not in out:
            return "wrong number of names"
        if cmd == "names":
            for o in bk.name_obj_list:
                w = "[%d]\tName:%r macro:%r scope:%d\n\tresult:%r\n" % (o.name_index, o.name, o.macro, o.scope, o.result)
                if not re.search(r"\[%d\]\s+Name:%s macro:%r scope:%d\s+result:" % (o.name_index, re.escape(repr(o.name)), o.macro, o.scope), out):
                    return "name %d (%r) is not printed" % (o.name_index, o.name)
                if o.result is not None and repr(o.result.text) not in out:
                    return "name %d (%r): result text %r is not printed" % (o.name_index, o.name, o.result.text)
        else:
            parts = re.split(r"=== Dump of name_obj_list\[(\d+)\] ===", out)[1:]
            if [int(x) for x in parts[::2]] != list(range(len(bk.name_obj_list))):
                return "names dumped: %r" % (parts[::2],)
            for o, p in zip(bk.name_obj_list, parts[1::2]):
                for a in ("name", "scope", "hidden", "macro", "builtin", "raw_formula", "name_index"):
                    if not printed(a, getattr(o, a), p):
                        return "name %d: %s is %r, not dumped so" % (o.name_index, a, getattr(o, a))
    if cmd == "labels":
        want = []
        for i in range(bk.nsheets):
            sh = bk.sheet_by_index(i)
            for title, labs in (("Col", sh.col_label_ranges), ("Row", sh.row_label_ranges)):
                for rlo, rhi, clo, chi in labs:
                    for r in range(rlo, rhi):
                        for c in range(clo, chi):
                            if r < sh.nrows and c < sh.row_len(r):
                                want.append("%s: %r" % (xlrd.cellname(r, c), sh.cell_value(r, c)))
        got = [l.strip() for l in out.split("\n") if re.match(r"^\s+[A-Z]+\d+: ", l)]
        if [g for g in got if g in want] != want:
            return "label cells %.300r, the API has %.300r" % (got, want)
        heads = re.findall(r"^(Col|Row) label range", out, re.M)
        n = sum(len(bk.sheet_by_index(i).col_label_ranges) + len(bk.sheet_by_index(i).row_label_ranges) for i in range(bk.nsheets))
        if len(heads) != n:
            return "%d label ranges printed, the API has %d" % (len(heads), n)
    return None


def check_dump(cmd, opts, path, out):
    b = io.StringIO()
    if cmd == "biff_dump":
        xlrd.dump(path, b, bool(opts.get("u")))
    else:
        xlrd.count_records(path, b)
    return None if b.getvalue() == out else "output differs from the API's"


def argv(opts):
    a = []
    for k, v in opts.items():
        if k in ("d", "r", "t", "u"):
            if v:
                a.append("-" + k)
        elif v not in (None, ""):
            a += ["-" + k, str(v)]
    return a


class Dir(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c30")
        return self

    def write(self, name, data):
        p = os.path.join(self.path, name)
        with open(p, "wb") as f:
            f.write(data)
        return name

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def run_case(cmd, opts, data):
    with Dir() as d:
        f = d.write("the_file.xls", data)
        a = argv(opts) + [cmd, f]
        code, out, err = tool(a, d.path)
        log = ""
        if opts.get("l") and not cmd.startswith("biff_"):
            with open(os.path.join(d.path, opts["l"])) as h:
                log = h.read()
        if code != 0:
            return "runxlrd %s: exit %s %s" % (" ".join(a), code, err[-200:])
        if cmd in ("biff_dump", "biff_count"):
            bad = check_dump(cmd, opts, os.path.join(d.path, f), out)
        else:
            m = re.search(r"\*\*\* \w+ failed: .*", out) or re.search("Traceback .*", out)
            if m:
                return "runxlrd %s: %s" % (" ".join(a), m.group(0))
            if "=== File: the_file.xls ===" not in out:
                return "runxlrd %s: no heading for the file" % " ".join(a)
            if opts["t"] and re.search(r"[tT]ook|Load time", out):
                return "runxlrd %s: timings printed" % " ".join(a)
            bad = check_one(cmd, opts, data, out, err, log)
        return bad and "runxlrd %s: %s" % (" ".join(a), bad)


def rich_docs():
    for ver in VERS:
        yield "BIFF%d" % ver, corpus.rich(ver)
    yield "BIFF80 OLE", ole.simple(corpus.rich(80))
    yield "BIFF50 OLE", ole.simple(corpus.rich(50), name="Book")


def edge_docs():
    xf = B.font(80, "A") * 5 + B.fmt(80, 164, "yyyy") + B.xf(80, 0) + B.xf(80, 164)
    one = lambda body, **k: B.workbook(80, [B.Sh("A", body), B.Sh("B")], pre=xf, **k)
    yield "no cells", one(b"")
    yield "one cell", one(B.number(80, 0, 0, 1.5, 0))
    yield "two rows", one(B.number(80, 0, 0, 1.5, 0) + B.number(80, 1, 3, 1.5, 0))
    yield "three rows", one(b"".join(B.number(80, r, r, r + .5, 0) for r in range(3)))
    yield "four rows, gaps", one(b"".join(B.number(80, r, 5 - r, r + .5, 0) for r in (1, 3)) + B.blank(80, 6, 6, 1))
    yield "last row and column", one(B.number(80, 65535, 255, 1.0, 0))
    yield "65535 rows", one(B.number(80, 65533, 0, 1.0, 0) + B.number(80, 65534, 0, 2.0, 0))
    yield "65536 rows", one(b"".join(B.number(80, r, 0, r, 0) for r in (0, 65532, 65533, 65534, 65535)))
    yield "BIFF5 16384 rows", B.workbook(50, [B.Sh("A", b"".join(B.number(50, r, 0, r, 0) for r in (16380, 16381, 16382, 16383)))], pre=B.xf(50))
    dates = [0.0, 1.0, 59.0, 60.0, 61.0, 60.5, 0.5, 2958465.0, 2958466.0, -1.0, 1e300, 1e18, 40000.999999, 0.999999999]
    for dm in (0, 1):
        yield "dates, mode %d" % dm, B.workbook(80, [B.Sh("D", b"".join(B.number(80, i, 0, v, 1) for i, v in enumerate(dates)))], pre=B.datemode(dm) + xf)
    yield "dates not a number", one(B.number(80, 0, 0, float("nan"), 1) + B.number(80, 1, 0, float("inf"), 1) + B.number(80, 2, 0, float("-inf"), 1) + B.number(80, 3, 0, float("nan"), 0))
    yield "errors and booleans", one(b"".join(B.boolerr(80, 0, i, c, 1, 0) for i, c in enumerate((0, 7, 15, 23, 29, 36, 42, 43, 1, 255))) + B.boolerr(80, 1, 0, 1, 0, 0) + B.boolerr(80, 1, 1, 0, 0, 0))
    texts = ["", "it's \"q\"", "line\nbreak, xfx: 7", "\u0416\u4e2d", "tab\t\\", "\x85\u2028\x1c"]
    yield "texts", one(b"".join(B.labelsst(i, 0, i, 0) for i in range(len(texts))), post=B.sst(texts))
    yield "surrogates", one(B.labelsst(0, 0, 0, 0) + B.labelsst(0, 1, 1, 0), post=B.sst(["x", pack("<HB", 2, 1) + b"\x3d\xd8\0\xde"]))
    yield "labels", one(B.number(80, 0, 0, 1.5, 0) + B.number(80, 1, 1, 2.5, 0) + B.labelranges([(0, 1, 0, 1)], [(0, 0, 0, 1), (1, 1, 1, 1)]))
    yield "labels outside the cells", one(B.number(80, 0, 0, 1.5, 0) + B.labelranges([(0, 3, 0, 0), (9, 9, 9, 9)], [(0, 0, 0, 5)]))
    yield "labels without cells", one(B.labelranges([(0, 0, 0, 1)], []))
    yield "labels on short rows", one(B.number(80, 0, 0, 1.5, 0) + B.number(80, 1, 3, 2.5, 0) + B.labelranges([(0, 1, 0, 3)], [(0, 1, 3, 3)]))
    yield "strange sheet names", B.workbook(80, [B.Sh(n, B.number(80, 0, 0, i + .5, 0)) for i, n in enumerate(("2007", "a; nrows = 3", "\u0416 ' x", "q\"q", " a ", "a"))], pre=xf)
    yield "no sheets", B.workbook(80, [B.Sh("C", typ=2)], pre=xf)
    yield "no formats", B.workbook(80, [B.Sh("A", B.number(80, 0, 0, 1.5, 0))], pre=b"")
    yield "unicode everywhere", B.workbook(80, [B.Sh("\u0416", B.number(80, 0, 0, 1.5, 0))], pre=B.writeaccess(80, "\u0416\u4e2d") + B.font(80, "\u0416") * 5 + B.fmt(80, 164, "\u0416") + B.xf(80, 164) + B.style_user(80, 0, "\u0416"),
                                               post=B.supbook_internal(1) + B.externsheet8([(0, 0, 0)]) + B.name_rec(80, "\u0416", b"\x3a" + pack("<HHH", 0, 0, 0)))
    for cp in (1251, 10000, 437, 932):
        yield "BIFF5 code page %d" % cp, B.workbook(50, [B.Sh("A", B.rec(0x204, pack("<HHHH", 0, 0, 0, 2) + b"\x83\x41"))], pre=B.codepage(cp) + B.xf(50))
    yield "country and user", B.workbook(80, [B.Sh("A")], pre=B.writeaccess(80, "") + xf, post=B.country(61, 7))


def name_docs():
    import checks.c19 as c19
    for ver in (50, 70, 80):
        it = itertools.chain(c19.all_leaves(), itertools.islice(c19.one_op(), 0, None, 41), itertools.islice(c19.functions(), 0, None, 5))
        yield "BIFF%d name formulas" % ver, c19.book(ver, [c19.R.encode(n, ver) for n in it])
        yield "BIFF%d broken name formulas" % ver, c19.book(ver, [bytes([op]) + bytes(k) for op in range(256) for k in (0, 4)])


def sample_docs():
    for n in sorted(os.listdir(SAMPLES)):
        if n.endswith(".xls") and n != "corrupted_error.xls":
            with open(os.path.join(SAMPLES, n), "rb") as f:
                yield n, f.read()


BASE = dict(f=0, d=0, r=0, t=1)


class Options(Space):
    """Every command with every combination of options."""
    batch = 1

    def __init__(self, name, docs, combos, bound, cmds=CMDS, case_limit=300):
        self.name, self.docs, self.combos, self.cmds, self.case_limit = name, docs, combos, cmds, case_limit
        self.bound = "commands %s; %s" % (" ".join(cmds), bound)

    def gen(self):
        for name, data in self.docs():
            self.data = data
            for cmd in self.cmds:
                yield name, cmd

    def judge(self, case):
        name, cmd = case
        n = 0
        seen = set()
        for o in self.combos():
            opts = dict(BASE, **o)
            if name == "last row and column" and not opts["r"]:      # 16 million cells
                continue
            if cmd.startswith("biff_"):      # only -u and the logfile mean anything to these
                key = o.get("u"), o.get("l"), o.get("f")
                if key in seen:
                    continue
                seen.add(key)
            n += 1
            bad = run_case(cmd, opts, self.data)
            if bad:
                return Result("%s: %s" % (name, bad), evals=n)
        return Result(None, outcome=case, evals=n)


def product(**k):
    keys = sorted(k)
    for vs in itertools.product(*(k[x] for x in keys)):
        yield dict(zip(keys, vs))


def all_options():
    return product(f=(0, 1), d=(0, 1), r=(0, 1), v=(0, 1, 2, 3, 4), m=(-1, 0, 1), g=(0, 1, 2), l=("", "log.txt"), t=(0, 1))


def some_options():
    for o in product(f=(0, 1), d=(0, 1), r=(0, 1)):
        yield o
    for o in product(f=(1,), v=(1, 2, 3, 4), l=("", "log.txt")):
        yield o
    for o in product(m=(-1, 0, 1, 7), g=(0, 1, 2), t=(0, 1)):
        yield o
    for o in product(u=(0, 1), e=("", "cp1252", "cp1251")):
        yield o


def few_options():
    for o in product(f=(0, 1), d=(0, 1), r=(0, 1)):
        yield o
    yield dict(v=4, f=1, l="log.txt")


class OneSheet(Space):
    """-s by name and by index."""
    name = "one sheet"
    bound = "every sheet of every workbook by index and by name, for show, 2rows, 3rows, ov, bench; on demand or not, ragged or not, formatting 0/1"
    case_limit = 120
    batch = 1

    def gen(self):
        for name, data in itertools.chain(rich_docs(), edge_docs()):
            self.data = data
            yield name

    def judge(self, case):
        n = 0
        names = open_bytes(self.data, on_demand=True).sheet_names()
        for i, nm in enumerate(names):
            for s in [str(i)] + ([nm] if not nm.isdigit() else []):
                for cmd in ("show", "2rows", "3rows", "ov", "bench"):
                    for o in product(f=(0, 1), d=(0, 1), r=(0, 1)):
                        if case == "last row and column" and not o["r"] or case.startswith("655") and (cmd in ("3rows", "bench") or o["f"]):
                            continue
                        n += 1
                        bad = run_case(cmd, dict(BASE, s=s, **o), self.data)
                        if bad:
                            return Result("%s: %s" % (case, bad), evals=n)
        return Result(None, outcome=case, nontrivial=n > 0, evals=n)


def unreadable():
    r = corpus.rich(80)
    import zipfile
    z = io.BytesIO()
    with zipfile.ZipFile(z, "w") as f:
        f.writestr("xl/workbook.xml", b"x")
    return {
        "text": b"not a workbook, just some text",
        "empty": b"",
        "xlsx": z.getvalue(),
        "cut": r[:len(r) - 60],
        "cut OLE": ole.simple(r)[:2000],
        "cut in the globals": r[:300],
        "encrypted": B.workbook(80, [B.Sh("A")], pre=B.rec(0x2F, bytes(54))),
        "bad sheet": B.workbook(80, [B.Sh("A", B.number(80, 0, 0, 1.5, 0)), B.Sh("B", B.rec(0x203, b"\1")), B.Sh("C")], pre=B.xf(80)),
        "not there": None,
        "directory": None,
    }


class Several(Space):
    """Every file is processed, whatever came before it."""
    case_limit = 300
    batch = 1

    def __init__(self, n):
        self.n = n
        self.name = "several files"
        self.bound = "all sequences of up to %d of 2 readable and 10 unreadable files, given one by one and as patterns, every command, on demand or not" % n

    def gen(self):
        kinds = ["good", "good old"] + sorted(unreadable())
        for k in range(1, self.n + 1):
            for seq in itertools.product(kinds, repeat=k):
                if any(s.startswith("good") for s in seq):
                    yield seq

    def judge(self, case):
        bad_files = unreadable()
        good = {"good": corpus.small(80, 2), "good old": corpus.small(30)}
        n = 0
        with Dir() as d:
            files = []
            for i, s in enumerate(case):
                f = "f%d.xls" % i
                if s == "directory":
                    os.mkdir(os.path.join(d.path, f))
                elif s != "not there":
                    d.write(f, good[s] if s in good else bad_files[s])
                files.append(f)
            for cmd in [c for c in CMDS if not c.startswith("biff")]:
                for dem in (0, 1):
                    for args in (files, ["f*.xls"]):
                        n += 1
                        opts = dict(BASE, d=dem)
                        a = argv(opts) + [cmd] + args
                        code, out, err = tool(a, d.path)
                        what = "runxlrd %s on %s" % (" ".join(a), "/".join(case))
                        if code != 0:
                            return Result("%s: exit %s %s" % (what, code, err[-200:]), evals=n)
                        parts = re.split(r"\n=== File: (.*) ===\n", out)[1:]
                        got = parts[::2]
                        want = [f for f, s in zip(files, case) if s != "not there"]
                        if (got if args is files else sorted(got)) != want:
                            return Result("%s: processed %r, given %r" % (what, got, want), evals=n)
                        for f, text in zip(got, parts[1::2]):
                            s = case[files.index(f)]
                            if s in good:
                                bad = check_one(cmd, opts, good[s], text, err if cmd == "fonts" and case.count("good") + case.count("good old") == 1 else "", "") if cmd != "fonts" else check_header(text, open_bytes(good[s], on_demand=bool(dem)), opts)
                                if bad:
                                    return Result("%s: %s: %s" % (what, f, bad), evals=n)
                            elif not (dem and s in ("bad sheet", "cut")) and "***" not in text:
                                return Result("%s: nothing said about %s" % (what, f), evals=n)
        return Result(None, outcome=case, evals=n)


class LogFile(Space):
    """The file named with -l gets what the library says about each file, under the file's heading."""
    case_limit = 300
    batch = 1

    def __init__(self, n):
        self.n = n
        self.name = "log file"
        self.bound = "all sequences of up to %d of 5 readable and 4 unreadable files, verbosity 0..3, formatting 0/1, on demand or not, hdr and show: the log file against what open_workbook and the loading of the sheets write" % n

    def docs(self):
        bad = unreadable()
        r = corpus.rich(80)
        return {"quiet": corpus.small(80, 2), "old": corpus.small(30), "rich": r, "rich 5": corpus.rich(50), "damaged container": ole.simple(r)[:-1],
                "text": bad["text"], "cut": bad["cut"], "cut OLE": bad["cut OLE"], "bad sheet": bad["bad sheet"]}

    def gen(self):
        for k in range(1, self.n + 1):
            for seq in itertools.product(sorted(self.docs()), repeat=k):
                yield seq

    def judge(self, case):
        docs = self.docs()
        n = said = 0
        with Dir() as d:
            files = ["f%d.xls" % i for i in range(len(case))]
            for f, s in zip(files, case):
                d.write(f, docs[s])
            for cmd in ("hdr", "show"):
                for o in product(v=(0, 1, 2, 3), f=(0, 1), d=(0, 1)):
                    opts = dict(BASE, l="log.txt", **o)
                    n += 1
                    want = ""
                    for f in files:
                        b = io.StringIO()
                        try:
                            with contextlib.redirect_stdout(io.StringIO()):
                                bk = xlrd.open_workbook(os.path.join(d.path, f), verbosity=o["v"], logfile=b, formatting_info=o["f"], on_demand=bool(o["d"]))
                                if o["d"] and cmd == "show":
                                    for i in range(bk.nsheets):
                                        bk.sheet_by_index(i)
                                        bk.unload_sheet(i)
                        except mc.Hang:
                            raise
                        except Exception:
                            pass
                        if b.getvalue():
                            want += "\n=== File: %s ===\n" % f + b.getvalue()
                    a = argv(opts) + [cmd] + files
                    code, out, err = tool(a, d.path)
                    what = "runxlrd %s on %s" % (" ".join(a), "/".join(case))
                    if code != 0:
                        return Result("%s: exit %s %s" % (what, code, err[-200:]), evals=n)
                    gc.collect()
                    with open(os.path.join(d.path, "log.txt")) as f:
                        got = f.read()
                    os.remove(os.path.join(d.path, "log.txt"))
                    got, want = (re.sub(r" at 0x[0-9a-f]+>", " at 0x>", t.replace(d.path + os.sep, "")) for t in (got, want))
                    said += bool(want)
                    if got != want:
                        i = next((k for k, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                        return Result("%s: the log file has %r where the library wrote %r (at %d)" % (what, got[i:i+80], want[i:i+80], i), evals=n)
        return Result(None, outcome=case, nontrivial=said > 0, evals=n)


class Program(Space):
    """As a program of its own: profile, version, help, wrong usage."""
    name = "as a program"
    bound = "every command, plain and profiled, version, usage errors, as a separate process"
    case_limit = 120
    batch = 1

    def gen(self):
        for cmd in CMDS:
            for prof in (0, 1):
                yield cmd, prof
        for a in ("version", "-v 1 version", "", "show", "nonsense", "nonsense f.xls", "--help", "show --nope f.xls", "VERSION f.xls"):
            yield a, None

    def judge(self, case):
        cmd, prof = case
        with Dir() as d:
            data = corpus.small(80, 2)
            d.write("f.xls", data)
            if prof is None:
                args = cmd.split()
            else:
                args = (["profile"] if prof else []) + ["-t", cmd, "f.xls"]
            p = program(args, d.path)
            out, err = p.stdout.decode("utf-8"), p.stderr.decode("utf-8")
            if prof is None:
                ok = cmd.endswith("version") or cmd == "--help"
                if ok and p.returncode or not ok and not p.returncode:
                    return Result("runxlrd %s: exit %d: %s" % (cmd, p.returncode, err[-300:]))
                if "Traceback" in err:
                    return Result("runxlrd %s: %s" % (cmd, err[-300:]))
                if cmd.endswith("version") and (xlrd.__VERSION__ not in out or sys.version.split()[0] not in out):
                    return Result("runxlrd version prints %r" % out)
                return Result(None, outcome=case, nontrivial=False)
            if p.returncode:
                return Result("runxlrd %s: exit %d: %s" % (" ".join(args), p.returncode, err[-300:]))
            if cmd.startswith("biff"):
                b = io.StringIO()
                (xlrd.dump if cmd == "biff_dump" else xlrd.count_records)(os.path.join(d.path, "f.xls"), b)
                bad = None if b.getvalue() in out else "output differs from the API's"
            else:
                bad = check_one(cmd, dict(BASE), data, out, err, "")
            return Result(bad and "runxlrd %s: %s" % (" ".join(args), bad), outcome=case)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Options("every option", rich_docs, all_options if deep else some_options, "every combination of -f -d -r -v -m -g -l -t" if deep else "-f x -d x -r, -v x -l, -m x -g x -t, -u x -e"),
        Options("edge workbooks", edge_docs, few_options, "-f x -d x -r, -v 4", cmds=CMDS if deep else CMDS),
        Options("names", name_docs, few_options, "-f x -d x -r, -v 4", cmds=("names", "name_dump")),
        Options("sample files", sample_docs, few_options, "-f x -d x -r, -v 4"),
        OneSheet(),
        Several(3 if deep else 2),
        LogFile(3 if deep else 2),
        Program(),
    ]
