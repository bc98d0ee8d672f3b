"""C02: load options and data sources never change the extracted data."""
import hashlib
import importlib
import io
import itertools
import mmap
import os
import shutil
import tempfile
from struct import pack
import biff as B
import corpus
import mc
import ole
import recs
import snap
from mc import Space, Result
from xl import *

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the option/source cross product over workbooks of every version, differential against one reference load, extended to every workbook the other checks build"
NOTE = ("Full cross product of data source (path with and without mmap, bytes, bytearray, mmap object, minimal sliceable object, string-like path) x OLE container (bare, short stream, contiguous, fragmented) x on_demand x ragged_rows x "
        "formatting_info x verbosity 0..4 x logfile over workbooks with every record kind in all nine versions and the sample files; the extreme option combinations over the workbooks of all other checks' spaces.")
RULE = "A case is one workbook with one block of option combinations; evaluations = loads compared in full. Non-trivial: the reference load gives at least one sheet (or raises, for damaged workbooks, which every other load must do too)."
ASSUMPTIONS = ["the reference is the load from bytes with default options", "blank cells and formatting attributes are compared only between loads with equal formatting_info"]
VERS = (20, 21, 30, 40, 45, 50, 70, 80)
SAMPLES = os.path.join(mc.REPO, "tests", "samples")


class Slices(object):
    """The least a 'behave-alike object' can offer."""

    def __init__(self, data):
        self._d = data

    def __getitem__(self, i):
        return self._d[i]

    def __len__(self):
        return len(self._d)


class WriteOnly(object):
    def __init__(self):
        self.n = 0

    def write(self, s):
        self.n += len(s)


EMPTY = (XL_CELL_EMPTY, XL_CELL_BLANK)


def snapshot(bk):
    """snap.full with the cells as {(row, column): (type, value, xf)} of what is not empty."""
    d = snap.book(bk)
    sheets = []
    for i in range(bk.nsheets):
        sh = bk.sheet_by_index(i)
        s = {a: snap.plain(getattr(sh, a, None)) for a in snap.SHEET_ATTRS}
        fmt = sh.formatting_info
        s["cells"] = {(r, c): (t, repr(v), sh.cell_xf_index(r, c) if fmt else None)
                      for r in range(sh.nrows) for c, (t, v) in enumerate(zip(sh.row_types(r), sh.row_values(r))) if t != XL_CELL_EMPTY}
        if not bk.ragged_rows and any(sh.row_len(r) != sh.ncols for r in range(sh.nrows)):
            s["cells"] = "row of another length than ncols"
        sheets.append(s)
    d["sheets"] = sheets
    return d


def unformatted(s, strict=True):
    """What a load without formatting_info has to say too."""
    d = {k: v for k, v in s.items() if k not in snap.FMT_ONLY_BOOK}
    d["sheets"] = [{k: ({a: x[:2] for a, x in v.items() if x[0] not in EMPTY} if k == "cells" and isinstance(v, dict) else v)
                    for k, v in sh.items() if k not in snap.FMT_ONLY_SHEET and k not in ("nrows", "ncols")} for sh in s["sheets"]]
    return d


def outcome(src, **kw):
    """("ok", snapshot) or ("raise", exception class name)"""
    try:
        bk = xlrd.open_workbook(**dict(src, **kw))
        return "ok", snapshot(bk)
    except (mc.Hang, MemoryError):
        raise
    except Exception as e:
        return "raise", type(e).__name__, str(e)


def differs(want, got, fmt_changes=False, overlap=False):
    if want[0] != got[0]:
        return "%s, reference: %s" % tuple("raises %s (%s)" % g[1:] if g[0] == "raise" else "opens" for g in (got, want))
    if want[0] == "raise":
        return None if want[1] == got[1] else "raises %s (%s), reference: %s (%s)" % (got[1:] + want[1:])
    a, b = want[1], got[1]
    if fmt_changes:
        a, b = unformatted(a), unformatted(b)
        if overlap:      # two records for one cell: a later BLANK counts only with formatting_info
            for x, y, fx, fy in zip(a["sheets"], b["sheets"], want[1]["sheets"], got[1]["sheets"]):
                for k in set(x["cells"]) ^ set(y["cells"]):
                    if fx["cells"].get(k, fy["cells"].get(k, (9,)))[0] in EMPTY or fy["cells"].get(k, fx["cells"].get(k, (9,)))[0] in EMPTY:
                        x["cells"].pop(k, None)
                        y["cells"].pop(k, None)
    if a == b:
        return None
    return snap.diff(deep(a), deep(b)) or "differs"


def deep(x):
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return tuple(deep(v) for v in x)
    return x


class Files(object):
    """The bytes as any kind of source."""
    _dir = None

    def __init__(self, data):
        self.data, self._path, self._open = data, None, []

    @property
    def path(self):
        if self._path is None:
            if Files._dir is None or Files._dir[0] != os.getpid():
                Files._dir = os.getpid(), tempfile.mkdtemp(prefix="c02")
            fd, self._path = tempfile.mkstemp(suffix=".xls", dir=Files._dir[1])
            with os.fdopen(fd, "wb") as f:
                f.write(self.data)
        return self._path

    def source(self, kind):
        if kind == "bytes":
            return dict(file_contents=self.data)
        if kind == "bytes and a name":
            return dict(file_contents=self.data, filename="/nonexistent/x.xls")
        if kind == "path":
            return dict(filename=self.path)
        if kind == "path, no mmap":
            return dict(filename=self.path, use_mmap=False)
        if kind == "path object":
            import pathlib
            return dict(filename=pathlib.Path(self.path))
        if kind == "bytearray":
            return dict(file_contents=bytearray(self.data))
        if kind == "sliceable":
            return dict(file_contents=Slices(self.data))
        if kind == "mmap":
            f = open(self.path, "rb")
            m = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            self._open += [m, f]
            return dict(file_contents=m)
        raise ValueError(kind)

    def close(self):
        for o in self._open:
            try:
                o.close()
            except Exception:
                pass
        self._open = []
        if self._path:
            os.unlink(self._path)
            self._path = None

    @classmethod
    def cleanup(cls):
        if cls._dir and cls._dir[0] == os.getpid():
            shutil.rmtree(cls._dir[1], ignore_errors=True)
            cls._dir = None


KINDS = ("bytes", "path", "path, no mmap", "mmap", "sliceable", "bytearray", "bytes and a name", "path object")


def containers(ver, data):
    yield "bare", data
    if ver >= 50:
        nm = "Workbook" if ver >= 80 else "Book"
        yield "OLE", ole.simple(data, name=nm)
        yield "OLE fragmented", ole.simple(data, name=nm, slot_order=lambda n: list(range(n))[::-1])
        # a stream that cannot be a short stream, in one piece
        big = recs.Stream(ver, data).insert({2: B.rec(0x4D, bytes(4200))})
        yield "padded, bare", big
        yield "padded, OLE contiguous", ole.simple(big, name=nm)
        yield "padded, OLE fragmented", ole.simple(big, name=nm, slot_order=lambda n: list(range(n))[::-1])
    else:
        pass


PARAMS = (("logfile", None), ("verbosity", 0), ("use_mmap", True), ("file_contents", None), ("encoding_override", None), ("formatting_info", False), ("on_demand", False),
          ("ragged_rows", False), ("ignore_workbook_corruption", False))


class Omitted(Space):
    """An option left out means its documented default; options go by position or by keyword."""
    name = "options left out"
    bound = "every subset of verbosity, encoding_override, formatting_info, on_demand, ragged_rows, ignore_workbook_corruption left out, the others given as documented defaults or the opposite; all prefixes by position"
    case_limit = 120
    batch = 1
    VARY = ("verbosity", "encoding_override", "formatting_info", "on_demand", "ragged_rows", "ignore_workbook_corruption")

    def docs(self):
        for ver in VERS:
            yield "BIFF%d" % ver, corpus.rich(ver)
            if ver >= 30:
                f, fm = B.font(ver, "F"), B.fmt(ver, 0, "General")
                body = B.number(ver, 0, 0, 1.5, 0) + B.blank(ver, 0, 3, 0) + B.number(ver, 1, 2, 2.5, 0) + B.blank(ver, 4, 1, 0)
                if ver >= 50:
                    yield "BIFF%d with margins" % ver, B.workbook(ver, [B.Sh("A", body), B.Sh("B", body)], pre=f + B.xf(ver, 0))
                elif ver != 45:
                    yield "BIFF%d with margins" % ver, B.single(ver, body, f + fm + B.xf(ver, 0))
        yield "OLE", ole.simple(corpus.rich(80))
        yield "sample, corrupted", sample("corrupted_error.xls")

    def gen(self):
        for name, data in self.docs():
            self.current = data
            for opts in itertools.product((0, 1), repeat=4):
                yield name, opts

    @staticmethod
    def state(path, args, kw):
        """What the caller can tell about the way the book was loaded, then the content."""
        try:
            bk = xlrd.open_workbook(path, *args, **kw)
        except (mc.Hang, MemoryError):
            raise
        except Exception as e:
            return "raise", type(e).__name__, str(e)
        with bk:
            s = [bool(bk.on_demand), bool(bk.ragged_rows), bool(bk.formatting_info), [bool(bk.sheet_loaded(i)) for i in range(bk.nsheets)]]
            for i in range(bk.nsheets):
                sh = bk.sheet_by_index(i)
                s.append((sh.nrows, sh.ncols, [sh.row_len(r) for r in range(sh.nrows)]))
                for a in (lambda: sh.cell_xf_index(0, 0), lambda: sh.cell(0, 0).xf_index is None):
                    try:
                        s.append(a())
                    except (XLRDError, IndexError) as e:
                        s.append(type(e).__name__)
            return "ok", s, snap.full(bk)

    def judge(self, case):
        name, (fmt, od, ragged, iwc) = case
        over = dict(formatting_info=bool(fmt), on_demand=bool(od), ragged_rows=bool(ragged), ignore_workbook_corruption=bool(iwc))
        full = dict(PARAMS, logfile=NULL, **over)
        f = Files(self.current)
        n = 0
        try:
            want = self.state(f.path, (), full)
            if want[0] == "ok":
                got = want[1][:4]
                early = name.startswith("BIFF") and int(name[4:6]) < 50      # documented: nothing is put off in such files
                if got[:3] != [bool(od and not early), bool(ragged), bool(fmt)]:
                    return Result("%s: on_demand, ragged_rows, formatting_info are %r, asked %r" % (name, got[:3], [bool(od), bool(ragged), bool(fmt)]), evals=n)
                if (early or not od) and not all(got[3]):
                    return Result("%s: sheets not loaded by an open without on_demand: %r" % (name, got[3]), evals=n)
                if od and not early and any(got[3]):
                    return Result("%s: sheets loaded by an open on demand: %r" % (name, got[3]), evals=n)
                if not ragged and any(set(x[2]) - {x[1]} for x in want[1] if isinstance(x, tuple)):
                    return Result("%s: rows of other lengths than ncols without ragged_rows" % name, evals=n)
            # whatever has its default may go unsaid
            free = [k for k in self.VARY if full[k] == dict(PARAMS)[k]]
            for out in itertools.chain.from_iterable(itertools.combinations(free, k) for k in range(1, len(free) + 1)):
                n += 1
                kw = {k: v for k, v in full.items() if k not in out}
                if n % 2:
                    kw.pop("use_mmap")
                    kw.pop("file_contents")
                got = self.state(f.path, (), kw)
                if got != want:
                    return Result("%s with %r, without %s: %s" % (name, over, ", ".join(out), why(want, got)), evals=n)
            # by position
            for k in range(1, len(PARAMS) + 1):
                n += 1
                pos = [full[p] for p, d in PARAMS[:k]]
                got = self.state(f.path, pos, {p: full[p] for p, d in PARAMS[k:]})
                if got != want:
                    return Result("%s with %r, the first %d options by position: %s" % (name, over, k, why(want, got)), evals=n)
        finally:
            f.close()
            Files.cleanup()
        return Result(None, outcome=case, evals=n)


def why(want, got):
    if want[0] != got[0] or want[0] == "raise":
        return "%s, reference: %s" % (got[:1] + got[1:3] if got[0] == "raise" else "opens", want[:3] if want[0] == "raise" else "opens")
    if want[1] != got[1]:
        return "options in effect and row lengths %r, reference: %r" % tuple(str(x)[:200] for x in (got[1], want[1]))
    return snap.diff(want[2], got[2]) or "differs"


LOGS = {"null": lambda: NULL, "StringIO": io.StringIO, "write only": WriteOnly}


def sample(name):
    with open(os.path.join(SAMPLES, name), "rb") as f:
        return f.read()


class Cross(Space):
    """Every option combination."""
    batch = 1

    def __init__(self, name, docs, bound, verbs=(0, 1, 2, 3, 4), kinds=KINDS, case_limit=120):
        Space.__init__(self, name=name, case_limit=case_limit)
        self.docs, self.verbs, self.kinds = docs, verbs, kinds
        self.bound = "%s; sources %s; verbosity %s; formatting_info, on_demand, ragged_rows, ignore_workbook_corruption 0/1; logfiles %s" % (bound, "/".join(kinds), "/".join(map(str, verbs)), "/".join(LOGS))

    def gen(self):
        for name, ver, data in self.docs():
            self.current = data
            for kind in self.kinds:
                for v in self.verbs:
                    yield name, kind, v

    def judge(self, case):
        name, kind, v = case
        f = Files(self.current)
        n = 0
        try:
            base = {fmt: outcome(f.source("bytes"), logfile=NULL, formatting_info=fmt) for fmt in (0, 1)}
            bad = differs(base[0], base[1], True)
            if bad:
                return Result("%s: formatting_info=1 against 0: %s" % (name, bad), evals=n)
            for fmt, od, ragged, iwc in itertools.product((0, 1), repeat=4):
                for log in (sorted(LOGS) if not ragged and not iwc else ["StringIO"]):
                    n += 1
                    got = outcome(f.source(kind), logfile=LOGS[log](), verbosity=v, formatting_info=fmt, on_demand=od, ragged_rows=ragged, ignore_workbook_corruption=iwc)
                    bad = differs(base[fmt], got)
                    if bad:
                        return Result("%s from %s, verbosity %d, formatting_info=%d, on_demand=%d, ragged_rows=%d, ignore_workbook_corruption=%d, logfile %s: %s"
                                      % (name, kind, v, fmt, od, ragged, iwc, log, bad), evals=n)
        finally:
            f.close()
            Files.cleanup()
        return Result(None, outcome=case, evals=n)


class Containers(Space):
    """The container says nothing about the content."""
    name = "containers"
    bound = "bare, short stream, long stream in one piece and fragmented; formatting_info, on_demand 0/1; all sources"
    case_limit = 60
    batch = 1

    def gen(self):
        for ver in (50, 70, 80):
            for n in (1, 2, 3):
                for kind in KINDS:
                    yield ver, n, kind

    def judge(self, case):
        ver, n, kind = case
        k = 0
        for fmt, od in itertools.product((0, 1), repeat=2):
            want = {}
            for name, data in containers(ver, corpus.rich(ver, n)):
                key = name.startswith("padded")
                f = Files(data)
                try:
                    got = outcome(f.source(kind), logfile=NULL, formatting_info=fmt, on_demand=od)
                finally:
                    f.close()
                    Files.cleanup()
                k += 1
                if got[0] != "ok":
                    return Result("BIFF%d %s from %s: %s %s" % (ver, name, kind, got[1], got[2]), evals=k)
                if False in want and key and True not in want:
                    want[True] = want[False]
                bad = differs(want.setdefault(key, got), got)
                if bad:
                    return Result("BIFF%d %s from %s, formatting_info=%d, on_demand=%d: %s" % (ver, name, kind, fmt, od, bad), evals=k)
        return Result(None, outcome=case, evals=k)


def rich_docs():
    for ver in VERS:
        yield "BIFF%d" % ver, ver, corpus.rich(ver)


def ole_docs():
    for ver in (50, 70, 80):
        for name, data in containers(ver, corpus.rich(ver)):
            if name != "bare":
                yield "BIFF%d %s" % (ver, name), ver, data


def sample_docs():
    for n in sorted(os.listdir(SAMPLES)):
        if n != "corrupted_error.xls":       # ignore_workbook_corruption is meant to make a difference there
            yield n, 0, sample(n)


def xfbits(r, ver):
    """The XF record with protection, alignment, border and background other than the default."""
    d = bytearray(r)
    d[8] ^= 3
    d[10] ^= 0x2B
    if ver >= 80:
        d[14:18] = pack("<I", 0x12345555)
        d[22:24] = pack("<H", 0x1234)
    else:
        d[12:14] = pack("<H", 0x1234)
        d[16:20] = pack("<HH", 0x5555, 0x4321)
    return bytes(d)


def odd_docs():
    """Workbooks whose traces are out of the ordinary."""
    f = b"".join(B.font(80, "F%d" % i) for i in range(5))

    def wb(ver, globs, body=b"", **k):
        return B.workbook(ver, [B.Sh("A", B.dimensions(ver, 0, 2, 0, 2) + B.number(ver, 0, 0, 1.5, 0) + body), B.Sh("B")], pre=globs, **k)
    for ver in (50, 80):
        f = b"".join(B.font(ver, "F%d" % i) for i in range(5))
        style, cell = B.xf(ver, 0, 0, 1, 0xFFF), B.xf(ver, 0)
        for fk in (0, 1, 14, 49, 50, 99, 163, 164, 165, 1000, 65535):
            for pk in (0, 14, 164, 999):
                for defs in (0, 1):
                    g = f + (B.fmt(ver, 164, "0.0") if defs else b"") + B.xf(ver, pk, 0, 1, 0xFFF) + B.xf(ver, fk, 1, 0, 0)
                    yield "BIFF%d cell format %d under %d%s" % (ver, fk, pk, ", 164 defined" if defs else ""), ver, wb(ver, g, B.number(ver, 1, 0, 2.5, 1))
        for parent in (0, 1, 2, 3, 4, 0xFFE, 0xFFF):
            for s in (0, 1):
                yield "BIFF%d %s XF with parent %d" % (ver, "style" if s else "cell", parent), ver, wb(ver, f + style + cell + B.xf(ver, 14, 2, s, parent) + B.xf(ver, 2, 1, 0, 0), B.number(ver, 1, 0, 2.5, 2))
        for used, pused in itertools.product((0, 1, 2, 4, 8, 16, 32, 63), repeat=2):
            for fk in (0, 99, 164):
                yield "BIFF%d used attributes %d, parent's %d, format %d" % (ver, used, pused, fk), ver, wb(ver, f + B.fmt(ver, 164, "0.0") + B.xf(ver, 14, 0, 1, 0xFFF, pused) + cell + xfbits(B.xf(ver, fk, 1, 0, 0, used), ver), B.number(ver, 1, 0, 2.5, 2))
        for font in (0, 3, 4, 5, 6, 200, 65535):
            yield "BIFF%d font %d" % (ver, font), ver, wb(ver, f + style + B.xf(ver, 0, font), B.number(ver, 1, 0, 2.5, 1))
        for k, s in ((14, "0.00"), (5, "dd/mm"), (22, "General"), (14, "dd\\/mm"), (164, ""), (165, "\u0416" if ver >= 80 else "\xe9"), (165, '"' * 5)):
            yield "BIFF%d format %d %r" % (ver, k, s), ver, wb(ver, f + B.fmt(ver, k, s) + style + B.xf(ver, k), B.number(ver, 1, 0, 2.5, 1))
        for xfx in (0, 1, 2, 0xFFF):
            for b, lvl in ((0, 0), (1, 3), (2, 255), (9, 255)):
                yield "BIFF%d built-in style %d/%d of XF %d" % (ver, b, lvl, xfx), ver, wb(ver, f + style + cell + B.style_builtin(xfx, b, lvl))
            yield "BIFF%d style of XF %d" % (ver, xfx), ver, wb(ver, f + style + cell + B.style_user(ver, xfx, "own"))
        for n in (0, 1, 8, 16, 55, 56, 57):
            yield "BIFF%d palette of %d" % (ver, n), ver, wb(ver, f + style + cell + B.palette([(i, i, i) for i in range(n)]))
        for cp in (1252, 1200, 1251, 367, 10000, 0x8000, 0x8001, 437, 65001):
            for enc in (None, "cp1252"):
                yield "BIFF%d code page %d" % (ver, cp), ver, wb(ver, B.codepage(cp) + f + style + cell)
        for c in ((1, 1), (61, 7), (0, 65535)):
            yield "BIFF%d countries %r" % (ver, c), ver, wb(ver, f + style + cell, post=B.country(*c))
        yield "BIFF%d writeaccess" % ver, ver, wb(ver, B.writeaccess(ver, "x" * 50) + f + style + cell)
        for body in (B.obj(5), B.obj(8), B.obj(25), B.note_old(1, 1, "n") if ver < 80 else B.obj(25) + B.txo([("t", 0)], [(0, 0)]) + B.note8(1, 1, 1, "a", 0), B.rec(0x5D, bytes(60)), B.rec(0x1B6, bytes(18)),
                     B.bof(ver, B.CHART) + B.EOF, B.rec(0x20B, bytes(16)), B.scl(0, 0), B.rec(0x41, bytes(10)), B.defcolwidth(0), B.dimensions(ver, 0, 0, 0, 0),
                     B.mulblank(1, 3, [0, 0]), B.merged([(0, 65535, 0, 255)]) if ver >= 80 else b"", B.colinfo(0, 300, 5), B.colinfo(5, 2, 5), B.colinfo(0, 256, 5, 9)):
            if body:
                yield "BIFF%d record 0x%02x%02x" % (ver, body[1], body[0]), ver, wb(ver, f + style + cell, body)
        yield "BIFF%d deep BOF" % ver, ver, wb(ver, f + style + cell, B.bof(ver, 0x40) + B.EOF)
        yield "BIFF%d BOF in globals" % ver, ver, wb(ver, f + style + cell + B.rec(0x809, bytes(4)))
        yield "BIFF%d FILEPASS" % ver, ver, wb(ver, B.rec(0x2F, bytes(6)) + f + style + cell)
        yield "BIFF%d one sheet twice" % ver, ver, B.workbook(ver, [B.Sh("A"), B.Sh("a")], pre=f + style + cell)
        yield "BIFF%d no XF" % ver, ver, wb(ver, b"")
        names = [B.name_rec(ver, n, r, sheet=s, extsheet=s) for n, r, s in (
            ("dup", b"\x1e\1\0", 0), ("dup", b"\x1e\2\0", 0), ("DUP", b"\x1e\2\0", 1), ("bad", b"\xff", 0), ("bad2", b"\x1e", 0), ("none", b"", 0), ("far", b"\x1e\3\0", 99), ("self", b"\x23" + pack("<HH", 8, 0) + (bytes(10) if ver < 80 else b""), 0),
            ("\x07", b"\x1e\4\0", 0), ("fn", b"\x42\3\xff\0", 0), ("fn2", b"\x41\xff\1", 0), ("mac", b"\x1e\5\0", 0))]
        yield "BIFF%d strange names" % ver, ver, wb(ver, f + style + cell, post=b"".join(names))
        yield "BIFF%d names with externals" % ver, ver, wb(ver, f + style + cell, post=(B.supbook_internal(2) + B.supbook_external("\1x", ["S"]) + B.rec(0x23, pack("<HHHB", 0, 0, 0, 3) + b"\0abc\2\0\x1c\x17") + B.rec(0x1AE, pack("<HH", 1, 0x3A01)) +
                                                                                      B.externsheet8([(0, 0, 0), (0, 0, 1), (1, 0, 0), (9, 0, 0), (2, 0xFFFE, 0xFFFE), (0, 0xFFFF, 0xFFFF)]) if ver >= 80 else
                                                                                      B.externcount(4) + B.externsheet5(3, "A") + B.externsheet5(4) + B.externsheet5(1, "x") + B.externsheet5(2)) + b"".join(names))
    for ver in (20, 21, 30, 40):
        f = b"".join(B.font(ver, "F%d" % i) for i in range(5))
        fm = B.fmt(ver, 0, "General") + B.fmt(ver, 1, "dd/mm") + B.fmt(ver, 2, "0.0")
        for k in (0, 1, 2, 3, 63):
            for p in (0, 1, 0xFFF):
                for s in (0, 1):
                    if ver >= 30 or (p == 0 and s == 0):
                        yield "BIFF%d format %d parent %d style %d" % (ver, k, p, s), ver, B.single(ver, B.number(ver, 0, 0, 1.5, 0 if ver >= 30 else B.attr2(0)) + B.number(ver, 1, 0, 2.5, 1 if ver >= 30 else B.attr2(1)), f + fm + B.xf(ver, 0) + B.xf(ver, k, 1, s, p))
        yield "BIFF%d without anything" % ver, ver, B.single(ver, B.number(ver, 0, 0, 1.5, 0 if ver >= 30 else B.attr2(0)), b"")
    yield "BIFF45 unequal sheets", 45, corpus.rich(45, 4)
    yield "not a workbook", 0, b"hello, world, this is nothing"
    yield "OLE without a workbook", 0, ole.simple(b"abc", name="Other")
    yield "OLE header only", 0, ole.simple(corpus.small(80))[:512]
    yield "cut", 0, corpus.rich(80)[:-200]


def cf_with(f1, f2=b"", typ=1, op=1):
    return B.rec(0x01B1, pack("<BBHHIH", typ, op, len(f1), len(f2), 0x003FFFFF, 0) + f1 + f2)


class Rules(Space):
    """Conditional formats, whose formulas are only read for the trace."""
    name = "formulas of conditional formats"
    case_limit = 120
    batch = 1

    def __init__(self, tokens, block=100):
        self.tokens, self.block = tokens, block
        self.bound = "conditional formats with every operand, one operator over every pair of operands, functions, and every %s token code%s over zeros; verbosity 1..4" % (("pair of", "s") if tokens == 2 else ("single", ""))

    def formulas(self):
        import checks.c29 as c29
        for n in itertools.chain(c29.leaves(80), c29.one_op(80), c29.functions(80)):
            yield c29.R.encode(n, 80)
        sz = {}
        for op in range(256):
            for n in (0, 1, 2, 3, 4, 6, 8, 10, 14, 20):
                yield bytes([op]) + bytes(n)
        for op in range(256):
            for op2 in range(256 if self.tokens == 2 else 0):
                yield bytes([0x1E, 1, 0, op, 0, 0, op2, 0, 0, 0, 0])

    def gen(self):
        it = iter(self.formulas())
        k = 0
        while True:
            self.current = list(itertools.islice(it, self.block))
            if not self.current:
                return
            yield k
            k += 1

    def judge(self, case):
        import checks.c22 as c22
        n = 0

        def doc(fs):
            body = B.number(80, 0, 0, 1.5, 0) + c22.condfmt([(0, 3, 0, 1)], min(3, len(fs)))
            for i, f in enumerate(fs):
                body += cf_with(f, b"\x1e\1\0") if i % 2 else cf_with(b"\x1e\1\0", f)
            return B.workbook(80, [B.Sh("A", body + B.number(80, 1, 1, 2.5, 0)), B.Sh("B")], pre=B.xf(80, 0), post=corpus.names(80, 2))
        data = doc(self.current)
        for fmt in (0, 1):
            want = outcome(dict(file_contents=data), logfile=NULL, formatting_info=fmt)
            for v in (1, 2, 3, 4):
                n += 1
                bad = differs(want, outcome(dict(file_contents=data), logfile=io.StringIO(), formatting_info=fmt, verbosity=v))
                if bad:
                    for f in self.current:
                        d = doc([f, f])
                        e = differs(outcome(dict(file_contents=d), logfile=NULL, formatting_info=fmt), outcome(dict(file_contents=d), logfile=io.StringIO(), formatting_info=fmt, verbosity=v))
                        if e:
                            return Result("conditional format with formula %s, verbosity %d: %s" % (f.hex(), v, e), evals=n)
                    return Result("conditional formats, verbosity %d: %s" % (v, bad), evals=n)
            if want[0] == "raise":
                return Result("conditional formats: raises %s (%s)" % want[1:], evals=n)
        return Result(None, outcome=case, evals=n)


def wellformed_docs():
    import checks.c22 as c22
    for ver in VERS:
        pts = c22.sheet_points(ver)
        st = recs.Stream(ver, corpus.rich(ver))
        for what, r in c22.wellformed(ver):
            i = pts[len(pts) // 2]
            yield "BIFF%d with %s" % (ver, what), ver, st.insert({i: r})


OTHERS = "c01 c03 c08 c09 c10 c11 c12 c14 c15 c16 c17 c18 c19 c20 c21 c22 c25 c26 c28 c29".split()
COMBOS = ((dict(verbosity=1), "bytes"), (dict(verbosity=4, on_demand=True), "bytes"), (dict(verbosity=2, ragged_rows=True), "path"),
          (dict(verbosity=3, on_demand=True, ragged_rows=True), "path, no mmap"))


class Others(Space):
    """The workbooks other checks build."""
    case_limit = 300
    batch = 1

    def __init__(self, limit, span):
        self.limit, self.span = limit, span
        self.name = "workbooks of the other checks"
        self.bound = "every workbook opened by the first %d cases, and by %d more spread evenly over the next %d, of every space of %d other checks; 10 option combinations" % (limit, limit, span, len(OTHERS))

    def gen(self):
        for m in OTHERS:
            mod = importlib.import_module("checks." + m)
            for i, sp in enumerate(mod.spaces("quick")):
                if isinstance(sp, mc.Graph) or sp.malformed:
                    continue
                sp.setup()
                it = iter(sp.gen())
                step = max(1, self.span // self.limit)
                self.space = sp
                for k, case in enumerate(it):
                    if k > self.span:
                        break
                    if k < self.limit or k % step == 0:
                        self.case = case
                        yield m, i, k

    def judge(self, case):
        docs = {}
        real = xlrd.open_workbook

        def hook(*a, **kw):
            fc = kw.get("file_contents")
            if isinstance(fc, bytes) and len(docs) < 60:
                docs.setdefault((fc, kw.get("encoding_override")), None)
            return real(*a, **kw)
        xlrd.open_workbook = hook
        try:
            self.space.judge(self.case)
        finally:
            xlrd.open_workbook = real
        n = 0
        for data, enc in docs:
            f = Files(data)
            try:
                base = {fmt: outcome(f.source("bytes"), logfile=NULL, formatting_info=fmt, encoding_override=enc) for fmt in (0, 1)}
                bad = differs(base[0], base[1], True, True)
                n += 2
                if bad:
                    return Result("workbook %s of %s: formatting_info=1 against 0: %s" % (digest(data), case, bad), evals=n)
                for fmt in (0, 1):
                    for kw, kind in COMBOS:
                        n += 1
                        got = outcome(f.source(kind), logfile=io.StringIO(), formatting_info=fmt, encoding_override=enc, **kw)
                        bad = differs(base[fmt], got)
                        if bad:
                            return Result("workbook %s of %s from %s, formatting_info=%d %r: %s" % (digest(data), case, kind, fmt, kw, bad), evals=n)
            finally:
                f.close()
                Files.cleanup()
        return Result(None, outcome=case, evals=n, nontrivial=bool(docs))


def digest(data):
    d = os.path.join("/tmp", "c02-%s.xls" % hashlib.sha1(data).hexdigest()[:10])
    if os.environ.get("C02_KEEP"):
        with open(d, "wb") as f:
            f.write(data)
    return d[9:-4]


def spaces(tier):
    deep = tier == "thorough"
    return [
        Cross("every option, every version", rich_docs, "workbooks with every record kind of 8 versions"),
        Cross("every option, in containers", ole_docs, "the same in OLE2 containers", verbs=(0, 1, 2, 3, 4) if deep else (0, 4), kinds=KINDS if deep else KINDS[:4]),
        Cross("every option, sample files", sample_docs, "the sample files", verbs=(0, 1, 2, 3, 4) if deep else (1, 4), kinds=KINDS if deep else KINDS[:3]),
        Cross("every option, odd workbooks", odd_docs, "workbooks with unusual formats, fonts, styles, palettes, names, objects, damage", verbs=(0, 1, 2, 3, 4) if deep else (1, 3), kinds=KINDS if deep else KINDS[:2]),
        Containers(),
        Omitted(),
        Cross("every option, records xlrd only traces", wellformed_docs, "conditional formats, objects, array and shared formulas, tables", verbs=(0, 1, 2, 3, 4) if deep else (4,), kinds=KINDS[:3] if deep else KINDS[:1]),
        Rules(2 if deep else 1),
        Others(60 if deep else 8, 6000 if deep else 400),
    ]
