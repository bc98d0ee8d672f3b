"""C24: inspect_format and the gate in open_workbook."""
import io, itertools, mmap, os, shutil, tempfile, zipfile
import biff as B
from mc import Space, Result
from xl import *

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "complete enumeration of signature prefixes and zip component sets (case and slash variants) x sources against a small decision model"
NOTE = ("Every prefix and single-byte alteration of both signatures, every set of up to three (thorough: four) zip component names from an alphabet of case and "
        "slash variants and near misses, each from bytes, mmap, path, ~ path and as bytes along with the path of another file or of none. Damaged zip files are outside the bound (zipfile's own exception).")
RULE = "A case is one content; evaluations = inspect_format/open_workbook calls compared with the model. Non-trivial: content longer than 1 byte."
ASSUMPTIONS = ["zip files holding markers of two different formats are only required to be classified as one of them"]

OLE = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"
ZIP = b"PK\x03\x04"
DESCR = {"xls", "xlsb", "xlsx", "ods", "zip", None}

NAMES = ["xl/workbook.xml", "xl\\workbook.xml", "XL/Workbook.XML", "xL\\WORKBOOK.xml",
         "xl/workbook.bin", "xl\\workbook.bin", "XL/WorkBook.Bin", "content.xml", "Content.XML", "CONTENT.xml",
         "[Content_Types].xml", "sub/content.xml", "xl/workbook.xml.rels", "workbook.xml", "xl/_rels/workbook.bin", "mimetype",
         "a/xl/workbook.xml", "content.xml/x", "xl/workbook_bin", "contentxml",
         "/xl/workbook.xml", "\\content.xml", "xl//workbook.bin"]


def model(names):
    n = {x.replace("\\", "/").lower() for x in names}
    out = set()
    if "xl/workbook.xml" in n: out.add("xlsx")
    if "xl/workbook.bin" in n: out.add("xlsb")
    if "content.xml" in n: out.add("ods")
    return out or {"zip"}


def mkzip(names, comp=zipfile.ZIP_STORED):
    b = io.BytesIO()
    z = zipfile.ZipFile(b, "w", comp)
    for i, n in enumerate(names):
        zi = zipfile.ZipInfo("x")
        zi.filename = n          # keep backslashes as they are
        zi.compress_type = comp
        z.writestr(zi, b"data%d" % i)
    z.close()
    return b.getvalue()


OTHER = {"ods": mkzip(["content.xml"]), "xls": OLE + bytes(600)}


class Src(object):
    """Scratch directory for path sources; HOME points inside it so that ~ can be expanded."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c24-")
        self.home = os.path.join(self.dir, "home")
        os.mkdir(self.home)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def probe(content, want, src, opens=None):
    """opens: None = must raise XLRDError naming the format; a function(book) = must open, returns failure text."""
    n = 0
    path = os.path.join(src.home, "f.dat")
    with open(path, "wb") as f:
        f.write(content)
    old = os.environ.get("HOME")
    os.environ["HOME"] = src.home
    try:
        f = open(path, "rb")
        mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) if content else None
        cases = [("bytes", dict(content=content), dict(file_contents=content)),
                 ("mmap", dict(content=mm), dict(file_contents=mm)),
                 ("path", dict(path=path), dict(filename=path)),
                 ("~path", dict(path="~/f.dat"), dict(filename="~/f.dat")),
                 ("positional", None, None)]
        for how, kw, okw in cases:
            if how == "mmap" and mm is None:
                continue          # an empty file cannot be mapped
            got = xlrd.inspect_format(path) if kw is None else xlrd.inspect_format(**kw)
            n += 1
            if got not in want:
                return n, "inspect_format(%s) = %r, should be %r" % (how, got, sorted(map(str, want)))
            if got not in xlrd.FILE_FORMAT_DESCRIPTIONS:
                return n, "inspect_format(%s) = %r is not a key of FILE_FORMAT_DESCRIPTIONS" % (how, got)
            if how == "mmap":
                # open_workbook takes over (and closes) a mapping it was given: use a private one
                okw = dict(file_contents=mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ))
            if okw is None:
                okw = dict(filename=path)
            try:
                bk = xlrd.open_workbook(logfile=NULL, **okw)
            except XLRDError as e:
                n += 1
                if opens is not None:
                    return n, "open_workbook(%s) raised %r for a readable workbook" % (how, e)
                if got is not None and got != "xls" and xlrd.FILE_FORMAT_DESCRIPTIONS[got] not in str(e):
                    return n, "open_workbook(%s) error %r does not name the format %r" % (how, str(e), got)
            except Exception as e:
                if opens is not None:
                    return n, "open_workbook(%s) raised %r for a readable workbook" % (how, e)
                if not content or got is not None and got != "xls":
                    return n, "open_workbook(%s) raised %r instead of XLRDError" % (how, e)
            else:
                n += 1
                if opens is None:
                    return n, "open_workbook(%s) returned a book for content recognised as %r" % (how, got)
                m = opens(bk)
                if m:
                    return n, "open_workbook(%s): %s" % (how, m)
        # bytes of one file with the path of another (or of none): the content wins
        other = os.path.join(src.home, "other.dat")
        with open(other, "wb") as g:
            g.write(OTHER["xls" if "ods" in want else "ods"])
        for p in (other, os.path.join(src.home, "nothing", "here.xls")) if content else ():
            for how, got in (("by name", xlrd.inspect_format(path=p, content=content)), ("by position", xlrd.inspect_format(p, content))):
                n += 1
                if got not in want:
                    return n, "inspect_format(content of one file, path of another, %s) = %r, should be %r" % (how, got, sorted(map(str, want)))
            n += 1
            try:
                bk = xlrd.open_workbook(p, logfile=NULL, file_contents=content)
            except Exception as e:
                if opens is not None:
                    return n, "open_workbook(contents of a readable workbook, path of something else) raised %r" % e
                if got is not None and got != "xls" and not (isinstance(e, XLRDError) and xlrd.FILE_FORMAT_DESCRIPTIONS[got] in str(e)):
                    return n, "open_workbook(contents of %r, path of something else) raised %r" % (got, e)
            else:
                m = "returned a book for content recognised as %r" % got if opens is None else opens(bk)
                if m:
                    return n, "open_workbook(contents, path of something else): %s" % m
        if mm is not None:
            mm.close()
        f.close()
    finally:
        if old is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = old
    return n, None


class Base(Space):
    def setup(self):
        self.src = Src()

    def run_shard(self, shard, nshards):
        try:
            return Space.run_shard(self, shard, nshards)
        finally:
            self.src.close()


class Prefixes(Base):
    name = "signature prefixes"
    bound = "all prefixes, extensions and single-byte alterations of both signatures"

    def gen(self):
        for sig in (OLE, ZIP):
            for k in range(len(sig) + 1):
                for tail in (b"", b"\0", b"x" * 600, sig):
                    yield sig[:k] + tail
            for k in range(len(sig)):
                for d in (1, 0x80, 0x20):
                    b = bytearray(sig)
                    b[k] ^= d
                    yield bytes(b) + b"z" * 40
                yield b" " * (k + 1) + sig
        for other in (b"PK\x05\x06" + b"\0" * 18, b"PK\x01\x02", b"\x09\x08", b"<?xml version='1.0'?>", b"<html>", b"a,b,c\n", b"\x00", b"\xff\xfe<\0"):
            yield other

    def judge(self, content):
        if content.startswith(ZIP):
            want = None     # not a readable zip: zipfile decides
            try:
                r = xlrd.inspect_format(content=content)
            except zipfile.BadZipFile:
                r = "bad"
            return Result("broken zip inspected as %r" % r if r != "bad" and r not in DESCR else None, outcome=r)
        want = {"xls"} if content.startswith(OLE) else {None}
        n, f = probe(content, want, self.src)
        return Result(f, outcome=(tuple(map(str, want)), len(content) > 8), nontrivial=len(content) > 1, evals=n)


class Zips(Base):
    name = "zip component sets"

    def __init__(self, n):
        self.n = n
        self.bound = "all sets of <=%d of %d names; all orders of pairs" % (n, len(NAMES))

    def gen(self):
        for k in range(0, self.n + 1):
            for s in itertools.combinations(range(len(NAMES)), k):
                if k == 0:
                    continue
                yield s
        for s in itertools.permutations(range(len(NAMES)), 2):
            if s[0] > s[1]:
                yield s

    def judge(self, s):
        names = [NAMES[i] for i in s]
        content = mkzip(names, zipfile.ZIP_DEFLATED if len(s) % 2 else zipfile.ZIP_STORED)
        want = model(names)
        n, f = probe(content, want, self.src) if len(s) < 3 or sum(s) % 7 == 0 else light(content, want)
        return Result(f and "%s (components %r)" % (f, names), outcome=(sorted(want), len(s)), evals=n)


def light(content, want):
    got = xlrd.inspect_format(content=content)
    if got not in want:
        return 1, "inspect_format(bytes) = %r, should be %r" % (got, want)
    if not raises(XLRDError, xlrd.open_workbook, file_contents=content, logfile=NULL):
        return 2, "open_workbook(bytes) did not raise XLRDError"
    return 2, None


class Opens(Base):
    name = "workbooks open from every source"
    bound = "one workbook per BIFF version bare, and the sample files"

    def gen(self):
        for ver in B.VERSIONS:
            yield ("bare", ver)
        d = os.path.join(os.environ.get("XLRD_REPO", "/repo"), "tests", "samples")
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".xls"):
                with open(os.path.join(d, fn), "rb") as f:
                    if f.read(8) == OLE:
                        yield ("sample", os.path.join(d, fn))

    def judge(self, case):
        kind, arg = case
        if kind == "bare":
            content = B.single(arg, B.dimensions(arg, 0, 1, 0, 1) + B.label(arg, 0, 0, "hello"))

            def opens(bk):
                sh = bk.sheet_by_index(0)
                if (sh.nrows, sh.ncols, sh.cell_value(0, 0)) != (1, 1, "hello"):
                    return "wrong content %r" % grid(sh)
            n, f = probe(content, {None}, self.src, opens)
        else:
            with open(arg, "rb") as g:
                content = g.read()
            try:
                ref = open_bytes(content)
            except Exception:
                return Result(None, outcome="unreadable sample", nontrivial=False)
            want = [grid_key(s) for s in ref.sheets()]

            def opens(bk):
                if [grid_key(s) for s in bk.sheets()] != want:
                    return "content differs from the content read from bytes"
            n, f = probe(content, {"xls"}, self.src, opens)
        return Result(f, outcome=case, evals=n)


def spaces(tier):
    q = tier == "quick"
    return [Prefixes(), Zips(3 if q else 4), Opens()]
