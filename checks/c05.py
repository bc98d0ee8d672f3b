"""C05: no open file or mapping outlives a failed open, a finished open or a with block."""
import gc
import io
import itertools
import mmap as mmap_module
import os
import shutil
import signal
import sys
import tempfile
import zipfile
from struct import pack
import biff as B
import corpus
import mc
import ole
import recs
from mc import Space, Result
from xl import *

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "exhaustive fault injection on the real code: a failure at every call into the interpreter or the operating system, at every read of the content and every write to the logfile, every damage of the file, all histories of an on-demand book"
NOTE = ("Path sources with and without mmap, bare, short-stream, contiguous and fragmented workbooks of all nine versions, other file types: an exception (OSError, MemoryError, KeyboardInterrupt) at every call, content read or log write of a load; "
        "files cut at every length and altered at every byte; all histories of on-demand books up to a length, with blocks left in every way. Descriptors and mappings are read from /proc while exception and book are alive and the cyclic collector is off.")
RULE = "A case is one load or history with one fault or damage; non-trivial when the fault was reached (or the damage makes the load fail) or a with block/release ends the history."
ASSUMPTIONS = ["faults are not injected into the release of the resources itself (close, release_resources, __exit__), nor into calls made directly by the two functions open_workbook consists of",
               "descriptors and mappings are those /proc/self reports"]
VERS = (20, 21, 30, 40, 45, 50, 70, 80)


class Scratch(object):
    dir_ = None

    @classmethod
    def write(cls, data, name="f.xls"):
        if cls.dir_ is None or cls.dir_[0] != os.getpid():
            cls.dir_ = os.getpid(), tempfile.mkdtemp(prefix="c05")
        p = os.path.join(cls.dir_[1], name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    @classmethod
    def cleanup(cls):
        if cls.dir_ and cls.dir_[0] == os.getpid():
            shutil.rmtree(cls.dir_[1], ignore_errors=True)
            cls.dir_ = None


def held():
    """(descriptors, mapped files) of this process."""
    fds = []
    for n in os.listdir("/proc/self/fd"):
        try:
            fds.append((n, os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    maps = []
    with open("/proc/self/maps") as f:
        for l in f:
            if "/c05" in l or "(deleted)" in l:
                maps.append(l.split(None, 5)[-1].strip())
    return {x for x in fds if "/proc/" not in x[1]}, sorted(maps)


def left(before):
    now = held()
    new = now[0] - before[0]
    if new:
        return "descriptor of %s still open" % ", ".join(sorted(os.path.basename(x[1]) for x in new))
    if now[1] != before[1]:
        return "mapping of %s still there" % ", ".join(os.path.basename(x) for x in now[1])
    return None


def documents(which=("bare", "ole", "contiguous", "fragmented"), make=corpus.small, vers=VERS):
    for ver in vers:
        data = make(ver, 2) if make is corpus.small else make(ver)
        if "bare" in which:
            yield "BIFF%d" % ver, data
        if ver >= 50:
            nm = "Workbook" if ver >= 80 else "Book"
            if "ole" in which:
                yield "BIFF%d OLE" % ver, ole.simple(data, name=nm)
            big = recs.Stream(ver, data).insert({2: B.rec(0x4D, bytes(4200))})
            if "contiguous" in which:
                yield "BIFF%d contiguous" % ver, ole.simple(big, name=nm)
            if "fragmented" in which:
                yield "BIFF%d fragmented" % ver, ole.simple(big, name=nm, slot_order=lambda n: list(range(n))[::-1])


def others():
    def z(names):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as f:
            for n in names:
                f.writestr(n, b"x")
        return b.getvalue()
    yield "xlsx", z(["xl/workbook.xml"])
    yield "xlsb", z(["xl\\workbook.bin"])
    yield "ods", z(["content.xml"])
    yield "zip", z(["a"])
    yield "broken zip", z(["a"])[:30]
    yield "empty", b""
    yield "text", b"some text, long enough to look at"
    yield "OLE, no workbook", ole.simple(b"abc" * 100, name="Other")
    yield "encrypted", B.workbook(80, [B.Sh("A")], pre=B.rec(0x2F, bytes(54)))
    yield "encrypted, OLE", ole.simple(B.workbook(80, [B.Sh("A")], pre=B.rec(0x2F, bytes(54))))


MODES = [dict(use_mmap=m, on_demand=od, formatting_info=f) for m in (True, False) for od in (False, True) for f in (False, True)]


def mode(kw):
    return "%s%s%s" % ("mmap" if kw["use_mmap"] else "no mmap", ", on demand" if kw["on_demand"] else "", ", formatting_info" if kw["formatting_info"] else "")


def attempt(path, before, log=NULL, **kw):
    """Open; ("raised"|"opened", what is left open while exception or book are alive, book)."""
    try:
        bk = xlrd.open_workbook(path, logfile=log, **kw)
    except mc.Hang:
        raise
    except BaseException as e:
        return "raised", left(before), e
    if not bk.on_demand:
        # not asked for, or refused (BIFF4 and older load everything at once)
        return "opened", left(before), bk
    bad = None
    try:
        for i in range(bk.nsheets):
            bk.sheet_by_index(i)
    except mc.Hang:
        raise
    except BaseException as e:
        bad = e
    bk.release_resources()
    return "opened" if bad is None else "raised", left(before), bk


class Quiet(object):
    """Cyclic collection off, stray descriptors of earlier cases collected."""
    def __enter__(self):
        gc.collect()
        gc.disable()
        return held()

    def __exit__(self, *a):
        gc.enable()
        Scratch.cleanup()


class Damage(Space):
    """The file is damaged."""
    case_limit = 600
    batch = 1

    def __init__(self, name, docs, cuts=True, values=(0, 0xFF), step=1, modes=MODES):
        self.name, self.docs, self.cuts, self.values, self.step, self.modes = name, docs, cuts, values, step, modes
        self.bound = "%s%s; %d load modes" % ("cut at every length, " if cuts else "", "every byte replaced by %s" % "/".join("%02x" % v for v in values) if values else "as it is", len(modes))

    def gen(self):
        for name, data in self.docs():
            self.data = data
            if not self.cuts:
                yield name, None
            for i in range(0, len(data), 128):
                if self.cuts:
                    yield name, i

    def judge(self, case):
        name, lo = case
        data = self.data
        variants = []
        if lo is None:
            variants.append(("", data))
        else:
            for i in range(lo, min(lo + 128, len(data)), self.step):
                variants.append(("cut at %d: " % i, data[:i]))
                for v in self.values:
                    if data[i] != v:
                        variants.append(("byte %d = %02x: " % (i, v), data[:i] + bytes([v]) + data[i + 1:]))
        n = failed = 0
        with Quiet() as before:
            for k, (what, d) in enumerate(variants):
                p = Scratch.write(d)
                for kw in self.modes if lo is None else [self.modes[(k + j) % len(self.modes)] for j in (0, 3)]:
                    n += 1
                    mc.arm(20)
                    try:
                        r, bad, obj = attempt(p, before, **kw)
                    except mc.Hang:
                        return Result("%s: %s%s: no result within 20 s" % (name, what, mode(kw)), evals=n)
                    failed += r == "raised"
                    if bad:
                        return Result("%s: %s%s: %s and %s" % (name, what, mode(kw), "open_workbook raised %r" % obj if r == "raised" else "the book was loaded completely", bad), evals=n)
        return Result(None, outcome=(case, failed), nontrivial=failed > 0 or lo is None, evals=n)


class Fault(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


EXCS = {"MemoryError": MemoryError, "KeyboardInterrupt": Interrupt, "OSError": OSError}
PKG = os.path.join(mc.REPO, "xlrd") + os.sep
SKIP_DIRECT = ("open_workbook", "open_workbook_xls")
NOT_INTO = ("release_resources", "__exit__", "__del__", "close")


class Calls(object):
    """Counts the calls of builtins from xlrd code and raises at the k-th (k=None: only counts)."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.hit = k, exc, 0, None

    def profile(self, frame, event, arg):
        if event != "c_call":
            return
        code = frame.f_code
        if not code.co_filename.startswith(PKG) or code.co_name in SKIP_DIRECT or getattr(arg, "__name__", "") in NOT_INTO:
            return
        f = frame
        while f is not None:
            if f.f_code.co_name in NOT_INTO:
                return
            if f.f_code.co_name in SKIP_DIRECT:
                break
            f = f.f_back
        self.n += 1
        if self.n == self.k:
            self.hit = "%s at %s:%d" % (getattr(arg, "__name__", arg), code.co_name, frame.f_lineno)
            raise self.exc("injected")

    def __enter__(self):
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


class CallFaults(Space):
    """A failure of every call."""
    case_limit = 600
    batch = 1

    def __init__(self, name, docs, excs, modes, block=150):
        self.name, self.docs, self.excs, self.modes, self.block = name, docs, excs, modes, block
        self.bound = "every call of a builtin or system function made by xlrd during a load fails with %s; %d load modes" % ("/".join(excs), len(modes))
        self._counts = {}

    def count(self, name, data, m):
        key = name, m
        if key not in self._counts:
            p = Scratch.write(data)
            with Calls(None, None) as c:
                try:
                    xlrd.open_workbook(p, logfile=NULL, **self.modes[m])
                except Exception:
                    pass
            self._counts[key] = c.n
        return self._counts[key]

    def gen(self):
        for name, data in self.docs():
            self.data = data
            for m in range(len(self.modes)):
                n = self.count(name, data, m)
                for lo in range(1, n + 1, self.block):
                    yield name, m, lo
        Scratch.cleanup()

    def judge(self, case):
        name, m, lo = case
        kw = self.modes[m]
        n = hits = 0
        with Quiet() as before:
            p = Scratch.write(self.data)
            for k in range(lo, lo + self.block):
                for ex in self.excs:
                    n += 1
                    c = Calls(k, EXCS[ex])
                    try:
                        with c:
                            bk = xlrd.open_workbook(p, logfile=NULL, **kw)
                    except mc.Hang:
                        raise
                    except BaseException as e:
                        bad = left(before)
                        if bad:
                            return Result("%s, %s: %s in %s (call %d): open_workbook raised %r and %s" % (name, mode(kw), ex, c.hit, k, e, bad), evals=n)
                        hits += 1
                    else:
                        if bk.on_demand:
                            bk.release_resources()
                        bad = left(before)
                        if bad:
                            return Result("%s, %s: %s in %s (call %d) handled: book open and %s" % (name, mode(kw), ex, c.hit, k, bad), evals=n)
                        del bk
        return Result(None, outcome=(case, hits), nontrivial=hits > 0, evals=n)


class BadMap(mmap_module.mmap):
    """Fails at the k-th read (0: when created)."""
    k = None
    exc = OSError
    n = 0

    def __new__(cls, *a, **kw):
        if BadMap.k == 0:
            raise BadMap.exc("injected")
        BadMap.n = 0
        return super().__new__(cls, *a, **kw)

    def __getitem__(self, i):
        BadMap.n += 1
        if BadMap.n == BadMap.k:
            raise BadMap.exc("injected")
        return super().__getitem__(i)


class BadLog(object):
    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0

    def write(self, s):
        self.n += 1
        if self.n == self.k:
            raise self.exc("injected")

    def flush(self):
        pass


class ReadFaults(Space):
    """A failure of every read of a mapped file, of every write to the logfile."""
    case_limit = 600
    batch = 1

    def __init__(self, name, docs, block=400, excs=("OSError", "KeyboardInterrupt")):
        self.name, self.docs, self.block, self.excs = name, docs, block, excs
        self.bound = "every read of the mapped file and every write to the logfile (verbosity 4) fails with %s; on demand or not" % "/".join(excs)

    def total(self, what, data, od):
        p = Scratch.write(data)
        try:
            if what == "read":
                BadMap.k = None
                with Patched():
                    BadMap.n = 0
                    self.load(p, NULL, od, 0)
                    return BadMap.n
            log = BadLog(None, None)
            self.load(p, log, od, 4)
            return log.n
        except Exception:
            return BadMap.n if what == "read" else log.n

    @staticmethod
    def load(p, log, od, verbosity):
        bk = xlrd.open_workbook(p, logfile=log, on_demand=od, formatting_info=True, verbosity=verbosity)
        if od:
            with bk:
                for i in range(bk.nsheets):
                    bk.sheet_by_index(i)
        return bk

    def gen(self):
        for name, data in self.docs():
            self.data = data
            for what in ("read", "write"):
                for od in (0, 1):
                    n = self.total(what, data, od)
                    for lo in range(0 if what == "read" else 1, n + 1, self.block):
                        yield name, what, od, lo
        Scratch.cleanup()

    def judge(self, case):
        name, what, od, lo = case
        n = hits = 0
        with Quiet() as before:
            p = Scratch.write(self.data)
            for k in range(lo, lo + self.block):
                for ex in self.excs:
                    n += 1
                    try:
                        if what == "read":
                            BadMap.k, BadMap.exc = k, EXCS[ex]
                            with Patched():
                                bk = self.load(p, NULL, od, 0)
                        else:
                            bk = self.load(p, BadLog(k, EXCS[ex]), od, 4)
                    except mc.Hang:
                        raise
                    except BaseException as e:
                        hits += 1
                        bad = left(before)
                        if bad:
                            return Result("%s%s: %s at %s %d: %r reached the caller and %s" % (name, ", on demand" if od else "", ex, what, k, e, bad), evals=n)
                    else:
                        bad = left(before)
                        if bad:
                            return Result("%s%s: %s at %s %d handled: book loaded and %s" % (name, ", on demand" if od else "", ex, what, k, bad), evals=n)
        return Result(None, outcome=(case, hits), nontrivial=hits > 0, evals=n)


class Patched(object):
    def __enter__(self):
        mmap_module.mmap = BadMap

    def __exit__(self, *a):
        mmap_module.mmap = BadMap.__mro__[1]


class Histories(Space):
    """What a program may do with an on-demand book before it is done."""
    case_limit = 300
    batch = 1
    OPS = ("load 0", "load 1", "load by name", "fail", "unload 0", "iterate", "nested with", "release", "no such sheet")
    ENDS = ("release", "with", "with, exception", "with, interrupt", "with, return", "with, released inside", "release twice")

    def __init__(self, depth, vers):
        self.depth, self.vers = depth, vers
        self.name = "histories"
        self.bound = "all sequences of up to %d of %d operations on an on-demand book, ended in %d ways; mapped and read files, bare, short, contiguous, fragmented; one sheet damaged" % (depth, len(self.OPS), len(self.ENDS))

    def gen(self):
        for name, data in docs3(self.vers):
            self.data = data
            for mm in (True, False):
                for k in range(self.depth + 1):
                    for ops in itertools.product(range(len(self.OPS)), repeat=k):
                        yield name, mm, ops

    def judge(self, case):
        name, mm, ops = case
        n = 0
        with Quiet() as before:
            p = Scratch.write(self.data)
            for end in self.ENDS:
                n += 1
                bad = self.one(p, mm, ops, end, before)
                if bad:
                    return Result("%s%s: %s, then %s: %s" % (name, "" if mm else ", no mmap", " / ".join(self.OPS[o] for o in ops) or "nothing", end, bad), evals=n)
        return Result(None, outcome=case, evals=n)

    def run(self, bk, ops):
        for o in ops:
            op = self.OPS[o]
            try:
                if op.startswith("load "):
                    bk.sheet_by_name("S1") if op.endswith("name") else bk.sheet_by_index(int(op[5:]))
                elif op == "fail":
                    bk.sheet_by_index(2)
                elif op == "unload 0":
                    bk.unload_sheet(0)
                elif op == "iterate":
                    for s in bk:
                        break
                elif op == "nested with":
                    with bk:
                        bk.sheet_by_index(1)
                elif op == "release":
                    bk.release_resources()
                else:
                    bk.sheet_by_name("nope")
            except Exception:
                pass

    def one(self, p, mm, ops, end, before):
        bk = xlrd.open_workbook(p, logfile=NULL, use_mmap=mm, on_demand=True)
        keep = None
        if end.startswith("release"):
            self.run(bk, ops)
            bk.release_resources()
            if end == "release twice":
                bk.release_resources()
            return left(before)

        def body():
            with bk as b:
                self.run(b, ops)
                if end == "with, exception":
                    raise ValueError("own")
                if end == "with, interrupt":
                    raise Interrupt("own")
                if end == "with, return":
                    return 1
                if end == "with, released inside":
                    b.release_resources()
        try:
            body()
        except (ValueError, Interrupt) as e:
            keep = e
        return left(before) or ("exception swallowed" if keep is None and end in ("with, exception", "with, interrupt") else None)


def docs3(vers):
    """Three sheets, the third one damaged."""
    for ver in vers:
        data = B.workbook(ver, [B.Sh("S0", B.number(ver, 0, 0, 1.5, 0)), B.Sh("S1", B.number(ver, 0, 0, 1.5, 0)), B.Sh("S2", B.rec(0x203, b"\1"))], pre=B.xf(ver, 0))
        nm = "Workbook" if ver >= 80 else "Book"
        big = recs.Stream(ver, data).insert({2: B.rec(0x4D, bytes(4200))})
        yield "BIFF%d" % ver, data
        yield "BIFF%d OLE" % ver, ole.simple(data, name=nm)
        yield "BIFF%d contiguous" % ver, ole.simple(big, name=nm)
        yield "BIFF%d fragmented" % ver, ole.simple(big, name=nm, slot_order=lambda n: list(range(n))[::-1])


class Inspect(Space):
    """inspect_format, dump and count_records leave nothing open either."""
    name = "inspection"
    bound = "every document: inspect_format, dump, count_records; every call of the inspection fails"
    case_limit = 120
    batch = 1

    def gen(self):
        for name, data in itertools.chain(documents(make=corpus.small), others()):
            self.data = data
            yield name

    def judge(self, case):
        n = 0
        with Quiet() as before:
            p = Scratch.write(self.data)
            for what, fn in (("inspect_format", lambda: xlrd.inspect_format(p)), ("dump", lambda: xlrd.dump(p, NULL)), ("count_records", lambda: xlrd.count_records(p, NULL))):
                n += 1
                try:
                    fn()
                except Exception:
                    if what != "inspect_format":
                        continue
                bad = left(before)
                if bad:
                    return Result("%s: after %s %s" % (case, what, bad), evals=n)
            k = 1
            while k < 200:
                c = Calls(k, OSError)
                n += 1
                try:
                    with c:
                        xlrd.inspect_format(p)
                except OSError as e:
                    bad = left(before)
                    if bad and c.hit:
                        return Result("%s: OSError in %s: inspect_format raised and %s" % (case, c.hit, bad), evals=n)
                except Exception:
                    pass
                if not c.hit:
                    break
                k += 1
        return Result(None, outcome=case, evals=n)


def spaces(tier):
    deep = tier == "thorough"
    small = lambda: documents()
    half = [MODES[0], MODES[3], MODES[6]]
    return [
        Damage("no damage", lambda: itertools.chain(documents(make=corpus.rich), documents(), others()), cuts=False, values=()),
        Damage("damaged files", small if deep else lambda: itertools.chain(documents(("bare",)), documents(("ole", "contiguous", "fragmented"), vers=(80,))), values=(0, 1, 0x7F, 0x80, 0xFF) if deep else (0, 0xFF), step=1 if deep else 3),
        CallFaults("failing calls", small if deep else lambda: itertools.chain(documents(), others()), ("MemoryError", "KeyboardInterrupt"), MODES if deep else half),
        CallFaults("failing calls, other files", others, ("OSError", "MemoryError", "KeyboardInterrupt"), MODES),
        CallFaults("failing calls, rich workbooks", lambda: documents(("bare", "fragmented"), corpus.rich, VERS if deep else (30, 45, 70, 80)), ("MemoryError",), MODES if deep else MODES[3:4], block=300),
        ReadFaults("failing reads and writes", small),
        ReadFaults("failing reads and writes, rich workbooks", lambda: documents(("bare", "contiguous", "fragmented"), corpus.rich, VERS if deep else (20, 45, 50, 80)), excs=("OSError", "KeyboardInterrupt") if deep else ("OSError",)),
        Histories(4 if deep else 3, (50, 80) if deep else (80,)),
        Inspect(),
    ]
