"""C27: workbooks opened one after another or concurrently do not affect each other."""
import array
import itertools
import os
import pickle
import signal
import sys
import threading
import types
from struct import pack
import biff as B
import corpus
import mc
import ole
import snap
from mc import Space, Result
from xl import *

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "stateless exploration of the real code: all open sequences up to a length, and a controlled two-thread scheduler enumerating all interleavings up to a preemption bound at line and at file-read granularity"
NOTE = ("All sequences of up to 3 opens, all pairs of twins (workbooks that differ in one thing) and runs of copies with one altered byte (and interleaved operations on two open books) over dissimilar workbooks of every version, damaged ones included; two threads loading workbooks with one preemption before every executed line of xlrd, "
        "and with every placement of two (thorough: three) preemptions at reads of the file content; every list, dict, set and array reachable from one book destroyed, others compared. Each execution starts from a fresh fork.")
RULE = "A case is one history or one schedule; non-trivial when two or more workbooks take part and at least one switch happens while a load is under way."
ASSUMPTIONS = ["context switches inside one line of Python source are not explored",
               "if a thread makes no progress for 1 s while the other is suspended (a lock), the suspended one goes on: such schedules are explored only up to that point"]


def docs():
    """name -> (bytes, open arguments); None-valued result = raises."""
    d = {}
    for ver in (20, 21, 30, 40, 45, 50, 70, 80):
        d["rich%d" % ver] = (corpus.rich(ver), dict(formatting_info=ver % 20 != 0))
    d["rich80 ole"] = (ole.simple(corpus.rich(80)), dict(formatting_info=True, on_demand=True))
    post = B.sst(["x", "\u0416"])
    d["mac dates"] = (B.workbook(80, [B.Sh("A", B.number(80, 0, 0, 3.5, 1) + B.labelsst(1, 1, 1))], pre=B.codepage(1200) + B.datemode(1) + B.font(80, "Z", 300) + B.fmt(80, 14, "0.000") + B.xf(80, 14) + B.xf(80, 22), post=post), dict(formatting_info=True))
    d["cp1251"] = (B.workbook(50, [B.Sh("\u0416", B.label(50, 0, 0, "\u0416\u0434", enc="cp1251") + B.rstring(50, 1, 0, "\u0434\u0434", [(1, 1)], enc="cp1251"))], pre=B.codepage(1251) + B.xf(50), enc="cp1251"), dict(ragged_rows=True))
    d["palette"] = (B.workbook(80, [B.Sh("P", B.blank(80, 3, 3))], pre=B.palette([(i, i, i) for i in range(56)]) + B.font(80, "Q", 111, colour=9) + B.xf(80) + B.style_user(80, 0, "own")), dict(formatting_info=True))
    d["encrypted"] = (B.workbook(80, [B.Sh("E")], pre=B.codepage(1200) + B.palette([(9, 9, 9)] * 56) + B.fmt(80, 164, "yy") + B.rec(0x2F, bytes(6))), dict(formatting_info=True))
    r = corpus.rich(80)
    d["cut"] = (r[:len(r) - 40], dict(formatting_info=True))
    d["text"] = (b"not a workbook at all", {})
    return d


DOCS = docs()
SMALL = {"small%d" % v: (corpus.small(v, 1 if v < 45 else 2), dict(formatting_info=v != 50)) for v in (20, 30, 45, 50, 80)}
SMALL["small80 ole"] = (ole.simple(corpus.small(80, 1)), dict(formatting_info=True))
SMALL["names80"] = (B.workbook(80, [B.Sh("A", B.number(80, 0, 0, 2.0)), B.Sh("B")], pre=B.datemode(1) + B.xf(80), post=corpus.names(80, 2)), {})
ANY = dict(DOCS)
ANY.update(SMALL)


def load(name, wrap=None):
    """The snapshot of the workbook, or the exception, as text."""
    data, kw = ANY[name]
    try:
        bk = open_bytes(wrap(data) if wrap else data, **kw)
        return snap.full(bk)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def forked(fn, limit=30):
    """fn() in a fresh child of this (xlrd imported, nothing ever opened) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("err", "%s: %s\n%s" % (type(e).__name__, e, mc.short_tb()))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f, 4)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            raw = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not raw:
        return "err", "the process ended without a result"
    return pickle.loads(raw)


_solo = {}


def solo(name):
    if name not in _solo:
        kind, val = forked(lambda: load(name))
        if kind != "ok":
            raise RuntimeError("loading %s alone: %s" % (name, val))
        _solo[name] = val
    return _solo[name]


def same(name, got, where):
    want = solo(name)
    if got == want:
        return None
    if isinstance(got, str) or isinstance(want, str):
        return "%s %s: %.300s, alone: %.300s" % (name, where, got if isinstance(got, str) else "is read", want if isinstance(want, str) else "is read")
    return "%s %s differs from the same workbook opened alone: %s" % (name, where, snap.diff(want, got))


class Sequences(Space):
    case_limit = 120

    def __init__(self, n, names):
        self.n, self.names = n, names
        self.name = "sequences of %d opens" % n
        self.bound = "all sequences of %d opens over %d dissimilar workbooks (%s), earlier books kept or dropped" % (n, len(names), ", ".join(names))

    def gen(self):
        # one fork handles all last elements: `prefix` opened first, then each workbook in a fork of that
        for prefix in itertools.product(self.names, repeat=self.n - 1):
            yield prefix

    def judge(self, prefix):
        for nm in self.names:
            solo(nm)
        n = 0
        for keep in (True, False):
            def history():
                kept, out = [], []
                for i, p in enumerate(prefix):
                    data, kw = ANY[p]
                    try:
                        bk = open_bytes(data, **kw)
                        if keep:
                            kept.append((i, p, bk))
                        else:
                            snap.full(bk)
                    except Exception:
                        pass
                for nm in self.names:
                    k, v = forked(lambda: load(nm))
                    out.append(v if k != "ok" else same(nm, v, "after %s" % "+".join(prefix)))
                for i, p, bk in kept:        # and the earlier ones, read only now
                    try:
                        v = snap.full(bk)
                    except Exception as e:
                        v = "%s: %s" % (type(e).__name__, e)
                    out.append(same(p, v, "read after %s were opened" % "+".join(prefix)))
                return [o for o in out if o]
            k, v = forked(history, 100)
            n += len(self.names) + len(prefix)
            if k != "ok":
                return Result("history %s: %s" % ("+".join(prefix), v), evals=n)
            if v:
                return Result(v[0], evals=n)
        return Result(None, outcome=prefix, evals=n, nontrivial=self.n > 1)


TWIN_VERS = (20, 21, 30, 40, 45, 50, 70, 80)


def twin_load(data, ragged=False):
    try:
        return snap.full(open_bytes(data, formatting_info=True, ragged_rows=ragged))
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


twin_doc = corpus.twin


class Twins(Space):
    """Workbooks that agree in everything but one or two things, of the same length, one after another."""
    name = "twins one after another"
    case_limit = 200
    batch = 4

    def __init__(self, vers):
        self.vers = vers
        self.feats = {}
        for v in TWIN_VERS:
            base = twin_doc(v)
            self.feats[v] = [""] + [f for f in corpus.TWINS if twin_doc(v, [f]) != base]
        self.bound = "all ordered pairs of workbooks each written with at most one of %s things in another form (BIFF%s: all pairs; other versions: pairs with the base)" % (
            "/".join(str(len(self.feats[v]) - 1) for v in TWIN_VERS), ", ".join(map(str, vers)))
        self.solo = {}

    def gen(self):
        for v in TWIN_VERS:
            for f in self.feats[v]:
                yield v, f

    def alone(self, v, f):
        if (v, f) not in self.solo:
            k, r = forked(lambda: twin_load(twin_doc(v, [f])))
            if k != "ok":
                raise RuntimeError(r)
            self.solo[v, f] = r
        return self.solo[v, f]

    def judge(self, case):
        v, f = case
        others = self.feats[v] if v in self.vers or f == "" else [""]
        want = [self.alone(v, g) for g in others]

        def history():
            bad = []
            twin_load(twin_doc(v, [f]))
            for g, w in zip(others, want):
                k, got = forked(lambda: twin_load(twin_doc(v, [g])))
                if got != w:
                    bad.append("BIFF%d workbook with %r after one with %r: %s" % (v, g, f, snap.diff(w, got) if not isinstance(got, str) and not isinstance(w, str) else (got, w)))
            return bad
        k, r = forked(history)
        if k != "ok" or r:
            return Result(r if k != "ok" else r[0], evals=len(others))
        return Result(None, outcome=case, evals=len(others))


class Flips(Space):
    """The workbook, then copies of it with one byte altered."""
    case_limit = 200
    batch = 4

    def __init__(self, vers, bits):
        self.vers, self.bits = vers, bits
        self.name = "altered copies one after another"
        self.bound = "after the workbook of everything (BIFF%s): each copy of it with one byte altered in bit %s, 16 copies in a row, then the workbook itself" % (", ".join(map(str, vers)), "/".join(map(str, bits)))

    def gen(self):
        for v in self.vers:
            n = len(twin_doc(v))
            for b in self.bits:
                for i in range(0, n, 16):
                    yield v, b, i

    def judge(self, case):
        v, b, i = case
        base = twin_doc(v)
        docs_ = []
        for p in range(i, min(i + 16, len(base))):
            d = bytearray(base)
            d[p] ^= 1 << b
            docs_.append((p, bytes(d)))
        docs_.append((None, base))

        def digest(d):
            return hash(repr(twin_load(d, True)))
        want = [forked(lambda: digest(d)) for p, d in docs_]

        def history():
            digest(base)
            return [digest(d) for p, d in docs_]
        k, got = forked(history)
        if k != "ok":
            return Result("BIFF%d, bytes %d...: %s" % (v, i, got), evals=17)
        for (p, d), (k, w), g in zip(docs_, want, got):
            if k != "ok" or w != g:
                def again():
                    for q, e in [(None, base)] + docs_:
                        r = twin_load(e, True)
                        if q == p and e is not base or (p is None and e is base and q is None and e is d):
                            return r
                _, x = forked(lambda: twin_load(d, True))
                _, y = forked(again)
                return Result("BIFF%d workbook with bit %d of byte %r altered, opened after the unaltered one and other copies: %s" % (
                    v, b, p, snap.diff(x, y) if isinstance(x, dict) and isinstance(y, dict) else (x, y)), evals=17)
        return Result(None, outcome=case, evals=17)


class Ops(Space):
    """Two on-demand books, all interleavings of their operations."""
    name = "interleaved use of two books"
    bound = "all 924 interleavings of open, load sheet 2, load sheet 0, unload 2, load all, close of two on-demand books, for all ordered pairs of 3 workbooks"
    case_limit = 60
    batch = 8
    NAMES = ("rich80 ole", "rich50", "rich70")

    def gen(self):
        for a, b in itertools.product(self.NAMES, repeat=2):
            for pos in itertools.combinations(range(12), 6):
                yield a, b, pos

    def judge(self, case):
        a, b, pos = case

        def prog(name):
            data, kw = ANY[name]
            bk = open_bytes(data, **dict(kw, on_demand=True))
            yield
            bk.sheet_by_index(2)
            yield
            s0 = bk.sheet_by_index(0)
            yield
            bk.unload_sheet(2)
            yield
            v = snap.full(bk)
            yield
            bk.release_resources()
            if snap.sheet(s0) != dict(v["sheets"][0]):
                v = "sheet 0 changed"
            done[name, id(key)] = v
            yield v
        out = []
        done, key = {}, object()
        gens = [prog(a), prog(b)]
        last = [None, None]
        try:
            for i in range(12):
                t = 0 if i in pos else 1
                last[t] = next(gens[t])
        except Exception as e:
            return Result("%s and %s interleaved as %r: raises %r" % (a, b, pos, e))
        for nm, v in zip((a, b), last):
            bad = same(nm, v, "used alternately with another book (%s, %s, order %r)" % (a, b, pos))
            if bad:
                return Result(bad)
        return Result(None, outcome=case)


# --- threads ---------------------------------------------------------------

class Sched(object):
    """Two real threads, one running at a time; thread t runs until its next switch point, then the other goes on.
    plan[t]: ascending counts of scheduling points (1-based) at which thread t hands over."""

    def __init__(self, progs, plan, lines):
        self.plan = [list(p) for p in plan]
        self.count = [0, 0]
        self.done = [False, False]
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.out = [None, None]
        self.progs = progs
        self.lines = lines
        self.free = False
        self.switches = 0

    def point(self, t):
        c = self.count[t] = self.count[t] + 1
        if self.plan[t] and c == self.plan[t][0]:
            self.plan[t].pop(0)
            o = 1 - t
            if not self.done[o] and not self.free:
                self.switches += 1
                self.turn[o].release()
                self.wait(t)

    def wait(self, t):
        while not self.turn[t].acquire(timeout=1.0):
            before = self.count[1 - t]
            if self.turn[t].acquire(timeout=1.0):
                return
            if self.count[1 - t] == before:       # the other one is stuck on something we hold
                self.free = True
                return

    def tracer(self, t):
        pkg = os.path.join(mc.REPO, "xlrd") + os.sep
        point = self.point

        def local(frame, event, arg):
            if event == "line":
                point(t)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(pkg) else None
        return glob

    def body(self, t):
        self.wait(t)
        try:
            if self.lines:
                sys.settrace(self.tracer(t))
            try:
                v = self.progs[t](self, t)
            finally:
                sys.settrace(None)
            self.out[t] = v() if callable(v) else v
        except BaseException as e:
            self.out[t] = "%s: %s" % (type(e).__name__, e)
        self.done[t] = True
        self.turn[1 - t].release()

    def run(self):
        ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in (0, 1)]
        for th in ths:
            th.start()
        self.turn[0].release()
        for th in ths:
            th.join(20)
            if th.is_alive():
                return "stuck"
        return None


class Content(object):
    """File content whose every access is a scheduling point."""

    def __init__(self, data, sched, t):
        self.data, self.sched, self.t = data, sched, t

    def __getitem__(self, i):
        self.sched.point(self.t)
        return self.data[i]

    def __len__(self):
        self.sched.point(self.t)
        return len(self.data)


def program(name, reads):
    def run(sched, t):
        data, kw = ANY[name]
        src = Content(data, sched, t) if reads else data
        try:
            bk = open_bytes(src, **kw)
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
        if kw.get("on_demand"):
            for i in range(bk.nsheets):
                bk.sheet_by_index(i)
        return lambda: snap.full(bk)      # compared outside the schedule
    return run


def points(name, reads):
    """Scheduling points of the program alone, and for lines the first and last occurrence of each."""
    def count():
        seen = {}
        if reads:
            s = Sched([program(name, True), lambda s, t: None], [[], []], False)
            s.run()
            return s.count[0], []
        pkg = os.path.join(mc.REPO, "xlrd") + os.sep
        n = [0]

        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                k = frame.f_code.co_filename, frame.f_lineno
                if k in seen:
                    seen[k][1] = n[0]
                else:
                    seen[k] = [n[0], n[0]]
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(pkg) else None
        data, kw = ANY[name]
        sys.settrace(glob)
        try:
            bk = open_bytes(data, **kw)
            if kw.get("on_demand"):
                for i in range(bk.nsheets):
                    bk.sheet_by_index(i)
        except Exception:
            pass
        finally:
            sys.settrace(None)
        return n[0], sorted({x for v in seen.values() for x in v})
    k, v = forked(count)
    if k != "ok":
        raise RuntimeError(v)
    return v


class Threads(Space):
    case_limit = 60
    batch = 8

    def __init__(self, pairs, bound, reads, ends=False, both=True):
        self.pairs, self.k, self.reads, self.ends = pairs, bound, reads, ends
        self.name = "two threads, %d preemption%s at %s" % (bound, "s" if bound > 1 else "", "file reads" if reads else "lines" if not ends else "first and last executions of lines")
        self.bound = "all schedules with up to %d preemptions at every %s: %s" % (bound, "read of the file content" if reads else "executed line of xlrd" if not ends else "first and last execution of each line of xlrd", ", ".join("%s||%s" % p for p in pairs))
        self._pts = {}

    def pts(self, name):
        if name not in self._pts:
            n, ends = points(name, self.reads)
            self._pts[name] = ends if self.ends else list(range(1, n + 1))
        return self._pts[name]

    def gen(self):
        for a, b in self.pairs:
            pa, pb = self.pts(a), self.pts(b)
            yield a, b, [], []
            for k in range(1, self.k + 1):
                # alternate: A stops at x1, B at y1, A at x2, ...
                na, nb = (k + 1) // 2, k // 2
                for xs in itertools.combinations(pa, na):
                    for ys in itertools.combinations(pb, nb):
                        yield a, b, list(xs), list(ys)

    def judge(self, case):
        a, b, xs, ys = case
        want = solo(a), solo(b)

        def go():
            s = Sched([program(a, self.reads), program(b, self.reads)], [xs, ys], not self.reads)
            stuck = s.run()
            bad = None
            if stuck:
                bad = "the threads do not finish"
            else:
                for t, nm in enumerate((a, b)):
                    bad = bad or same(nm, s.out[t], "loaded while another thread loads %s" % (b, a)[t])
            return bad, s.switches
        k, v = forked(go)
        if k != "ok":
            return Result("schedule %r: %s" % (case, v))
        bad, sw = v
        if bad:
            return Result("threads loading %s and %s, switching after %s points %r and %r: %s" % (a, b, "read" if self.reads else "line", xs, ys, bad))
        return Result(None, outcome=case, nontrivial=sw > 0)


# --- mutation --------------------------------------------------------------

MUTABLE = (list, dict, set, bytearray, array.array)


def reachable(root):
    """{id: (object, path)} of all mutable containers reachable through public attributes."""
    seen, out, todo = set(), {}, [(root, "book")]
    while todo:
        o, path = todo.pop()
        if id(o) in seen or isinstance(o, (str, bytes, int, float, type(None), bool, type, types.ModuleType, types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
            continue
        seen.add(id(o))
        if o is NULL or o is sys.stdout:
            continue
        if isinstance(o, MUTABLE):
            out[id(o)] = o, path
        if isinstance(o, dict):
            for k, v in list(o.items()):
                todo.append((v, "%s[%r]" % (path, k)))
        elif isinstance(o, (list, tuple, set, frozenset)):
            for i, v in enumerate(list(o)):
                todo.append((v, "%s[%d]" % (path, i)))
        elif not isinstance(o, MUTABLE):
            for c in type(o).__mro__:
                for s in getattr(c, "__slots__", ()):
                    if not s.startswith("_") and hasattr(o, s):
                        todo.append((getattr(o, s), "%s.%s" % (path, s)))
            for k, v in list(getattr(o, "__dict__", {}).items()):
                if not k.startswith("_"):
                    todo.append((v, "%s.%s" % (path, k)))
            # class-level defaults show through the instance as well
            for c in type(o).__mro__:
                for k, v in list(c.__dict__.items()):
                    if not k.startswith("_") and isinstance(v, MUTABLE) and getattr(o, k, None) is v:
                        todo.append((v, "%s.%s (class attribute)" % (path, k)))
    return out


def extra(bk):
    """What methods hand out."""
    out = [bk.sheet_names(), bk.sheets()]
    for sh in bk.sheets():
        out.append(sh)
        if sh.nrows:
            out += [sh.row(0), sh.row_values(0), sh.row_types(0), sh.row_slice(0), sh.row_len(0)]
            if sh.ncols and not bk.ragged_rows:
                out += [sh.col(0), sh.col_values(0), sh.col_types(0)]
    return out


def destroy(bk, how):
    objs = reachable([bk, extra(bk)])
    n = 0
    for o, path in objs.values():
        try:
            if how == "clear":
                if isinstance(o, array.array):
                    del o[:]
                else:
                    o.clear()
            elif how == "junk":
                if isinstance(o, dict):
                    for k in list(o):
                        o[k] = "junk"
                    o["junk"] = "junk"
                elif isinstance(o, (list,)):
                    o[:] = ["junk"] * (len(o) + 1)
                elif isinstance(o, set):
                    o.add("junk")
                elif isinstance(o, (bytearray, array.array)):
                    for i in range(len(o)):
                        o[i] = 1
            n += 1
        except (TypeError, ValueError):
            pass
    return n


class Mutation(Space):
    name = "mutation"
    bound = "for all ordered pairs of the workbooks: every mutable container reachable from the first book's public attributes and methods cleared, or filled with junk; the second opened before, before but read after, or opened after"
    case_limit = 60

    def __init__(self, names):
        self.names = names

    def gen(self):
        for a in self.names:
            for how in ("clear", "junk"):
                yield a, how

    def judge(self, case):
        a, how = case
        for b in self.names:
            solo(b)

        def go():
            early = {}
            for b in self.names:
                data, kw = ANY[b]
                early[b] = open_bytes(data, **kw), open_bytes(data, **dict(kw, on_demand=True))
            data, kw = ANY[a]
            bk = open_bytes(data, **kw)
            snap.full(bk)
            n = destroy(bk, how)
            if not n:
                return "nothing to mutate in %s" % a, 0
            for b in self.names:
                for t, v in (("opened before", early[b][0]), ("opened on demand before", early[b][1])):
                    try:
                        v = snap.full(v)
                    except Exception as e:
                        v = "%s: %s" % (type(e).__name__, e)
                    bad = same(b, v, "(%s) after the lists and maps of %s were changed (%s)" % (t, a, how))
                    if bad:
                        return bad, n
                bad = same(b, load(b), "(opened later) after the lists and maps of %s were changed (%s)" % (a, how))
                if bad:
                    return bad, n
            return None, n
        k, v = forked(go)
        if k != "ok":
            return Result("%r: %s" % (case, v))
        return Result(v[0], outcome=(case, v[1]), evals=3 * len(self.names))


class Shared(Space):
    name = "shared containers"
    bound = "for all pairs of the workbooks (each with itself too): no list, dict, set or array is reachable from both books' public attributes"
    case_limit = 60

    def __init__(self, names):
        self.names = names

    def gen(self):
        return itertools.combinations_with_replacement(self.names, 2)

    def judge(self, case):
        a, b = (open_bytes(ANY[n][0], **ANY[n][1]) for n in case)
        ra, rb = reachable([a, extra(a)]), reachable([b, extra(b)])
        both = set(ra) & set(rb)
        for i in both:
            o, path = ra[i]
            return Result("books of %s and %s share the %s at %s" % (case[0], case[1], type(o).__name__, path))
        return Result(None, outcome=(case, len(ra)))


READABLE = [n for n in DOCS if n not in ("encrypted", "cut", "text")]


def spaces(tier):
    names = list(DOCS)
    out = [Sequences(1, names + list(SMALL)), Sequences(2, names), Mutation(READABLE), Shared(READABLE)]
    sp = [("small80", "small50"), ("small20", "small30"), ("names80", "small80 ole"), ("small45", "small80"), ("small80", "small80"), ("small50", "names80"), ("small30", "small80")]
    out += [Twins((50, 80) if tier == "quick" else TWIN_VERS), Flips(TWIN_VERS, [0] if tier == "quick" else range(8))]
    if tier == "quick":
        return out + [Sequences(3, ["rich20", "rich45", "rich70", "mac dates", "palette", "encrypted", "cut"]), Ops(),
                      Threads(sp, 1, False), Threads([("small80", "small50"), ("names80", "small45")], 2, True),
                      Threads([("rich80", "rich45"), ("rich50", "rich80")], 1, True),
                      Threads([("rich80", "palette"), ("rich21", "rich30")], 1, False, ends=True)]
    big = [(a, b) for a in ("rich80", "rich50", "rich45", "rich30", "rich20") for b in ("rich80", "mac dates", "cp1251")]
    return out + [Sequences(3, names), Ops(), Threads(sp, 1, False), Threads(sp, 2, True), Threads([("small80", "small50")], 3, True),
                  Threads(big, 1, True), Threads(big, 1, False, ends=True), Threads([("mac dates", "palette"), ("cp1251", "mac dates")], 1, False),
                  Threads([("rich80", "palette")], 1, False), Threads([("small20", "small30")], 2, False, ends=True)]
