"""C04: any history of load/unload/release on an on-demand book behaves like the eager book."""
import itertools
import biff as B, corpus, snap
from mc import Space, Graph, Result
from xl import *

ID = "C04"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state breadth-first search over lifecycle histories of the real Book against a reference state machine, plus all histories to a depth without state merging"
NOTE = ("Every step of every history is executed on a freshly opened real book and its answer compared with the reference machine "
        "(loaded set, object identities, released flag) and with the eager book's contents. The abstract state space is explored to a fixpoint; "
        "all histories to depth 3 (thorough 4) are also run without merging states, and on books whose sheets are alike but for one bit.")
RULE = "A trace is one history replayed on a real book; every step compared. State = (loaded sheets, ever-loaded sheets, released)."
STATE_RULE = "reachable (loaded set, generation-0/≥1 per sheet, released, last load order) states per configuration"
ASSUMPTIONS = ["single-threaded use of one book (threads: C27)"]

_cache = {}


def data(kind):
    if kind not in _cache:
        ver = {"8": 80, "7": 70, "5": 50}[kind[0]]
        n = int(kind[1])
        if "p" in kind:        # physical order reversed
            d = corpus.rich(ver, n, extra_types=True, order=list(reversed(range(n + 2))))
        else:
            d = corpus.rich(ver, n, extra_types="x" in kind)
        if "o" in kind:
            import ole
            d = ole.simple(d)
        _cache[kind] = d
    return _cache[kind]


_eager = {}


def eager(kind, fmt, ragged):
    k = (kind, fmt, ragged)
    if k not in _eager:
        bk = open_bytes(data(kind), formatting_info=fmt, ragged_rows=ragged)
        _eager[k] = (bk.sheet_names(), [snap.sheet(s) for s in bk.sheets()], snap.book(bk))
    return _eager[k]


class Model(object):
    def __init__(self, n):
        self.n = n
        self.loaded = {}        # index -> object
        self.gen = [0] * n
        self.released = False
        self.held = []          # (index, object) every sheet object ever returned


def events(n, full=True):
    ev = []
    for i in range(n):
        ev += [("idx", i), ("name", i), ("unload", i), ("unloadname", i)]
        if full:
            ev += [("getitem", i), ("getname", i)]
    ev += [("all",), ("iter",), ("iter1",), ("release",), ("with",), ("withexc",), ("idx", n), ("badname",)]
    if full:
        ev += [("neg", 1), ("neg", n + 1), ("badget",)]
    return ev


class Drive(object):
    def __init__(self, cfg):
        self.kind, self.fmt, self.ragged = cfg
        self.names, self.sheets, self.book = eager(*cfg)
        self.bk = open_bytes(data(self.kind), formatting_info=self.fmt, ragged_rows=self.ragged, on_demand=True)
        self.m = Model(len(self.names))
        self.checked = {}

    def fail_static(self):
        bk, n = self.bk, self.m.n
        if bk.nsheets != n or bk.sheet_names() != self.names or not bk.on_demand:
            return "nsheets/sheet_names differ from the eager book: %r %r" % (bk.nsheets, bk.sheet_names())
        for i in range(n):
            for key in (i, self.names[i]):
                if bk.sheet_loaded(key) is not (i in self.m.loaded):
                    return "sheet_loaded(%r) is %r, should be %r" % (key, bk.sheet_loaded(key), i in self.m.loaded)
        return None

    def got(self, i, sh, what):
        """A sheet was returned for index i."""
        m = self.m
        if i in m.loaded:
            if sh is not m.loaded[i]:
                return "%s returned a different object for the loaded sheet %d" % (what, i)
        else:
            for j, o in m.held:
                if o is sh:
                    return "%s returned the unloaded object of sheet %d again" % (what, i)
            if sh.name != self.names[i] or sh.number != i:
                return "%s returned sheet %r number %r for index %d" % (what, sh.name, sh.number, i)
            d = snap.diff(snap.sheet(sh), self.sheets[i])
            if d:
                return "%s: sheet %d differs from the eager book's: %s" % (what, i, d)
            m.loaded[i] = sh
            m.gen[i] += 1
            m.held.append((i, sh))
        return None

    def want(self, i, fn, what):
        """fn should return sheet i, or raise as the machine says."""
        m = self.m
        ok = i in m.loaded or not m.released
        try:
            sh = fn()
        except XLRDError as e:
            return None if not ok else "%s raised XLRDError: %s" % (what, e)
        if not ok:
            return "%s returned a sheet after the resources were released" % what
        return self.got(i, sh, what)

    def step(self, ev):
        bk, m, n = self.bk, self.m, self.m.n
        op = ev[0]
        what = repr(tuple(ev))
        if op in ("idx", "getitem"):
            i = ev[1]
            fn = (lambda: bk.sheet_by_index(i)) if op == "idx" else (lambda: bk[i])
            if i >= n:
                try:
                    fn()
                except IndexError:
                    return None
                return "%s: no IndexError for index %d of %d" % (what, i, n)
            return self.want(i, fn, what)
        if op == "neg":
            i = n - ev[1]
            if i < 0:
                try:
                    bk.sheet_by_index(-ev[1])
                except (IndexError, XLRDError):
                    return None
                return "%s: no exception for index %d of %d sheets" % (what, -ev[1], n)
            ok = i in m.loaded or not m.released
            if i not in m.loaded:
                return None      # loading through a negative index is not promised
            return self.want(i, lambda: bk.sheet_by_index(-ev[1]), what)
        if op in ("name", "getname"):
            i = ev[1]
            nm = self.names[i]
            return self.want(i, (lambda: bk.sheet_by_name(nm)) if op == "name" else (lambda: bk[nm]), what)
        if op in ("badname", "badget"):
            for fn in ((lambda: bk.sheet_by_name("nope")) if op == "badname" else (lambda: bk["nope"]),
                       lambda: bk.sheet_loaded("nope"), lambda: bk.unload_sheet("nope")):
                try:
                    fn()
                except XLRDError:
                    continue
                return "%s: no XLRDError for an unknown name" % what
            return None
        if op in ("all", "iter", "iter1"):
            got = []
            err = None
            try:
                if op == "all":
                    got = bk.sheets()
                else:
                    for sh in bk:
                        got.append(sh)
                        if op == "iter1":
                            break
            except XLRDError as e:
                err = e
            todo = list(range(n)) if op != "iter1" else [0]
            must = [i for i in todo if i in m.loaded or not m.released]
            if op != "all":
                # iteration delivers sheets until the first that cannot be loaded
                must = list(itertools.takewhile(lambda i: i in m.loaded or not m.released, todo))
            if len(must) < len(todo):
                if err is None:
                    return "%s: no XLRDError after release with unloaded sheets" % what
                if op == "all":
                    return None
            elif err is not None:
                return "%s raised XLRDError: %s" % (what, err)
            if len(got) != len(must):
                return "%s gave %d sheets, should be %d" % (what, len(got), len(must))
            for i, sh in zip(must, got):
                f = self.got(i, sh, what)
                if f:
                    return f
            if op == "all":
                got.append(None)
                if bk.nsheets != n or len(bk.sheet_names()) != n or (n in m.loaded):
                    return "%s: the returned list is the book's own" % what
            return None
        if op in ("unload", "unloadname"):
            i = ev[1]
            bk.unload_sheet(i if op == "unload" else self.names[i])
            m.loaded.pop(i, None)
            return None
        if op == "release":
            bk.release_resources()
            m.released = True
            return None
        if op == "with":
            with bk as b2:
                if b2 is not bk:
                    return "with: a different object"
            m.released = True
            return None
        if op == "withexc":
            try:
                with bk:
                    raise KeyError("x")
            except KeyError:
                pass
            else:
                return "the with statement swallowed the exception"
            m.released = True
            return None
        raise AssertionError(op)

    def final(self):
        """Every sheet object ever handed out is still fully usable."""
        for i, sh in self.m.held:
            d = snap.diff(snap.sheet(sh), self.sheets[i])
            if d:
                return "sheet %d, loaded earlier, is no longer what it was: %s" % (i, d)
        d = snap.diff(snap.book(self.bk), self.book)
        if d:
            return "book-level data differ from the eager book: %s" % d
        return None

    def run(self, hist):
        f = self.fail_static()
        for ev in hist:
            if f:
                return f
            f = self.step(ev) or self.fail_static()
        return f or self.final()


class Life(Graph):
    name = "lifecycle to fixpoint"
    nshards = 8
    max_depth = 10

    def __init__(self, cfgs):
        self.cfgs = cfgs
        self.bound = "%d configurations, all reachable states" % len(cfgs)

    def init(self):
        return self.cfgs

    def build(self, cfg, hist):
        d = Drive(tuple(cfg))
        f = d.run([tuple(e) for e in hist])
        if f:
            return None, f
        m = d.m
        order = tuple(m.loaded)
        return (order, tuple(min(g, 2) for g in m.gen), m.released), None

    def events(self, cfg, key):
        return events(len(eager(*tuple(cfg))[0]))


class AllHist(Space):
    def __init__(self, cfg, depth):
        self.cfg, self.depth = cfg, depth
        self.name = "all histories %s" % (cfg,)
        self.bound = "every history of length %d over %d events" % (depth, len(events(len(eager(*cfg)[0]), False)))

    def gen(self):
        return itertools.product(events(len(eager(*self.cfg)[0]), False), repeat=self.depth)

    def judge(self, hist):
        d = Drive(self.cfg)
        f = d.run(hist)
        return Result(f, outcome=(tuple(d.m.loaded), tuple(d.m.gen), d.m.released), steps=len(hist))


class Twins(Space):
    """Two sheets that are alike but for one bit."""
    batch = 8

    def __init__(self, vers, bits):
        self.vers, self.bits = vers, bits
        self.name = "sheets alike but for one bit"
        self.bound = "BIFF%s: every byte of the second sheet altered in bit %s, loaded alone, after the first sheet, after it was loaded and unloaded, twice, and eagerly" % (
            "/".join(map(str, vers)), "/".join(map(str, bits)))

    def gen(self):
        for v in self.vers:
            d = corpus.twin(v, same=True)
            for p in range(d.rindex(B.bof(v, B.SHEET)), len(d)):
                for b in self.bits:
                    yield v, p, b

    def judge(self, case):
        v, p, b = case
        d = bytearray(corpus.twin(v, same=True))
        d[p] ^= 1 << b
        d = bytes(d)

        def second(how):
            try:
                bk = open_bytes(d, formatting_info=True, ragged_rows=True, on_demand=how != "eagerly")
                if how not in ("alone", "eagerly"):
                    bk.sheet_by_index(0)
                if how == "after the first was loaded and unloaded":
                    bk.unload_sheet(0)
                sh = bk.sheet_by_index(1)
                if how == "twice":
                    bk.unload_sheet(1)
                    sh = bk.sheet_by_index(1)
                return snap.sheet(sh)
            except Exception as e:
                return type(e).__name__
        want = second("alone")
        for how in ("eagerly", "after the first", "after the first was loaded and unloaded", "twice"):
            got = second(how)
            if got != want:
                return Result("BIFF%d, byte %d of the second sheet altered in bit %d: loaded %s it differs from the same sheet loaded alone: %s" % (
                    v, p, b, how, (got, want) if isinstance(got, str) or isinstance(want, str) else snap.diff(got, want)), evals=5)
        return Result(None, outcome=case, nontrivial=not isinstance(want, str), evals=5)


def spaces(tier):
    q = tier == "quick"
    cf = [("81", False, False), ("82x", True, False), ("82p", False, True), ("52", False, False), ("72p", True, False)]
    if not q:
        cf += [("83", True, False), ("83p", False, True), ("53", True, False), ("73p", False, False), ("83o", False, False)]
    out = [Life(cf)]
    out.append(AllHist(("82p", True, False), 3 if q else 4))
    out.append(Twins((50, 80) if q else (50, 70, 80), range(8)))
    if not q:
        out.append(AllHist(("53", False, True), 3))
    return out
