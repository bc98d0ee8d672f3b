"""C06: OLE2 streams come back byte for byte from every legal sector layout."""
import itertools
import sys
import biff as B, ole
import mc
from mc import Space, Result
from ole import Doc, Entry
from xl import *
from xlrd.compdoc import CompDoc, CompDocError

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of OLE2 sector placements, sizes and directory trees, each file read by the real code and compared with the written streams"
NOTE = ("An independent OLE2 writer lays out the same streams in every permutation of the physical sectors (streams, short-stream container, "
        "both allocation tables, directory, unused sectors), every short-sector permutation, all sizes around sector and threshold edges, all search "
        "trees of up to five directory entries and MSAT-extension layouts; CompDoc.get_named_stream and locate_named_stream and open_workbook "
        "must give back exactly the written bytes.")
RULE = "A case is one container file; every stream of it is read both ways and compared byte by byte."
ASSUMPTIONS = ["header block of 512 bytes with sector n at 512 + n*size (version 3 files)", "each stream is asked for once per CompDoc"]


def content(tag, n):
    return bytes((tag * 37 + i * 7 + (i >> 8) * 13) & 0xFF for i in range(n))


def want_streams(entries, prefix=""):
    out = []
    for e in entries:
        if e.etype == 2:
            out.append((prefix + e.name, e.data))
        out += want_streams(e.kids, prefix + e.name + "/")
    return out


def check(mem, streams, missing=("Nope",), storages=(), strings=True):
    for kind in ("get", "locate"):
        cd = CompDoc(mem, logfile=NULL)
        for q, data in streams:
            if kind == "get":
                got = cd.get_named_stream(q)
            else:
                m, base, n = cd.locate_named_stream(q)
                if m is None:
                    got = None
                else:
                    got = m[base:base + n]
                    if n != len(data):
                        return "locate_named_stream(%r): length %r, should be %d" % (q, n, len(data))
            if not data and got is not None:
                got = bytes(got or b"")
            if got != data:
                return "%s_named_stream(%r): %s" % (kind, q, "not found" if got is None else describe(got, data))
        for q in missing:
            r = cd.get_named_stream(q) if kind == "get" else cd.locate_named_stream(q)
            if r not in (None, (None, 0, 0)):
                return "%s_named_stream(%r) of a missing stream: %.60r" % (kind, q, r)
        for q in storages:
            try:
                r = cd.get_named_stream(q) if kind == "get" else cd.locate_named_stream(q)
            except CompDocError:
                continue
            return "%s_named_stream(%r) of a storage gave %.60r" % (kind, q, r)
    return None


def describe(got, data):
    n = next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), min(len(got), len(data)))
    return "%d bytes instead of %d, first difference at %d" % (len(got), len(data), n)


def permute(perm):
    """slot_order placing the first len(perm) sectors according to perm, the rest in place."""
    return lambda n: list(perm) + list(range(len(perm), n))


class Perms(Space):
    """All permutations of the physical sectors of a small file."""

    def __init__(self, name, shape, n):
        self.name, self.shape, self.n = name, shape, n
        self.bound = "%d! placements" % n

    def gen(self):
        return itertools.permutations(range(self.n))

    def judge(self, perm):
        ents, kw = self.shape()
        d = Doc(ents, slot_order=lambda n: list(perm), **kw)
        mem = d.build()
        assert d.total == self.n, d.total
        return Result(check(mem, want_streams(ents)), outcome=perm)


def shape7():       # 3 + 1 + 1 + 1 + 1 = 7
    return [Entry("Workbook", content(1, 1400)), Entry("b", content(2, 130))], dict(cutoff=512)


def shape7b():      # two interleaved long streams 2+2+dir+free+sat
    return [Entry("Workbook", content(1, 1024)), Entry("b", content(2, 1000))], dict(cutoff=512, extra_free=1)


def shape7c():      # two SSCS sectors, two directory sectors
    return [Entry("Workbook", content(1, 520)), Entry("x", content(2, 500)), Entry("y", content(3, 100)),
            Entry("z", content(4, 0))], dict(cutoff=521)


def shape8():       # stream 2, sscs 2, ssat 1, dir 2, sat 1
    return [Entry("Workbook", content(1, 1024)), Entry("x", content(2, 500)), Entry("y", content(3, 100)),
            Entry("z", content(4, 65))], dict(cutoff=512)


def shape9():       # stream 3, stream 1, sscs 1, ssat 1, dir 2, sat 1
    return [Entry("Workbook", content(1, 1400)), Entry("x", content(2, 400)), Entry("y", content(3, 512)),
            Entry("z", content(4, 1))], dict(cutoff=512)


class Sizes(Space):
    name = "stream sizes"

    def __init__(self, q):
        self.q = q
        self.bound = "every size of one stream, crossed with a second stream and the threshold, 128- and 512-byte sectors"

    def gen(self):
        for ssz, sssz in ((7, 6), (7, 5), (7, 7), (9, 6), (8, 6)) + (() if self.q else ((9, 7), (10, 6), (12, 6), (11, 8))):
            S, SS = 1 << ssz, 1 << sssz
            for cutoff in (1, S, 3 * SS, 4 * S, 4096):
                if S <= 128 or not self.q:
                    top = 5 * S + 3 if S <= 512 else 0
                    sizes = set(range(0, top + 1, 1 if S <= 256 else 3))
                else:
                    sizes = set()
                for k in range(0, 9):
                    for d in (-1, 0, 1):
                        sizes |= {k * S + d, k * SS + d, cutoff + d, cutoff + k * S + d}
                for n in sorted(x for x in sizes if x >= 0):
                    for m in (0, 1, SS, cutoff - 1, cutoff, cutoff + S + 1):
                        yield ssz, sssz, cutoff, n, m

    def judge(self, case):
        ssz, sssz, cutoff, n, m = case
        ents = [Entry("Workbook", content(1, n)), Entry("other", content(2, m))]
        rev = (n + m) & 1
        d = Doc(ents, ssz=ssz, sssz=sssz, cutoff=cutoff, slot_order=(lambda k: list(range(k))[::-1]) if rev else None)
        mem = d.build()
        return Result(check(mem, want_streams(ents)), outcome=(d.total, len(mem), n), evals=4)


class BigSectors(Space):
    name = "large sectors"
    bound = "sector sizes 2**10..2**20 x short sector sizes 2**5..2**12, stream sizes around both, both orders"
    case_limit = 60
    batch = 4

    def gen(self):
        for ssz in range(10, 21):
            for sssz in (5, 6, 9, 12) if ssz < 18 else (6,):
                if sssz <= ssz:
                    for k in (0, 1) if ssz < 18 else (1,):
                        for d in (-1, 0, 1):
                            yield ssz, sssz, k, d

    def judge(self, case):
        ssz, sssz, k, dd = case
        S, SS = 1 << ssz, 1 << sssz
        n = S + dd if k else 2 * SS + dd
        ents = [Entry("Workbook", content(1, 5000) * (n // 5000) + content(3, n % 5000)), Entry("other", content(2, SS + 1))]
        d = Doc(ents, ssz=ssz, sssz=sssz, cutoff=4096, slot_order=(lambda n: list(range(n))[::-1]) if dd else None)
        mem = d.build()
        return Result(check(mem, want_streams(ents)), outcome=(d.total, len(mem), n), evals=4)


class Shorts(Space):
    """Short-sector permutations crossed with the placement of the container itself."""
    name = "short streams"

    def __init__(self, q):
        self.q = q
        self.bound = "all permutations of %d short sectors x all placements of the container's and SSAT's sectors" % (5 if q else 6)

    def gen(self):
        n = 5 if self.q else 6
        return itertools.product(itertools.permutations(range(n)), itertools.permutations(range(4 if self.q else 5)))

    def judge(self, case):
        sp, perm = case
        x = len(sp) - 3
        ents = [Entry("Workbook", content(1, 64 * (x - 1) + 60)), Entry("b", content(2, 128)), Entry("c", content(3, 5))]
        d = Doc(ents, ssz=7, short_order=lambda n: list(sp), slot_order=permute(perm))
        mem = d.build()
        return Result(check(mem, want_streams(ents)), outcome=(d.sblob,))


NAMES = ["Workbook", "Ole", "CompObj", "\x05SummaryInformation", "\xc4rger", "\u0416x"]


class Trees(Space):
    name = "directory trees"

    def __init__(self, q):
        self.q = q
        self.bound = "every search tree over up to %d entries x every entry order (n<=4), nested storages, letter case variants" % (5 if q else 6)

    def gen(self):
        top = 5 if self.q else 6
        for n in range(1, top + 1):
            for t in range(len(list(ole.all_trees(list(range(n)))))):
                for order in (itertools.permutations(range(n)) if n <= 4 else [tuple(range(n)), tuple(range(n))[::-1]]):
                    yield n, t, order, 0
        for n in range(1, 4):
            for t in range(len(list(ole.all_trees(list(range(n)))))):
                for depth in range(1, 4 if self.q else 7):
                    for size in (10, 5000):
                        yield n, t, tuple(range(n)), (depth, size)

    def judge(self, case):
        n, t, order, nest = case
        tree = lambda idx: list(ole.all_trees(idx))[t] if len(idx) == n else ole.balanced(idx)
        names = [NAMES[i] for i in order]
        ents = [Entry(nm, content(i + 1, 30 + i)) for i, nm in enumerate(names)]
        storages = []
        if nest:
            depth, size = nest
            inner = ents + [Entry("Deep", content(9, size))]
            path = ""
            for k in range(depth):
                inner = [Entry("Sto%d" % k, kids=inner)] + ([Entry("Workbook", content(20 + k, 40 + k))] if k else [])
            # paths of the storages
            def walk(es, pre):
                for e in es:
                    if e.etype == 1:
                        storages.append(pre + e.name)
                        walk(e.kids, pre + e.name + "/")
            walk(inner, "")
            ents = inner
        d = Doc(ents, tree=tree)
        mem = d.build()
        streams = want_streams(ents)
        for f in (str, str.upper, str.lower, str.swapcase):
            # a stream may be asked for in any letter case
            fail = check(mem, [(f(q), data) for q, data in streams], missing=["Nope", "Workboo", "WorkbookX"] +
                         [q + "/x" for q in storages], storages=storages)
            if fail:
                return Result("names as %s: %s" % (f.__name__, fail))
        return Result(None, outcome=tuple((e.left, e.right, e.root) for e in d.ents), evals=8)


class Msat(Space):
    name = "MSAT extension"
    case_limit = 120

    def __init__(self, q):
        self.q = q
        self.bound = "allocation tables of 1..4 and 107..%d sectors (extension starts at 110, second extension sector at 141), four placements" % (112 if q else 175)

    def gen(self):
        rng = [1, 2, 3, 4, 108, 109, 110, 111, 112, 139, 140, 141, 142] if self.q else list(range(1, 176))
        for nsat in rng:
            for place in ("natural", "reversed", "interleaved", "tables first"):
                for edge in (0, 1):      # the last allocation table sector: just begun / completely full
                    yield nsat, place, edge

    def judge(self, case):
        nsat, place, edge = case
        nent = 32
        total = (nsat - 1) * nent + (3 if not edge else nent)
        nx = max(0, -(-(nsat - 109) // (nent - 1)))
        # directory: root + 2 streams = 3 sectors; free 1
        room = total - nsat - nx - 3 - 1
        if room < 2:
            return Result(None, nontrivial=False)
        a = room // 3 + 1
        b = room - a
        ents = [Entry("Workbook", content(1, b * 128 - 3)), Entry("b", content(2, a * 128))]
        order = {"natural": None, "reversed": lambda n: list(range(n))[::-1],
                 "interleaved": lambda n: list(range(0, n, 2)) + list(range(1, n, 2))[::-1],
                 "tables first": lambda n: list(range(n - (n - 40), n)) + list(range(0, n - (n - 40)))
                 if n > 40 else list(range(n))}[place]
        d = Doc(ents, ssz=7, cutoff=64, extra_free=1, slot_order=order)
        mem = d.build()
        if (len(d.where["sat"]), len(d.where["msatx"])) != (nsat, nx):
            raise AssertionError("harness: %d/%d SAT sectors" % (len(d.where["sat"]), len(d.where["msatx"])))
        return Result(check(mem, want_streams(ents)), outcome=(nsat, nx, place, edge), evals=2)


class ManyEntries(Space):
    name = "large directories"
    bound = "1..6, 120..130 and 240..260 (thorough 500..520) entries, stream at the first, last and every 50th entry"

    def __init__(self, q):
        self.q = q

    def gen(self):
        for n in list(range(1, 7)) + list(range(120, 131)) + list(range(240, 261)) + ([] if self.q else list(range(500, 521))):
            for at in sorted({0, n - 1} | set(range(0, n, 50))):
                for size in (100, 600):
                    yield n, at, size

    def judge(self, case):
        n, at, size = case
        ents = [Entry("s%05d" % i, content(i, 20)) for i in range(n)]
        ents[at] = Entry("Workbook", content(5, size))
        d = Doc(ents, cutoff=512)
        return Result(check(d.build(), want_streams(ents)), outcome=(n, at))


def chain(kind):
    """A search tree as deep as it has nodes."""
    def tree(idx):
        links, a = {}, list(idx)
        lo, hi = 0, len(a) - 1
        root = up = side = -1
        k = 0
        while lo <= hi:
            right = kind == "right" or kind == "zigzag" and k % 2 == 0
            d = a[lo] if right else a[hi]           # everything else lies on one side of it
            links[d] = (-1, -1)
            if up < 0:
                root = d
            else:
                links[up] = (d, -1) if side else (-1, d)
            up, side = d, not right
            if right:
                lo += 1
            else:
                hi -= 1
            k += 1
        return root, links
    return tree


class DeepTrees(Space):
    """Search trees and nestings as deep as the directory is long."""
    name = "degenerate directory trees"
    case_limit = 120

    def __init__(self, q):
        self.sizes = (1, 2, 3, 10, 100, 400, 900, 980, 1000, 1020, 1500) + (() if q else tuple(range(940, 1060)) + (3000, 10000))
        self.bound = "trees all right, all left or zigzag, and storages nested in one another; up to %d entries; stream first, in the middle or last" % max(self.sizes)

    def gen(self):
        for n in self.sizes:
            for kind in ("right", "left", "zigzag", "nested"):
                for at in sorted({0, n // 2, n - 1}):
                    yield n, kind, at

    def judge(self, case):
        n, kind, at = case
        data = content(5, 600)
        if kind == "nested":
            inner = Entry("deep", content(1, 20))
            for i in range(n):
                inner = Entry("s%05d" % i, kids=[inner])
            ents = [Entry("Workbook", data), inner]
            if at:
                ents.reverse()
            want = [("wORKBOOK", data)]
            tree = None
        else:
            ents = [Entry("s%05d" % i, content(i, 20)) for i in range(n)]
            ents[at] = Entry("t%05d" % at, data)
            want = [(ents[i].name, ents[i].data) for i in sorted({0, n // 2, n - 1, at})]
            tree = chain(kind)
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(10 * n + old)         # for the writer
        try:
            mem = Doc(ents, cutoff=512, tree=tree).build()
        finally:
            sys.setrecursionlimit(old)
        try:
            bad = check(mem, want)
        except mc.Hang:
            raise
        except Exception as e:
            bad = "%s: %s" % (type(e).__name__, e)
        return Result(bad and "%d entries, %s, stream at %d: %s" % (n, kind, at, bad), outcome=case)


class OpenBook(Space):
    name = "workbook inside the container"

    def __init__(self, q):
        self.q = q
        self.bound = "stream names in any case, with and without the other name present, every rotation and reversal of the sectors"

    def gen(self):
        for ver in (50, 70, 80):
            for names in (("Workbook",), ("Book",), ("WORKBOOK",), ("book",), ("Workbook", "Book"), ("Book", "Workbook")):
                for cutoff in (64, 4096):
                    for rot in range(0, 14, 3 if self.q else 1):
                        for rev in (0, 1):
                            yield ver, names, cutoff, rot, rev

    def judge(self, case):
        ver, names, cutoff, rot, rev = case
        def wb(tag):
            return B.workbook(ver, [B.Sh("S%d%s" % (i, tag), b"".join(B.number(ver, r, i, r + i * 100.5, 0) for r in range(20)))
                                    for i in range(3)], pre=B.font(ver) + B.xf(ver))
        ents = [Entry(nm, wb(nm[0].lower())) for nm in names] + [Entry("junk", content(1, 700))]
        def order(n):
            o = [(i + rot) % n for i in range(n)]
            return o[::-1] if rev else o
        mem = Doc(ents, cutoff=cutoff, slot_order=order).build()
        tag = "w" if "w" in [x[0].lower() for x in names] else "b"
        for od in (False, True):
            bk = open_bytes(mem, on_demand=od)
            if bk.sheet_names() != ["S%d%s" % (i, tag) for i in range(3)]:
                return Result("sheet names %r (expected stream %r)" % (bk.sheet_names(), tag))
            for i, sh in enumerate(bk.sheets()):
                want = [[(0, "")] * i + [(2, r + i * 100.5)] for r in range(20)]
                if grid(sh) != want:
                    return Result("sheet %d: cells differ" % i)
        return Result(None, outcome=(ver, names, tag), evals=2)


def spaces(tier):
    q = tier == "quick"
    out = [Perms("placements: one long, one short stream", shape7, 7),
           Perms("placements: two long streams, free sector", shape7b, 7)]
    out.append(Perms("placements: two container and directory sectors", shape8, 8))
    out.append(Perms("placements: everything but the long stream in several sectors", shape7c, 7))
    if not q:
        out.append(Perms("placements: nine sectors", shape9, 9))
    out += [Sizes(q), BigSectors(), Shorts(q), Trees(q), Msat(q), ManyEntries(q), DeepTrees(q), OpenBook(q)]
    return out
