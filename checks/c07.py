"""C07: corrupt OLE2 structures are reported, never hang, never give another stream's bytes."""
import itertools
from struct import unpack, pack, error as struct_error
import ole
from mc import Space, Result
from ole import Doc, Entry
from xl import *
from xlrd.compdoc import CompDoc
from checks.c06 import content

ID = "C07"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of corrupted allocation tables, directory links and header fields against an independent strict reader"
NOTE = ("Every assignment of allocation-table entries over a small sector set, every combination of directory links of up to four entries, every value "
        "class (alone and in pairs) of each header and directory field, and every truncation point are read by the real code under a time and "
        "memory limit; whatever it returns without an exception or a logged WARNING must be what an independent strict reader finds, and what "
        "the strict reader accepts must be returned.")
RULE = "A case is one (possibly corrupt) container; each stream is read through both calls. Non-trivial: the strict reader rejects it or its bytes differ from the original."
ASSUMPTIONS = ["512-byte header block", "two short streams sharing short sectors is not claimed to be detected",
               "the tolerated holes (FREESID/EOCSID) in the master table are skipped by both readers",
               "a chain longer than the stream's size may be accepted (the size decides) or rejected"]


class Bad(Exception):
    pass


class Strict(object):
    """Reads a container, refusing every inconsistency on the way to the wanted stream."""

    def __init__(self, mem):
        if mem[:8] != ole.SIG or mem[28:30] != b"\xFE\xFF":
            raise Bad("signature")
        ssz, sssz = unpack("<HH", mem[30:34])
        if not 5 <= ssz <= 20 or sssz > ssz:
            raise Bad("sector sizes")
        self.mem, self.S, self.SS = mem, 1 << ssz, 1 << sssz
        _, dirsid, _, self.cutoff, ssat_sid, ssat_n, x_sid, x_n = unpack("<8i", mem[44:76])
        self.nsec = (len(mem) - 512 + self.S - 1) // self.S
        if (len(mem) - 512) % self.S:
            raise Bad("partial sector")
        self.owner = {}
        nent = self.S // 4
        msat = list(unpack("<109i", mem[76:512]))
        if not (x_n == 0 and x_sid in (-2, -1, 0)):
            s = x_sid
            while s not in (-2, -1, -4):
                self.own(s, "msatx")
                blk = list(unpack("<%di" % nent, self.sector(s)))
                s = blk.pop()
                msat += blk
        self.sat = []
        for s in msat:
            if s in (-1, -2):
                continue
            self.own(s, "sat")
            self.sat += unpack("<%di" % nent, self.sector(s))
        d = b"".join(self.sector(s) for s in self.chain(dirsid, "dir"))
        if len(d) % 128 or not d:
            raise Bad("directory size")
        self.ents = []
        for i in range(0, len(d), 128):
            e = d[i:i + 128]
            cb, et, _, l, r, root = unpack("<HBBiii", e[64:80])
            sid, size = unpack("<ii", e[116:124])
            if et not in (0, 1, 2, 5) and 0:
                raise Bad("entry type")
            try:
                name = e[:max(cb - 2, 0)].decode("utf_16_le") if cb else ""
                if cb == 1:
                    name = e[0:-1].decode("utf_16_le")
            except UnicodeDecodeError:
                raise Bad("entry name")
            self.ents.append((name, et, l, r, root, sid, size))
        self.kids = {}
        self.reached = {0}
        self.tree(0, self.ents[0][4], 0)
        root = self.ents[0]
        if root[1] != 5:
            raise Bad("root type")
        self.sscs = b""
        self.ssat = []
        if root[5] >= 0 and root[6] != 0:
            if root[6] < 0:
                raise Bad("container size")
            self.sscs = self.cut(self.chain(root[5], "sscs"), root[6])
        if root[6] > 0:
            ids = []
            s = ssat_sid
            while s >= 0 and len(ids) < ssat_n:
                self.own(s, "ssat")
                ids.append(s)
                s = self.nxt(s)
            if len(ids) != ssat_n or s != -2:
                raise Bad("short table chain")
            for s in ids:
                self.ssat += unpack("<%di" % nent, self.sector(s))

    def tree(self, parent, did, depth):
        if did < 0:
            return
        if did >= len(self.ents) or did in self.reached or depth > 400:
            raise Bad("directory links")
        self.reached.add(did)
        name, et, l, r, root, sid, size = self.ents[did]
        self.tree(parent, l, depth + 1)
        self.kids.setdefault(parent, []).append(did)
        self.tree(parent, r, depth + 1)
        if et == 1:
            self.tree(did, root, depth + 1)

    def own(self, s, who):
        if not 0 <= s < self.nsec:
            raise Bad("%s: sector %d outside the file" % (who, s))
        if s in self.owner:
            raise Bad("%s: sector %d already used by %s" % (who, s, self.owner[s]))
        self.owner[s] = who

    def nxt(self, s):
        if s >= len(self.sat):
            raise Bad("sector %d has no table entry" % s)
        return self.sat[s]

    def sector(self, s):
        return self.mem[512 + s * self.S:512 + (s + 1) * self.S]

    def chain(self, s, who):
        out = []
        while s != -2:
            if s < 0:
                raise Bad("%s: chain value %d" % (who, s))
            self.own(s, who)
            out.append(s)
            s = self.nxt(s)
        return out

    def cut(self, ids, size):
        need = -(-size // self.S)
        if len(ids) < need:
            raise Bad("chain too short")
        self.long = len(ids) > need
        return b"".join(self.sector(s) for s in ids)[:size]

    def stream(self, q):
        """None, or the bytes; self.long tells that the chain is longer than the size needs."""
        self.long = False
        at = 0
        parts = q.split("/")
        while True:
            head, parts = parts[0], parts[1:]
            for did in self.kids.get(at, []):
                if self.ents[did][0].lower() == head.lower():
                    break
            else:
                return None
            et = self.ents[did][1]
            if et == 2:
                break
            if et != 1 or not parts:
                raise Bad("not a stream")
            at = did
        name, et, l, r, root, sid, size = self.ents[did]
        if size < 0:
            raise Bad("stream size")
        if size >= self.cutoff:
            return self.cut(self.chain(sid, q), size)
        ids, s, nshort = [], sid, len(self.sscs)
        while s != -2:
            if s < 0 or s >= len(self.ssat) or s in ids:
                raise Bad("short chain")
            ids.append(s)
            s = self.ssat[s]
        need = -(-size // self.SS)
        if len(ids) < need:
            raise Bad("short chain too short")
        self.long = len(ids) > need
        out = b"".join(self.sscs[i * self.SS:(i + 1) * self.SS] for i in ids[:need])[:size]
        if len(out) != size or any(len(self.sscs) < i * self.SS + 1 for i in ids[:need]):
            raise Bad("short sector outside the container")
        # a short read in the middle shifts what follows
        for k, i in enumerate(ids[:need]):
            want = min(self.SS, size - k * self.SS)
            if len(self.sscs[i * self.SS:i * self.SS + want]) != want:
                raise Bad("short sector outside the container")
        return out


class Log(object):
    def __init__(self):
        self.warned = False

    def write(self, s):
        if "WARNING" in s:
            self.warned = True

    def flush(self):
        pass


def compare(mem, names, seq=False):
    """Both calls on each name (each on a fresh document unless seq), against the strict reader."""
    outs = []
    nbad = 0
    for kind in ("get", "locate"):
        groups = [names] if seq else [[n] for n in names]
        for group in groups:
            try:
                st = Strict(mem)
            except (Bad, ValueError, IndexError, RecursionError, struct_error) as e:
                st, why = None, e
            log = Log()
            try:
                cd = CompDoc(mem, logfile=log)
            except MemoryError:
                return "opening: MemoryError", outs, nbad
            except Exception as e:
                if st is not None:
                    return "%s on opening a consistent container: %s" % (type(e).__name__, e), outs, nbad
                outs.append(type(e).__name__)
                nbad += 1
                continue
            for q in group:
                try:
                    want = st.stream(q) if st is not None else Bad(why)
                except Bad as e:
                    want = e
                try:
                    if kind == "get":
                        got = cd.get_named_stream(q)
                    else:
                        m, base, n = cd.locate_named_stream(q)
                        got = None if m is None else m[base:base + n]
                        if m is not None and len(got) != n and not log.warned:
                            return "locate(%r): length %r but only %d bytes there" % (q, n, len(got)), outs, nbad
                except MemoryError:
                    return "reading %r: MemoryError" % q, outs, nbad
                except Exception as e:
                    if not isinstance(want, Bad) and not st.long and want != b"":
                        return "%s(%r) of a consistent container raised %s: %s" % (kind, q, type(e).__name__, e), outs, nbad
                    outs.append(type(e).__name__)
                    nbad += isinstance(want, Bad)
                    if seq:
                        break
                    continue
                if isinstance(want, Bad):
                    nbad += 1
                    if not log.warned:
                        return "%s(%r): %d bytes returned without a word although: %s" % (
                            kind, q, -1 if got is None else len(got), want), outs, nbad
                    outs.append("warned")
                    if seq:
                        break
                    continue
                if (got or b"") != (want or b"") or (got is None) != (want is None):
                    return "%s(%r): %s instead of %s" % (kind, q, sh(got), sh(want)), outs, nbad
                outs.append(len(want or b""))
    return None, outs, nbad


def sh(x):
    return "nothing" if x is None else "%d bytes %s..." % (len(x), bytes(x[:12]).hex())


def base(kind="std"):
    if kind == "std":       # sectors: stream 3, sscs 1, ssat 1, dir 1, sat 1
        d = Doc([Entry("Workbook", content(1, 1200)), Entry("b", content(2, 130))], cutoff=512)
    elif kind == "two":     # two long streams 2+2, dir 1, sat 1
        d = Doc([Entry("Workbook", content(1, 1024)), Entry("b", content(2, 1000))], cutoff=512)
    elif kind == "short":   # four short sectors
        d = Doc([Entry("Workbook", content(1, 200)), Entry("b", content(2, 60))], ssz=7, dirpad=0)
    elif kind == "x":       # MSAT extension
        d = Doc([Entry("Workbook", content(1, 128 * 3500))], ssz=7)
    d.build()
    return d


class Fields(Space):
    """Product of value classes over a list of fields of one base file."""

    def __init__(self, name, kind, fields, seq=False, names=("Workbook", "b")):
        self.name, self.kind, self.fields, self.seq, self.names = name, kind, fields, seq, list(names)
        n = 1
        for f, vals in fields:
            n *= len(vals)
        self.bound = "%d assignments of %s" % (n, ", ".join("%s:%d values" % (f[0] + str(f[1:]), len(v)) for f, v in fields))[:400]

    def gen(self):
        return itertools.product(*[v for f, v in self.fields])

    def judge(self, case):
        d = base(self.kind)
        apply(d, [f for f, v in self.fields], case)
        f, outs, nbad = compare(d.emit(), self.names, self.seq)
        return Result(f, outcome=tuple(outs), nontrivial=nbad > 0, evals=len(outs))


def apply(d, fields, vals):
    for f, v in zip(fields, vals):
        if v is None:
            continue
        if f[0] == "sat":
            d.sat[f[1]] = v
        elif f[0] == "ssat":
            d.ssat[f[1]] = v
        elif f[0] == "ent":
            setattr(d.ents[f[1]], f[2], v)
        elif f[0] == "head":
            d.fix[f[1]] = v
        elif f[0] == "msat":
            m = d.fix.setdefault("head_msat", (d.msat[:109] + [-1] * 109)[:109])
            m[f[1]] = v


def sids(n, more=()):
    return [-2, -1, -3, -5] + list(range(n)) + [n] + list(more)


def head_fields(d):
    n = d.total
    wide = [-2 ** 31, -6, -5, -4, -3, -2, -1] + list(range(n + 2)) + [127, 128, 129, 10000, 2 ** 31 - 1]
    return [(("head", "dir_sid"), wide), (("head", "ssat_sid"), wide), (("head", "ssat_n"), wide), (("head", "x_sid"), wide),
            (("head", "x_n"), wide), (("head", "sat_n"), wide), (("head", "cutoff"), wide + [60, 61, 130, 131, 512, 1199, 1200, 1201]),
            (("head", "ssz"), list(range(0, 24)) + [255, 256, 65535]), (("head", "sssz"), list(range(0, 24)) + [65535]),
            (("msat", 0), wide), (("msat", 1), wide), (("msat", 2), wide), (("msat", 108), wide),
            ] + [(("ent", i, a), wide if a != "size" else wide + [63, 64, 65, 130, 511, 512, 513, 1024, 1200, 1536, 1537])
                 for i in range(len(d.ents)) for a in ("sid", "size", "left", "right", "root")] + \
            [(("ent", i, "etype"), list(range(0, 8)) + [255]) for i in range(len(d.ents))]


class Pairs(Space):
    def __init__(self, kind, q):
        self.kind, self.q = kind, q
        self.name = "field pairs (%s)" % kind
        d = base(kind)
        self.fs = head_fields(d)
        if q:
            keep = {-2 ** 31, -5, -3, -2, -1, 0, 1, 2, 5, 6, 7, 9, 20, 128, 2 ** 31 - 1, 130, 512, 513, 1200, 3, 4}
            self.fs2 = [(f, [v for v in vs if v in keep]) for f, vs in self.fs]
        else:
            self.fs2 = self.fs
        self.bound = "every value class of every header and directory field alone, and all pairs (%d fields)" % len(self.fs)

    def gen(self):
        for i, (f, vs) in enumerate(self.fs):
            for v in vs:
                yield i, v, None, None
        for (i, (f, vs)), (j, (g, ws)) in itertools.combinations(enumerate(self.fs2), 2):
            for v in vs:
                for w in ws:
                    yield i, v, j, w

    def judge(self, case):
        i, v, j, w = case
        d = base(self.kind)
        apply(d, [self.fs[i][0]] + ([self.fs[j][0]] if j is not None else []), [v, w])
        f, outs, nbad = compare(d.emit(), ["Workbook", "b"])
        return Result(f, outcome=tuple(outs), nontrivial=nbad > 0, evals=len(outs))


class Links(Space):
    """Every assignment of directory links."""

    def __init__(self, n, vals, types):
        self.n, self.vals, self.types = n, vals, types
        self.name = "directory links, %d entries %s" % (n, types)
        self.bound = "all values in %s of every left/right/child link" % (vals,)

    def gen(self):
        k = 1 + sum(3 if t == 1 else 2 for t in self.types)
        return itertools.product(self.vals, repeat=k)

    def judge(self, case):
        ents = [Entry("Workbook" if i == 0 else "bcd"[i], content(i, 40 + i)) for i in range(self.n)]
        for e, t in zip(ents, self.types):
            e.etype = t
            if t == 1:
                e.data = None
        d = Doc(ents)
        d.build()
        it = iter(case)
        d.ents[0].root = next(it)
        for e in d.ents[1:]:
            e.left, e.right = next(it), next(it)
            if e.etype == 1:
                e.root = next(it)
        names = [e.name for e in d.ents[1:] if e.etype == 2] + ["%s/%s" % (s.name, e.name) for s in d.ents[1:] if s.etype == 1
                                                              for e in d.ents[1:] if e.etype == 2]
        f, outs, nbad = compare(d.emit(), names)
        return Result(f, outcome=tuple(outs), nontrivial=nbad > 0, evals=len(outs))


class BigGraphs(Space):
    name = "large hostile structures"
    case_limit = 30

    def __init__(self, q):
        self.q = q
        self.bound = "shared directory links to depth 60, chains of 1..3000 entries, allocation chains that loop late, every loop-back point"

    def gen(self):
        for n in (2, 3, 10, 20, 30, 40, 60):
            yield "dag", n, 0
            yield "dagsto", n, 0
        for n in (1, 100, 300, 3000):
            yield "left", n, 0
            yield "right", n, 0
            yield "sto", n, 0
        for n in (64, 65, 200) + (() if self.q else (1000,)):
            for back in sorted({0, 1, n // 2, n - 2, n - 1}):
                for what in ("std", "short", "dir", "sscs", "msatx"):
                    yield "loop " + what, n, back

    def judge(self, case):
        kind, n, back = case
        if kind in ("dag", "dagsto", "left", "right", "sto"):
            ents = [Entry("n%d" % i, content(i, 10)) for i in range(n)] + [Entry("Workbook", content(1, 99))]
            d = Doc(ents)
            d.build()
            for e in d.ents:
                e.left = e.right = e.root = -1
            d.ents[0].root = 1
            for i in range(1, n + 1):
                e = d.ents[i]
                if kind == "dag":
                    e.left = e.right = i + 1
                elif kind == "dagsto":
                    e.etype = 1
                    e.left = e.root = i + 1
                elif kind == "left":
                    e.left = i + 1
                elif kind == "right":
                    e.right = i + 1
                else:
                    e.etype = 1
                    e.root = i + 1
            names = ["Workbook"]
            mem = d.emit()
            if n == 3000:
                # only: it ends
                try:
                    CompDoc(mem, logfile=NULL).get_named_stream("Workbook")
                except Exception as e:
                    return Result(None, outcome=type(e).__name__)
                return Result(None, outcome="read")
        else:
            what = kind.split()[1]
            if what == "short":
                d = Doc([Entry("Workbook", content(1, n * 64 - 1))], cutoff=n * 64)
                d.build()
                d.ssat[n - 1] = back
            elif what == "std":
                d = Doc([Entry("Workbook", content(1, n * 512 - 1))], cutoff=64)
                d.build()
                d.sat[d.where[("s", 1)][n - 1]] = d.where[("s", 1)][back]
            elif what == "dir":
                d = Doc([Entry("Workbook", content(1, 99))] + [Entry("e%d" % i, content(1, 1)) for i in range(4 * n - 2)])
                d.build()
                ids = d.where["dir"]
                d.sat[ids[-1]] = ids[min(back, len(ids) - 1)]
            elif what == "sscs":
                d = Doc([Entry("Workbook", content(1, n * 512 - 1))], cutoff=n * 512)
                d.build()
                ids = d.where["sscs"]
                d.sat[ids[-1]] = ids[min(back, len(ids) - 1)]
            else:
                d = Doc([Entry("Workbook", content(1, 100000))], ssz=7, msatx_extra=n)
                d.build()
                mem = bytearray(d.emit())
                ids = d.where["msatx"]
                at = 512 + ids[-1] * 128 + 124
                mem[at:at + 4] = pack("<i", ids[min(back, len(ids) - 1)])
                d = None
            mem = bytes(mem) if d is None else d.emit()
        f, outs, nbad = compare(mem, ["Workbook"])
        return Result(f, outcome=(kind, tuple(outs)), nontrivial=True, evals=len(outs))


class Trunc(Space):
    name = "truncations"
    bound = "every length of three containers"

    def gen(self):
        for kind in ("std", "two", "short"):
            for n in range(len(base(kind).emit())):
                yield kind, n

    def judge(self, case):
        kind, n = case
        f, outs, nbad = compare(base(kind).emit()[:n], ["Workbook", "b"])
        return Result(f, outcome=(kind, tuple(outs)), nontrivial=nbad > 0, evals=len(outs))


class Master(Space):
    """Entries of the master table in the header and in its extension sectors."""
    name = "master table and extension sectors"
    case_limit = 20

    def __init__(self, q):
        self.q = q
        self.d = self.doc()
        n = self.d.total
        self.vals = [-2 ** 31, -5, -4, -3, -2, -1] + list(range(n + 1)) + [31, 32, 2 ** 31 - 1]
        self.at = [0, 1, 2, 108] + [(k, i) for k in range(3) for i in (0, 1, 30, 31)]
        self.bound = ("a container of %d sectors with three master-table extension sectors: every value class of %d table positions and of the "
                      "allocation entries of those sectors, alone and in pairs" % (n, len(self.at)))

    @staticmethod
    def doc():
        d = Doc([Entry("Workbook", content(1, 700)), Entry("b", content(2, 130))], ssz=7, cutoff=512, msatx_extra=3)
        d.build()
        return d

    def gen(self):
        for a in self.at:
            for v in self.vals:
                yield a, v, None, None
        few = [-5, -4, -2, -1, 31] + [self.d.where[c][0] for c in ("dir", "sat", "sscs", ("s", 1))] + self.d.where["msatx"] + [self.d.total]
        if not self.q:
            few = self.vals
        for a, b in itertools.combinations(self.at, 2):
            for v in few:
                for w in few:
                    yield a, v, b, w

    def judge(self, case):
        d = self.doc()
        mem = bytearray(d.emit())
        for a, v in (case[:2], case[2:]):
            if a is None:
                continue
            at = 76 + 4 * a if isinstance(a, int) else 512 + 128 * d.where["msatx"][a[0]] + 4 * a[1]
            mem[at:at + 4] = pack("<i", v)
        f, outs, nbad = compare(bytes(mem), ["Workbook", "b"])
        return Result(f, outcome=tuple(outs), nontrivial=nbad > 0, evals=len(outs))


class TruncMoved(Space):
    """A truncated container whose sectors are in any order: nothing moves into the place of what is missing."""
    name = "truncations of shuffled containers"

    def __init__(self, q):
        self.q = q
        self.bound = "two containers of seven sectors in %s placements, cut at %s" % ("840 (the order of three sectors fixed)" if q else "all", "every sector edge, one byte beside it and half a sector in")

    def gen(self):
        for shape, S in ((0, 512), (1, 256)):
            cuts = [s * S + k for s in range(7) for k in (1, S // 2, S - 1, S)]
            for perm in itertools.permutations(range(7)):
                if self.q and (perm[4:] != tuple(sorted(perm[4:])) if shape == 0 else perm[:3] != tuple(sorted(perm[:3]))):
                    continue
                for c in cuts:
                    yield shape, perm, c

    def judge(self, case):
        shape, perm, cut = case
        if shape == 0:      # stream 3, container, short table, directory, table
            data = {"Workbook": content(1, 1400), "b": content(2, 130), "c": content(3, 250)}
            kw = dict(cutoff=512)
        else:               # container 2, short table, directory 3, table
            data = dict((n, content(i, 41 + i)) for i, n in enumerate(["Workbook", "b", "c", "d", "e"]))
            kw = dict(ssz=8)
        d = Doc([Entry(k, v) for k, v in data.items()], slot_order=lambda n: list(perm), **kw)
        mem = d.build()[:512 + cut]
        assert d.total == 7
        outs = []
        for kind in ("get", "locate"):
            for q in data:
                try:
                    cd = CompDoc(mem, logfile=NULL)
                    if kind == "get":
                        got = cd.get_named_stream(q)
                    else:
                        m, base_, n = cd.locate_named_stream(q)
                        got = None if m is None else m[base_:base_ + n]
                except MemoryError:
                    return Result("MemoryError")
                except Exception as e:
                    outs.append(type(e).__name__)
                    continue
                if got is not None and not data[q].startswith(bytes(got or b"")):
                    return Result("%s(%r): %s" % (kind, q, "%d bytes that are not the beginning of the stream" % len(got)))
                outs.append(None if got is None else len(got))
        return Result(None, outcome=tuple(outs), evals=6)


class Tolerant(Space):
    """ignore_workbook_corruption: terminates, and gives the chain's bytes or an exception."""
    name = "ignore_workbook_corruption"

    def __init__(self, q):
        self.vals = sids(7, (128,)) if not q else [-2, -1, 0, 1, 2, 3, 4, 5, 6, 7]
        self.bound = "all successor graphs of the workbook stream's three sectors x its start (%d values each)" % len(self.vals)

    def gen(self):
        return itertools.product(self.vals, repeat=4)

    def judge(self, case):
        d = base("std")
        ids = d.where[("s", 1)]
        apply(d, [("sat", i) for i in ids] + [("ent", 1, "sid")], case)
        mem = d.emit()
        try:
            cd = CompDoc(mem, logfile=NULL, ignore_workbook_corruption=True)
            m, b, n = cd.locate_named_stream("Workbook")
            got = m[b:b + n]
        except Exception as e:
            # a chain that is right must be read
            chain, s = [], case[3]
            while 0 <= s < len(d.sat) and s not in chain and s < d.total:
                chain.append(s)
                s = d.sat[s]
            if s == -2 and len(chain) == 3:
                try:
                    Strict(mem)
                except Bad:
                    return Result(None, outcome=type(e).__name__)
                return Result("%s although the chain %r has the right length" % (type(e).__name__, chain))
            return Result(None, outcome=type(e).__name__)
        chain, s = [], case[3]
        for _ in range(3):
            if not 0 <= s < d.total:
                return Result("chain %r broken at %d but %d bytes returned" % (chain, s, len(got)))
            chain.append(s)
            s = d.sat[s]
        want = b"".join(mem[512 + 512 * i:1024 + 512 * i] for i in chain)[:1200]
        if got != want:
            return Result("not the bytes of the chain %r" % (chain,))
        return Result(None, outcome="read")


def spaces(tier):
    q = tier == "quick"
    d = base("std")
    ids = d.where[("s", 1)]
    out = []
    v = sids(d.total, (127, 128, 2 ** 31 - 1))
    vq = [-2, -1, -3, 0, 1, 2, 3, 5, 7, 128] if q else v
    out.append(Fields("successor graphs of the stream", "std", [(("ent", 1, "sid"), v)] + [(("sat", i), v if n < 2 or not q else vq) for n, i in enumerate(ids)]))
    other = [d.where[c][0] for c in ("sscs", "ssat", "dir")]
    out.append(Fields("successor graphs of the other structures", "std", [(("sat", i), v) for i in other] +
                      [(("ent", 0, "sid"), v if not q else vq)]))
    if not q:
        w = [-2, -1] + list(range(7)) + [7]
        out.append(Fields("successor graphs of all sectors", "std", [(("sat", i), w) for i in list(ids) + other]))
    two = base("two")
    w = [-2, -1, 0, 1, 2, 3, 4, 6] if q else sids(two.total, (128,))
    out.append(Fields("two streams sharing sectors", "two",
                      [(("sat", i), w) for i in two.where[("s", 1)] + two.where[("s", 2)]] +
                      ([(("ent", 2, "sid"), [None, 0, 1, 2, 4, 5, 6])] if q else [(("ent", 2, "sid"), [None] + w)]), seq=True))
    s = base("short")
    w = [-2, -1, 0, 1, 2, 3, 4, 5, 31, 32] if not q else [-2, -1, 0, 1, 2, 3, 4, 5, 32]
    out.append(Fields("short-stream successor graphs", "short", [(("ssat", i), w) for i in range(4)] +
                      [(("ent", 1, "sid"), w)] + ([] if q else [(("ent", 2, "sid"), w)])))
    out.append(Fields("short sizes and container sizes", "short", [(("ent", 1, "size"), [-65, -64, -5, -1] + list(range(0, 400, 1 if not q else 13)) + [4095, 4096]),
                      (("ent", 0, "size"), [-1, 0, 1, 63, 64, 65, 127, 128, 200, 255, 256, 257, 384, 10000]),
                      (("ent", 1, "sid"), [-2, 0, 1, 3, 4, 20])]))
    out += [Pairs("std", q), Pairs("short", q)]
    out.append(Links(2, (-2, -1, 0, 1, 2, 3, 2 ** 31 - 1), (2, 2)))
    out.append(Links(2, (-1, 0, 1, 2, 3), (2, 1)))
    out.append(Links(3, (-1, 0, 1, 2, 3) if q else (-1, 0, 1, 2, 3, 4), (2, 1, 2)) if not q else Links(3, (-1, 1, 2, 3), (2, 1, 2)))
    if not q:
        out.append(Links(3, (-1, 1, 2, 3), (2, 1, 1)))
    out += [BigGraphs(q), Trunc(), TruncMoved(q), Master(q), Tolerant(q)]
    return out
