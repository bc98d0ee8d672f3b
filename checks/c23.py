"""C23: damaged or encrypted files fail with an exception, never with a hang."""
import itertools
import os
import shutil
import signal
import tempfile
from struct import pack
import biff as B
import corpus
import mc
import ole
import recs
import snap
from mc import Space, Result
from xl import *

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "exhaustive fault injection: every truncation point and every byte position of the workbooks, every BOF variant, an encryption record at every boundary; outcome monitored under time and memory limits"
NOTE = ("Synthetic workbooks with every record kind in all nine versions, bare and in OLE2 containers (short-stream, contiguous, fragmented), and sample files: every cut, every byte altered. "
        "A cut file must raise or read exactly as the whole one. Every BOF opcode x version x stream type x length against the published table; all byte strings up to 2 bytes and short strings over the significant bytes.")
RULE = "A case is one cut or byte position (with all its replacement values) of one file; evaluations = files opened. Non-trivial: the damage falls inside what the file declares to be used."
ASSUMPTIONS = ["hang = no result for one damaged file within 20 s of CPU-bound work (undamaged: under 50 ms); memory exhaustion = more than 3 GB",
               "an 'ordinary exception' is any Exception but MemoryError"]
LIMIT = 20
VERS = (20, 21, 30, 40, 45, 50, 70, 80)
SAMPLES = os.path.join(mc.REPO, "tests", "samples")


def attempt(data, load=False, **kw):
    """("book", bk) / ("exc", exception name) / ("bad", text)"""
    mc.arm(LIMIT)
    try:
        bk = open_bytes(data, **kw)
        if load:
            for i in range(bk.nsheets):
                bk.sheet_by_index(i)
        return "book", bk
    except MemoryError:
        return "bad", "memory exhausted"
    except mc.Hang:
        return "bad", "no result within %d s" % LIMIT
    except Exception as e:
        return "exc", e
    except BaseException as e:
        return "bad", "raises %r, which is not an Exception" % (e,)


def files(which):
    """name -> bytes"""
    out = {}
    for ver in VERS:
        data = corpus.rich(ver) if "rich" in which else corpus.small(ver, 2)
        if "bare" in which:
            out["BIFF%d" % ver] = data
        if "ole" in which and ver >= 50:
            out["BIFF%d OLE" % ver] = ole.simple(data, name="Workbook" if ver >= 80 else "Book")
        if "big" in which and ver >= 50:
            extra = B.rec(0x4D, bytes(4200))
            st = recs.Stream(ver, data)
            big = st.insert({2: extra})
            out["BIFF%d OLE contiguous" % ver] = ole.simple(big)
            out["BIFF%d OLE fragmented" % ver] = ole.simple(big, slot_order=lambda n: list(range(n))[::-1])
    for f in which:
        if f.endswith(".xls"):
            with open(os.path.join(SAMPLES, f), "rb") as h:
                out[f] = h.read()
    return out


class Cut(Space):
    """All truncations."""
    case_limit = 600
    STEP = 16

    def __init__(self, name, which, modes):
        self.name, self.which, self.modes = name, which, modes
        self.bound = "every truncation of %s; opened %s" % (", ".join(sorted(files(which))), " / ".join(repr(m) for m in modes))

    def setup(self):
        self.f = files(self.which)
        self.ref = {}

    def gen(self):
        for n, d in files(self.which).items():
            for k in range(0, len(d), self.STEP):
                yield n, k

    def judge(self, case):
        n, k = case
        data = self.f[n]
        ev = 0
        kinds = set()
        for mode in self.modes:
            key = n, repr(mode)
            if key not in self.ref:
                self.ref[key] = snap.full(open_bytes(data, **mode))
            want = self.ref[key]
            for c in range(k, min(k + self.STEP, len(data))):
                ev += 1
                kind, val = attempt(data[:c], True, **mode)
                if kind == "bad":
                    return Result("%s cut at %d of %d (%r): %s" % (n, c, len(data), mode, val), evals=ev)
                kinds.add(kind if kind == "book" else type(val).__name__)
                if kind == "book":
                    bad = snap.diff(want, snap.full(val))
                    if bad:
                        return Result("%s cut at %d of %d (%r) is read without an error, but not as the whole file: %s" % (n, c, len(data), mode, bad), evals=ev)
        return Result(None, outcome=(case, tuple(sorted(kinds))), evals=ev, nontrivial="book" not in kinds)


ALL = range(256)


class Alter(Space):
    """Every byte position with replacement values."""
    case_limit = 3000
    batch = 4

    def __init__(self, name, which, values, modes, what):
        self.name, self.which, self.values, self.modes = name, which, values, modes
        self.bound = "every byte of %s replaced by %s; opened %s" % (", ".join(sorted(files(which))), what, " / ".join(repr(m) for m in modes))

    def setup(self):
        self.f = files(self.which)

    def gen(self):
        for n, d in files(self.which).items():
            for k in range(len(d)):
                yield n, k

    def judge(self, case):
        n, k = case
        data = bytearray(self.f[n])
        old = data[k]
        ev = 0
        kinds = set()
        for v in sorted(set(self.values(old)) - {old}):
            data[k] = v
            for mode in self.modes:
                ev += 1
                kind, val = attempt(bytes(data), True, **mode)
                if kind == "bad":
                    return Result("%s with byte %d changed from %02x to %02x (%r): %s" % (n, k, old, v, mode, val), evals=ev)
                kinds.add(kind if kind == "book" else type(val).__name__)
                val = None
        return Result(None, outcome=(case, tuple(sorted(kinds))), evals=ev, nontrivial=len(kinds) > 0)


class Windows(Space):
    """Two and four adjacent bytes to extreme values: every count and length field at its limits."""
    case_limit = 3000
    batch = 4
    VALUES = [b"\xff\xff", b"\xff\x7f", b"\0\x80", b"\0\0", b"\xff\xff\xff\xff", b"\xff\xff\xff\x7f", b"\0\0\0\x80", b"\0\0\0\0"]

    def __init__(self, name, which, modes):
        self.name, self.which, self.modes = name, which, modes
        self.bound = "every 2- and 4-byte window of %s set to each of %d extreme values" % (", ".join(sorted(files(which))), len(self.VALUES))

    def setup(self):
        self.f = files(self.which)

    def gen(self):
        for n, d in files(self.which).items():
            for k in range(len(d) - 1):
                yield n, k

    def judge(self, case):
        n, k = case
        data = self.f[n]
        ev = 0
        kinds = set()
        for v in self.VALUES:
            d = (data[:k] + v + data[k + len(v):])[:len(data)]
            if d == data:
                continue
            for mode in self.modes:
                ev += 1
                kind, val = attempt(d, True, **mode)
                if kind == "bad":
                    return Result("%s with bytes %d.. changed to %s (%r): %s" % (n, k, v.hex(), mode, val), evals=ev)
                kinds.add(kind if kind == "book" else type(val).__name__)
                val = None
        return Result(None, outcome=(case, tuple(sorted(kinds))), evals=ev)


# --- BOF variants ----------------------------------------------------------

def expected_version(op, v2, length, build, year):
    """Published meaning of a BOF record; None = no workbook version."""
    if op == 0x0009:
        return 21
    if op == 0x0209:
        return 30
    if op == 0x0409:
        return 40
    if op == 0x0809:
        return {0x0600: 80, 0x0500: 50 if year < 1994 or build in (2412, 3218, 3321) else 70}.get(v2)
    return None


class Bofs(Space):
    name = "BOF variants"
    bound = "opcode {0009,0209,0409,0809, and 60 others} x version field {0..7, 0x200..0x700, FFFF} x stream type {0..0x1FF, FFFF} x record length 0..24 (all lengths for the documented types), leading complete workbooks"
    OPS = (0x0009, 0x0209, 0x0409, 0x0809)
    V2 = (0, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x200, 0x300, 0x400, 0x500, 0x600, 0x601, 0x700, 0xFFFF)
    DOC = (0x05, 0x06, 0x10, 0x20, 0x40, 0x100)

    def gen(self):
        for op in self.OPS:
            for v2 in self.V2:
                yield "types", op, v2
                yield "lengths", op, v2
        for op in [o << 8 | 9 for o in range(256) if o not in (0, 2, 4, 8)] + [0, 0x000A, 0x0908, 0x0808, 0x0810, 0xFFFF]:
            yield "op", op, 0x0600

    def tail(self, op, ver):
        """What follows the BOF record in a workbook of that version."""
        v = ver or 80
        d = corpus.small(v)
        n = 4 + d[2] + d[3] * 256
        return n, d

    def judge(self, case):
        kind, op, v2 = case
        n = 0
        types = list(range(0x200)) + [0x0500, 0x1000, 0xFFFF] if kind == "types" else self.DOC
        lens = range(0, 25) if kind != "types" else ({0x0009: 4, 0x0209: 6, 0x0409: 6, 0x0809: 16}.get(op, 16),)
        for t in types:
            for ln in lens:
                for build, year in ((0x0DBB, 1996), (2412, 1995), (100, 1993)) if kind == "types" and t in self.DOC else ((0x0DBB, 1996),):
                    n += 1
                    # a BOF may be shorter than usual: what is left out counts as zero
                    b_, y_ = (build if ln >= 6 else 0), (year if ln >= 8 else (year & 0xFF if ln == 7 else 0))
                    ver = expected_version(op, v2, ln, b_, y_)
                    if ver == 40 and t == 0x100:
                        ver = 45
                    skip, d = self.tail(op, ver)
                    body = pack("<HHHH", v2, t, build, year) + pack("<II", 0, 0x306) + bytes(8)
                    bofrec = pack("<HH", op, ln) + body[:ln]
                    good = ver is not None and 4 <= ln <= 20 and (t == 0x10 if ver <= 40 else t == 0x100 if ver == 45 else t == 5)
                    data = bofrec + d[skip:]
                    if good and ver >= 45:
                        data = self.relocate(ver, d, bofrec)
                    k, val = attempt(data)
                    what = "BOF opcode %04x version %04x type %04x length %d build %d year %d: " % (op, v2, t, ln, build, year)
                    if k == "bad":
                        return Result(what + val, evals=n)
                    if good:
                        if k != "book":
                            return Result(what + "a readable BIFF%d workbook raises %r" % (ver, val), evals=n)
                        if val.biff_version not in (ver, {21: 20}.get(ver)):
                            return Result(what + "biff_version is %r, should be %d" % (val.biff_version, ver), evals=n)
                        continue
                    if k == "exc" and isinstance(val, XLRDError):
                        continue
                    # left open: other-than-documented version fields (third-party writers), worksheet BOFs below BIFF5 announcing globals
                    if op == 0x0809 and v2 in (0, 7, 0x200, 0x300, 0x400) and 4 <= ln <= 20 and t in (5, 0x10, 0x100):
                        continue
                    if ver is not None and ver <= 45 and t == 5 and 4 <= ln <= 20:
                        continue
                    if ver is not None and ver == 45 and t == 0x10:
                        continue
                    return Result(what + "%s instead of XLRDError" % ("a book is returned" if k == "book" else "raises %r" % (val,)), evals=n)
        return Result(None, outcome=case, evals=n)

    @staticmethod
    def relocate(ver, d, bofrec):
        """Workbook with its first BOF replaced by one of another length."""
        st = recs.Stream(ver, d)
        delta = len(bofrec) - 4 - len(st.recs[0].data)
        if delta >= 0:
            # same record positions relative to the rest: shift by inserting, then swap
            x = st.insert({1: bytes(delta)}) if delta else d
            return bofrec + x[4 + len(st.recs[0].data) + delta:]
        # shorter: drop bytes and move every declared position back
        out = bytearray(d)
        for r in st.recs:
            if r.code in (0x85, 0x8E) and (ver >= 50 or r.code == 0x8E):
                p = int.from_bytes(out[r.pos + 4:r.pos + 8], "little") + delta
                out[r.pos + 4:r.pos + 8] = p.to_bytes(4, "little")
        return bofrec + bytes(out[4 + len(st.recs[0].data):])


class SheetBofs(Space):
    name = "sheet BOF variants"
    bound = "the position a BIFF5-8 worksheet declaration points to: BOFs of every type 0..0x1FF, other records, loose bytes, positions outside the stream; eager and on demand"

    def gen(self):
        for ver in (50, 70, 80):
            for t in list(range(0x200)) + [0xFFFF]:
                yield ver, "type", t
            for k in range(40):
                yield ver, "pos", k

    def judge(self, case):
        ver, kind, k = case
        sh = [B.Sh("A", B.number(ver, 0, 0, 1.0)), B.Sh("B", B.number(ver, 0, 0, 2.0))]
        if kind == "type":
            sh[1].boftype = k
            good = k == 0x10
            data = B.workbook(ver, sh, pre=B.xf(ver))
        else:
            data = B.workbook(ver, sh, pre=B.xf(ver))
            st = recs.Stream(ver, data)
            b = [r for r in st.recs if r.code == 0x85][1]
            ends = [r.pos for r in st.recs]
            pos = (ends + [len(data) + d for d in (0, 1, 2, 3, 4, 100, 1 << 20, (1 << 31) - 1 - len(data))] + [-1, -2, -100, -(1 << 31)] + [p + 1 for p in ends] + [p + 2 for p in ends])
            if k >= len(pos):
                return Result(None, nontrivial=False, evals=0)
            p = pos[k]
            bofs = [r.pos for r in st.recs if r.code in recs.BOFS]
            good = p in bofs[1:]
            data = data[:b.pos + 4] + pack("<i", p) + data[b.pos + 8:]
        for od in (False, True):
            r, val = attempt(data, True, on_demand=od)
            if r == "bad":
                return Result("BIFF%d sheet %s %r: %s" % (ver, kind, k, val))
            if r == "book" and not good:
                return Result("BIFF%d sheet %s %r%s: read as a worksheet" % (ver, kind, k, " on demand" if od else ""))
            if good and r != "book":
                return Result("BIFF%d sheet %s %r%s: raises %r" % (ver, kind, k, " on demand" if od else "", val))
            if kind == "type" and not good and not isinstance(val, XLRDError):
                return Result("BIFF%d sheet BOF type 0x%x%s: raises %r instead of XLRDError" % (ver, k, " on demand" if od else "", val))
        return Result(None, outcome=case, evals=2)


class Encrypted(Space):
    name = "encrypted workbooks"
    bound = "FILEPASS of every documented kind before every record of the globals (BIFF5-8, 4W) or of the sheet (BIFF2-4), following records scrambled or not, verbosity 0..2, every option; Office encrypted packages"

    def gen(self):
        for ver in VERS:
            st = recs.Stream(ver, corpus.rich(ver))
            for i in st.boundaries():
                if ver < 50 and st.recs[i].depth == 1 or st.recs[i].seg == "globals":
                    if st.between(i):
                        continue
                    yield ver, i
        yield "package", 0

    @staticmethod
    def kinds(ver):
        if ver < 80:
            yield pack("<HH", 0x1234, 0xABCD)
            return
        yield pack("<HHH", 0, 0x1234, 0xABCD)
        yield pack("<HHH", 1, 1, 1) + bytes(range(48))
        for major in (2, 3, 4):
            yield pack("<HHH", 1, major, 2) + pack("<II", 4, 52) + bytes(52) + bytes(56)

    def judge(self, case):
        ver, i = case
        n = 0
        if ver == "package":
            for names in (["EncryptedPackage", "EncryptionInfo"], ["EncryptionInfo", "EncryptedPackage", "\x06DataSpaces"], ["EncryptedPackage"], ["EncryptedSummary", "encryption"]):
                n += 1
                doc = ole.simple(bytes(5000), name=names[0])
                r, val = attempt(doc)
                if r != "exc" or not isinstance(val, XLRDError):
                    return Result("an encrypted package (%s): %s %r instead of XLRDError" % (names[0], r, val), evals=n)
            return Result(None, outcome=case, evals=n)
        data = corpus.rich(ver)
        st = recs.Stream(ver, data)
        for fp in self.kinds(ver):
            for scramble in (False, True):
                d = st.insert({i: B.rec(0x2F, fp)})
                if scramble:
                    # record headers stay readable, contents (but for the sheet positions) do not
                    out, past = [], False
                    for r in recs.Stream(ver, d).recs:
                        body = r.data
                        if past and r.code not in recs.BOFS:
                            keep = 4 if r.code in (0x85, 0x8E, 0x8F) else 0
                            body = body[:keep] + bytes(b ^ 0xA5 for b in body[keep:])
                        past = past or r.code == 0x2F
                        out.append(B.rec(r.code, body))
                    d = b"".join(out)
                for kw in (dict(), dict(formatting_info=True), dict(on_demand=True), dict(verbosity=1), dict(verbosity=2)):
                    n += 1
                    r, val = attempt(d, False, **kw)
                    if r != "exc" or not isinstance(val, XLRDError):
                        return Result("BIFF%d with FILEPASS (%s) before record %d, %r: %s %r instead of XLRDError" % (ver, fp[:6].hex(), i, kw, r, val), evals=n)
        return Result(None, outcome=case, evals=n)


class Text(Space):
    """Content that is not a workbook at all."""
    name = "not a workbook"
    case_limit = 120

    def __init__(self, full):
        self.full = full
        self.bound = "all byte strings up to 2 bytes, all of 3..%d over the significant bytes, texts of common formats, as bytes and as files" % (5 if full else 4)

    TEXTS = [b"a,b,c\n1,2,3\n", b"<html><body><table>", b"<?xml version=\"1.0\"?><Workbook>", b"{\\rtf1}", b"%PDF-1.4\n", b"ID;PWXL;N;E\n", b"TABLE\n0,1\n", b"\xef\xbb\xbfa;b", b"\xff\xfea\0\t\0", b"\xfe\xff\0a",
             b"\0" * 600, b"\xff" * 600, b" " * 5000, b"\t\t\t\n", b"\x7fELF", b"GIF89a", b"\x89PNG\r\n\x1a\n", b"\x1f\x8b\x08\0", b"Rar!", b"MZ", b"SQLite format 3\0", b"\0\0\2\0\4\4", b"\0\0\x1a\0\0\x10\4\0", b"PK", b"PK\x05\x06",
             b"\xd0\xcf\x11\xe0", b"\x0a\0\0\0", b"\x85\0\4\0aaaa", b"%!PS", b"#!/bin/sh\n", b"<!DOCTYPE html>", b"MIME-Version: 1.0", b"\x09\x08", b"\x09\x00", b"\x09\x08\x10\x00"]
    SIG = (0x00, 0x02, 0x04, 0x05, 0x06, 0x08, 0x09, 0x0A, 0x10, 0x20, 0x41, 0x50, 0xD0, 0xFF)

    def gen(self):
        yield "", 0
        for a in range(256):
            yield "2", a
        for n in (3, 4) + ((5,) if self.full else ()):
            for a in self.SIG:
                yield n, a
        for i in range(len(self.TEXTS)):
            yield "text", i

    def one(self, b, path=None):
        r, val = attempt(b)
        if r == "exc" and isinstance(val, XLRDError):
            if path:
                with open(path, "wb") as f:
                    f.write(b)
                try:
                    xlrd.open_workbook(path, logfile=NULL)
                    return "a book is returned for the file %r" % b[:40]
                except XLRDError:
                    return None
                except Exception as e:
                    return "file with %r: raises %r instead of XLRDError" % (b[:40], e)
            return None
        return "%r: %s %r instead of XLRDError" % (b[:40], r, val)

    def judge(self, case):
        kind, a = case
        n = 0
        tmp = tempfile.mkdtemp(prefix="c23-")
        path = os.path.join(tmp, "x.xls")
        try:
            if kind == "":
                gen = [b""]
            elif kind == "2":
                gen = [bytes([a])] + [bytes([a, b]) for b in range(256)]
            elif kind == "text":
                gen = [self.TEXTS[a]] + [self.TEXTS[a][:k] for k in range(len(self.TEXTS[a]))] + [self.TEXTS[a] + x for x in (b"\0", b"\x09\x08\x10\0\0\6\5\0", b"\xff" * 4096)]
                gen = [g for g in gen if not (g[:1] == b"\x09" and len(g) > 8)]
            else:
                gen = (bytes((a,) + t) for t in itertools.product(self.SIG, repeat=kind - 1))
            for b in gen:
                n += 1
                bad = self.one(b, path if kind != 4 and kind != 5 else None)
                if bad:
                    return Result(bad, evals=n)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return Result(None, outcome=case, evals=n)


FMT, OD = dict(formatting_info=True), dict(on_demand=True)
IGN = dict(ignore_workbook_corruption=True)
few = lambda old: (0, 0xFF, old ^ 1, old ^ 0x80)
bits = lambda old: [old ^ (1 << k) for k in range(8)] + [0, 0xFF, 0x7F, 0x0A, (old + 1) & 255, (old - 1) & 255]
every = lambda old: ALL


def spaces(tier):
    out = [Bofs(), SheetBofs(), Encrypted(), Text(tier != "quick")]
    if tier == "quick":
        return out + [Cut("truncations, bare", ("rich", "bare"), (FMT, OD)), Cut("truncations, OLE", ("small", "ole", "big"), (FMT, IGN)),
                      Alter("altered bytes, rich", ("rich", "bare"), few, (FMT,), "00, FF, and with the lowest and highest bit flipped"),
                      Alter("altered bytes, small", ("small", "bare"), every, (FMT,), "every other value"),
                      Alter("altered bytes, OLE", ("small", "ole"), few, (FMT,), "00, FF, and with the lowest and highest bit flipped"),
                      Windows("altered fields", ("small", "bare"), (FMT,))]
    samples = ("issue20.xls", "picture_in_cell.xls", "ragged.xls", "formula_test_names.xls", "biff4_no_format_no_window2.xls")
    return out + [Cut("truncations, bare", ("rich", "bare"), (FMT, OD, {})), Cut("truncations, OLE", ("rich", "ole", "big"), (FMT, OD, IGN)),
                  Cut("truncations, samples", samples + ("Formate.xls", "xf_class.xls"), (FMT, IGN)),
                  Alter("altered bytes, rich", ("rich", "bare"), bits, (FMT, {}), "each single-bit flip, 00, FF, 7F, 0A, +1, -1"),
                  Alter("altered bytes, small", ("small", "bare"), every, (FMT, {}), "every other value"),
                  Alter("altered bytes, OLE", ("small", "ole"), bits, (FMT, IGN), "each single-bit flip, 00, FF, 7F, 0A, +1, -1"),
                  Alter("altered bytes, OLE contiguous and fragmented", ("small", "big"), few, (FMT,), "00, FF, and with the lowest and highest bit flipped"),
                  Alter("altered bytes, samples", samples, few, (FMT,), "00, FF, and with the lowest and highest bit flipped"),
                  Windows("altered fields", ("rich", "bare"), (FMT,)), Windows("altered fields, OLE", ("small", "ole"), (FMT,))]
