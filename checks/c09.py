"""C09: formula strings and note texts survive any legal split across records."""
import itertools
from struct import pack
import biff as B, neigh
from mc import Space, Result
from xl import *

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the legal ways to split formula strings and note texts over records, and of the orders of drawing objects and notes; every record followed by each of its single-bit alterations"
NOTE = ("Every set of up to three (thorough: all) break positions, every compression choice of every part, in every BIFF version; every order of OBJ/TXO "
        "groups crossed with every order of NOTE records; values compared with what the independent writer stored.")
RULE = "A case is one physical encoding; the cells around it are compared as well. Every case is non-trivial."
ASSUMPTIONS = ["NOTE records come after the drawing objects they refer to, as in every file Excel writes", "BIFF2 strings (255 bytes at most) are never continued"]

EMOJI = "\U0001F600"
pre80 = B.font(80) + B.xf(80)


def cut_units(us, cuts):
    pts = [0] + list(cuts) + [len(us)]
    return [us[a:b] for a, b in zip(pts, pts[1:])]


def seg_choices(segs):
    return [(0, 1) if all(u[1] == 0 for u in s) else (1,) for s in segs]


def seg_bytes(seg, w):
    return b"".join(seg) if w else b"".join(u[:1] for u in seg)


def neighbours(ver):
    xf = 0 if ver >= 30 else B.attr2(0)
    return B.number(ver, 0, 0, 11.5, xf), B.number(ver, 0, 2, 12.5, xf) + B.label(ver, 1, 0, "after", xf)


def formula_book(ver, strrecs, cpage=None):
    a, z = neighbours(ver)
    xf = 0 if ver >= 30 else B.attr2(0)
    body = a + B.formula(ver, 0, 1, B.RES_STRING, xf) + strrecs + z
    pre = (B.codepage(cpage) if cpage else b"") + B.font(ver) + (B.fmt(ver, 0, "General") if ver < 50 else b"") + B.xf(ver)
    return B.single(ver, body, pre)


def check_formula(data, text, **kw):
    sh = open_bytes(data, **kw).sheet_by_index(0)
    want = [[(2, 11.5), (1, text), (2, 12.5)], [(1, "after"), (0, ""), (0, "")]]
    got = grid(sh)
    if got != want:
        return "cells %.200r, stored %.200r" % (got, want)
    return None


class Formula8(Space):
    def __init__(self, texts, ncuts):
        self.texts, self.ncuts = texts, ncuts
        self.name = "BIFF8 formula strings %s breaks" % (ncuts,)
        self.bound = "%d texts, all break positions, all compression choices" % len(texts)

    def gen(self):
        for t in self.texts:
            us = B.units(t)
            for n in self.ncuts:
                # break positions include 0 (a STRING record holding only the header) and may not repeat
                for cuts in itertools.combinations(range(0, len(us)), n):
                    for comp in itertools.product(*seg_choices(cut_units(us, cuts))):
                        yield t, cuts, comp

    def judge(self, case):
        t, cuts, comp = case
        us = B.units(t)
        recs = b""
        for i, (seg, w) in enumerate(zip(cut_units(us, cuts), comp)):
            d = bytes([w]) + seg_bytes(seg, w)
            recs += B.rec(0x0207 if i == 0 else B.CONTINUE, (pack("<H", len(us)) if i == 0 else b"") + d)
        return Result(check_formula(formula_book(80, recs), t), outcome=recs)


class FormulaOld(Space):
    name = "formula strings before BIFF8"

    def __init__(self, q):
        self.q = q
        self.bound = "BIFF2..7, single- and double-byte code pages, all sets of up to %d byte positions" % (2 if q else 4)

    TEXTS = [(1252, "cp1252", "h\xe9llo"), (1252, "cp1252", "a"), (1252, "cp1252", ""), (932, "cp932", "x\u30a2\u30a4y"), (936, "cp936", "\u4e2d\u6587z"),
             (10000, "mac_roman", "\xe9\xc4b"), (1251, "cp1251", "\u0416\u0448q"), (949, "cp949", "\uac00a\ub098"), (950, "cp950", "\u4e2d\u6587\u5b57")]

    def gen(self):
        for ver in B.VERSIONS[:-1]:
            for i, (cp, enc, t) in enumerate(self.TEXTS):
                n = len(t.encode(enc))
                for k in range(0, 1 if ver < 30 else (3 if self.q else 5)):
                    for cuts in itertools.combinations(range(0, n), k):
                        yield ver, i, cuts

    def judge(self, case):
        ver, i, cuts = case
        cp, enc, t = self.TEXTS[i]
        b = t.encode(enc)
        pts = [0] + list(cuts) + [len(b)]
        recs = b""
        for k, (x, y) in enumerate(zip(pts, pts[1:])):
            if k == 0:
                recs += B.rec(0x0007 if ver < 30 else 0x0207, (pack("<B", len(b)) if ver < 30 else pack("<H", len(b))) + b[x:y])
            else:
                recs += B.rec(B.CONTINUE, b[x:y])
        return Result(check_formula(formula_book(ver, recs, cp), t), outcome=(ver, recs))


class LongFormula(Space):
    name = "long formula strings"
    bound = "lengths around 1..4 full records (8224 bytes, 2080 before BIFF8) and the maximum, in every version with continuations"

    def gen(self):
        for ver in B.VERSIONS[1:]:
            lim = 8224 if ver >= 80 else 2080
            for text in ("a", "ab\u0416" if ver >= 80 else "ab\xe9", EMOJI if ver >= 80 else "zy"):
                for k in (1, 2, 3, 4):
                    for d in range(-8, 5):
                        yield ver, text, max(0, (k * lim + d) // (2 if ver >= 80 and not B.can_narrow(text) else 1))
                yield ver, text, 32767 if ver >= 80 else 65535

    def judge(self, case):
        ver, text, n = case
        if ver >= 80:
            us = (B.units(text) * (n + 1))[:n]
            if us and us[-1][1] & 0xFC == 0xD8:
                us = us[:-1]
            t = b"".join(us).decode("utf_16_le")
            w = 0 if B.can_narrow(t) else 1
            recs, i, first = b"", 0, True
            while first or i < len(us):
                room = (8224 - (3 if first else 1)) // (1 + w)
                recs += B.rec(0x0207 if first else B.CONTINUE, (pack("<H", len(us)) if first else b"") + bytes([w]) + seg_bytes(us[i:i + room], w))
                i += room
                first = False
        else:
            t = (text * (n + 1))[:n]
            b = t.encode("cp1252")
            recs, i, first = b"", 0, True
            while first or i < len(b):
                room = 2080 - (2 if first else 0)
                recs += B.rec(0x0207 if first else B.CONTINUE, (pack("<H", len(b)) if first else b"") + b[i:i + room])
                i += room
                first = False
        return Result(check_formula(formula_book(ver, recs, 1252 if ver < 80 else None), t), outcome=case)


def show(n):
    return (n.rowx, n.colx, n.text, n.author, n.show, n.row_hidden, n.col_hidden, [tuple(x) for x in n.rich_text_runlist])


def note_sheet(recs):
    return B.workbook(80, [B.Sh("S", B.number(80, 0, 0, 1.0) + recs + B.number(80, 1, 0, 2.0))], pre=pre80)


def check_notes(data, want, **kw):
    sh = open_bytes(data, **kw).sheet_by_index(0)
    got = {k: show(n) for k, n in sh.cell_note_map.items()}
    if got != want:
        return "notes %.500r, stored %.500r" % (got, want)
    if grid(sh) != [[(2, 1.0)], [(2, 2.0)]]:
        return "the cells around the notes: %r" % grid(sh)
    return None


class NoteText(Space):
    def __init__(self, texts, ncuts):
        self.texts, self.ncuts = texts, ncuts
        self.name = "note texts %s breaks" % (ncuts,)
        self.bound = "%d texts, all break positions, all compression choices, all splits of the run records" % len(texts)

    def gen(self):
        for t in self.texts:
            us = B.units(t)
            for n in self.ncuts:
                for cuts in itertools.combinations(range(1, max(1, len(us))), n):
                    for comp in itertools.product(*seg_choices(cut_units(us, cuts))):
                        for runs in ([], [(0, 0)], [(0, 1), (1, 2)], [(0, 1), (len(us), 3)]):
                            m = len(runs) + 1 if us else 0
                            for rp in ([m],) if m < 2 else ([m], [1, m - 1]):
                                yield t, cuts, comp, runs, rp

    def judge(self, case):
        t, cuts, comp, runs, rp = case
        us = B.units(t)
        if not us:
            runs, rp = [], []
        tx = [(seg, w) for seg, w in zip(cut_units(us, cuts), comp)] if us else []
        full = list(runs) + ([(len(us), 0)] if us else [])
        out = B.rec(0x01B6, pack("<HH6sHHH", 0x0212, 0, b"\0" * 6, len(us), 8 * len(full), 0) + b"\0\0")
        for seg, w in tx:
            out += B.rec(B.CONTINUE, bytes([w]) + seg_bytes(seg, w))
        i = 0
        for n in rp:
            out += B.rec(B.CONTINUE, b"".join(pack("<HHI", p, f, 0) for p, f in full[i:i + n]))
            i += n
        data = note_sheet(B.obj(1) + out + B.note8(3, 4, 1, "me"))
        wr = [r for r in full]
        while wr and wr[-1][0] == len(us):
            wr.pop()
        return Result(check_notes(data, {(3, 4): (3, 4, t, "me", 0, 0, 0, wr)}), outcome=(out,))


class LongNote(Space):
    name = "long note texts and many runs"
    bound = "text lengths around 1..3 full records; 1..3 full records of formatting runs"

    def gen(self):
        for text in ("a", "\u0416", EMOJI):
            for k in (1, 2, 3):
                for d in range(-4, 5):
                    yield text, max(0, (k * 8224 + d) // (1 if text == "a" else 2)), 1
        for nr in (1, 2, 1027, 1028, 1029, 2055, 2056, 2057, 3100):
            yield "a", 5000, nr

    def judge(self, case):
        text, n, nr = case
        us = (B.units(text) * (n + 1))[:n]
        if us and us[-1][1] & 0xFC == 0xD8:
            us = us[:-1]
        t = b"".join(us).decode("utf_16_le")
        w = 0 if text == "a" else 1
        full = [(i, i % 7) for i in range(nr)] + [(len(us), 0)]
        out = B.rec(0x01B6, pack("<HH6sHHH", 0x0212, 0, b"\0" * 6, len(us), (8 * len(full)) & 0xFFFF, 0) + b"\0\0")
        i, room = 0, 8223 // (1 + w)
        while i < len(us):
            out += B.rec(B.CONTINUE, bytes([w]) + seg_bytes(us[i:i + room], w))
            i += room
        for i in range(0, len(full), 1028):
            out += B.rec(B.CONTINUE, b"".join(pack("<HHI", p, f, 0) for p, f in full[i:i + 1028]))
        data = note_sheet(B.obj(7) + out + B.note8(0, 0, 7, ""))
        return Result(check_notes(data, {(0, 0): (0, 0, t, "", 0, 0, 0, full[:-1])}), outcome=case)


MSO = B.rec(0x00EC, b"\x0f\0\x04\xf0\0\0\0\0")


class NoteOrder(Space):
    """Objects with and without text in every order, then notes in every order."""
    name = "orders of objects and notes"

    def __init__(self, q):
        self.q = q
        n = 3 if q else 4
        self.bound = "%d notes: every order of objects x every order of notes x other objects between x id assignments" % n
        self.n = n

    def gen(self):
        n = self.n
        for objs in itertools.permutations(range(n)):
            for notes in itertools.permutations(range(n)):
                for extra in range(5):
                    for ids in ((1, 2, 3, 4), (4, 3, 2, 1), (65535, 300, 7, 1)):
                        yield objs, notes, extra, ids

    def judge(self, case):
        objs, notes, extra, ids = case
        text = ["first", "\u0416econd", "th" + EMOJI, "4"]
        runs = [[(0, 1)], [(0, 2), (3, 4)], [], [(0, 5)]]
        auth = ["A", "", "\u0416" + EMOJI, "dd"]
        flags = [0, 2, 0x80, 0x100 | 2]
        addr = [(0, 0), (5, 3), (65535, 255), (1, 0)]
        o = b""
        for j in objs:
            if extra in (1, 3):
                o += B.obj(100 + j, typ=5)                     # a chart object without text
            if extra in (2, 3):
                o += MSO + B.obj(200 + j, typ=7) + MSO + B.txo([("button", 0)], [(0, 9)])     # another object with text
            if extra == 4:
                o += B.txo([("orphan", 0)], []) if j != objs[0] else b""
            o += MSO + B.obj(ids[j]) + MSO
            us = B.units(text[j])
            w = 0 if B.can_narrow(text[j]) else 1
            o += B.txo([(text[j], w)], runs[j])
        nn = b""
        for j in notes:
            nn += B.note8(addr[j][0], addr[j][1], ids[j], auth[j], flags[j], pad=b"\0" if j & 1 else b"")
        want = {}
        for j in range(self.n):
            want[addr[j]] = addr[j] + (text[j], auth[j], flags[j] >> 1 & 1, flags[j] >> 7 & 1, flags[j] >> 8 & 1, runs[j])
        f = None
        for fmt in (False, True):
            f = f or check_notes(note_sheet(o + nn), want, formatting_info=fmt)
        return Result(f, outcome=(o, nn), evals=2)


class ObjParts(Space):
    """Object records of other kinds, with their sub-records, before the object of a note and as the object of the note."""
    name = "sub-records of objects"
    SUBS = [(0x04, b"\0\0" * 2), (0x06, b"\2\0"), (0x07, b"\xff\xff"), (0x08, b"\1\0"), (0x09, b"\0" * 7), (0x0A, b"\1" * 12), (0x0B, b"\0" * 6),
            (0x0C, bytes(range(20))), (0x0D, b"\0" * 22), (0x0D, bytes(range(16)) + b"\1\0\0\0\0\0"), (0x0E, b"\5" * 11), (0x0F, b"\3" * 30), (0x10, b"\0" * 8),
            (0x11, b"\1\0" * 4), (0x12, b"\1\0" * 4), (0x13, b"\0\0" * 4), (0x14, b"")]
    TYPES = [0, 2, 5, 7, 8, 11, 12, 14, 16, 17, 18, 19, 20, 25, 30]

    def __init__(self, q):
        self.q = q
        self.bound = ("%d object types x every sequence of up to %d (type 25: two) of %d sub-records x 0..12 and 100 zero bytes after them x {object before, object of the note}"
                      % (len(self.TYPES), 1 if q else 2, len(self.SUBS)))

    def gen(self):
        for typ in self.TYPES:
            for n in range(2 if self.q else 3):
                for subs in itertools.product(range(len(self.SUBS)), repeat=n):
                    yield typ, subs
        if self.q:
            for subs in itertools.product(range(len(self.SUBS)), repeat=2):
                yield 25, subs

    def judge(self, case):
        typ, subs = case
        parts = b"".join(B.rec(*self.SUBS[i]) for i in subs)
        n = 0
        for tail in list(range(13)) + [100]:
            for opts in (0x4011, 0x0100, 0xFFFF):
                # a drop-down list box of an autofilter has a size that is none
                last = B.rec(0x0013, b"")[:2] + b"\xee\x1f" + b"\1\0" * 8 if typ == 20 and opts & 0x100 else b""
                if 0 < tail < 4 and not last:
                    continue        # sub-records have four bytes at least
                raw = B.rec(0x005D, B.rec(0x0015, pack("<HHH", typ, 1, opts) + b"\0" * 12) + parts + last + b"\0" * (0 if last else tail))
                before = raw[:8] + pack("<H", typ) + pack("<H", 77) + raw[12:]
                for o, oid in ((before + MSO + B.txo([("caption", 0)], [(0, 9)]) + B.obj(1), 1), (before + B.obj(1), 1), (raw, 1)):
                    n += 1
                    f = check_notes(note_sheet(o + MSO + B.txo([("the note", 0)], [(0, 1), (3, 2)]) + B.note8(3, 2, oid, "me", 2)),
                                    {(3, 2): (3, 2, "the note", "me", 1, 0, 0, [(0, 1), (3, 2)])}, formatting_info=True)
                    if f:
                        return Result("object type %d, sub-records %r, %d zero bytes, options %#x: %s" % (typ, [hex(self.SUBS[i][0]) for i in subs], tail, opts, f), evals=n)
        return Result(None, outcome=case, evals=n)


class NoteFlags(Space):
    name = "note flag words and addresses"
    bound = "all 65536 flag words; all row/column edge values"

    def gen(self):
        for hi in range(256):
            yield "flags", hi
        for r in (0, 1, 255, 256, 32767, 65535):
            for c in (0, 1, 127, 128, 255):
                yield "addr", (r, c)

    def judge(self, case):
        kind, v = case
        o = B.obj(1) + B.txo([("t", 0)], [])
        if kind == "addr":
            return Result(check_notes(note_sheet(o + B.note8(v[0], v[1], 1, "x", 2)), {v: v + ("t", "x", 1, 0, 0, [])}), outcome=v)
        nn, want = b"", {}
        for lo in range(256):
            fl = v << 8 | lo
            nn += B.note8(lo, 1, 1, "x", fl)
            want[(lo, 1)] = (lo, 1, "t", "x", fl >> 1 & 1, fl >> 7 & 1, fl >> 8 & 1, [])
        return Result(check_notes(note_sheet(o + nn), want), outcome=v, evals=256)


class NoteOld(Space):
    name = "notes before BIFF8"

    def __init__(self, q):
        self.q = q
        self.bound = "BIFF2..7, all sets of up to %d break positions, several notes, long chains" % (2 if q else 4)

    def gen(self):
        for ver in B.VERSIONS[:-1]:
            for i, (cp, enc, t) in enumerate(FormulaOld.TEXTS):
                n = len(t.encode(enc))
                for k in range(0, 3 if self.q else 5):
                    for cuts in itertools.combinations(range(1, max(n, 1)), k):
                        yield ver, i, cuts
            for n in (2047, 2048, 2049, 4095, 4096, 4097, 8000):
                yield ver, -n, ()

    def judge(self, case):
        ver, i, cuts = case
        if i < 0:
            cp, enc, t = 1252, "cp1252", ("note \xe9" * 2000)[:-i]
            cuts = list(range(2048, -i, 2048))
        else:
            cp, enc, t = FormulaOld.TEXTS[i]
        xf = 0 if ver >= 30 else B.attr2(0)
        notes = B.note_old(2, 3, t, cuts, enc) + B.note_old(7, 1, "second", (), enc) + B.note_old(2, 200, t, cuts[:1], enc)
        body = B.number(ver, 0, 0, 1.0, xf) + notes + B.number(ver, 1, 0, 2.0, xf)
        pre = B.codepage(cp) + B.font(ver) + (B.fmt(ver, 0, "General") if ver < 50 else b"") + B.xf(ver)
        data = B.single(ver, body, pre)
        want = {(r, c): (r, c, x, "", 0, 0, 0, [(0, 0)]) for r, c, x in ((2, 3, t), (7, 1, "second"), (2, 200, t))}
        f = check_notes(data, want) or check_notes(data, want, formatting_info=True)
        return Result(f, outcome=(ver, notes), evals=2)


def spaces(tier):
    q = tier == "quick"
    texts = ["", "a", "ab\xe9", "\u0416\u20ac", "a\u0416b", EMOJI, "x" + EMOJI + "y", EMOJI * 2, "ab\u0416cd\xe9",
             "\x80\x85\x9f\xff", "a\0\n\x1fb", " a\xa0", "\ufeff\uffffa"]
    out = [Formula8(texts, (0, 1, 2, 3)), Formula8(texts[:8], (4, 5)), FormulaOld(False), LongFormula(),
           NoteText(texts, (0, 1, 2, 3, 4, 5)), LongNote(), NoteOrder(False), ObjParts(q), NoteFlags(), NoteOld(False),
           Formula8(["abc" + EMOJI + "\u0416de", EMOJI * 3 + "ab"], tuple(range(0, 8)))]
    if not q:
        out.append(Formula8(["a" + EMOJI + "b\xe9\u0416" + EMOJI + "cdef", "abcdefghijk", EMOJI * 6], tuple(range(0, 12))))
        out.append(NoteText(["a" + EMOJI + "b\xe9\u0416cdef", "abcdefghij", EMOJI * 5], tuple(range(0, 10))))
    return out + [neigh.Neigh(neigh.notes, "notes")]
