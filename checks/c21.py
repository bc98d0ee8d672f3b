"""C21: hyperlinks are attached to their cells with the stored targets and texts."""
import itertools
import biff as B, neigh
from mc import Space, Result
from xl import *

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the optional parts, option bits, target kinds and texts of hyperlink records, and of all overlap patterns of sequences of links, against the records as written; every record followed by each of its single-bit alterations"
NOTE = ("Every combination of target kind x description flags x frame x text mark x quick tip x trailing data with every text of a set (empty, narrow, wide, non-BMP, long); every sequence of up to 3 links over all 36 rectangles "
        "of a 3x3 grid (thorough: 4x3), boundary rows and columns, with and without formatting_info.")
RULE = "A case is a block of sheets with hyperlinks; evaluations = sheets compared. Every case is non-trivial."
ASSUMPTIONS = ["QUICKTIP follows its HLINK with the same range, as the format requires"]

TEXTS = ["", "x", "Sheet1!A1:B2", "caf\xe9 \u20ac", "\u65e5\u672c", "a\U0001d54fb", "y" * 300, "tab\tand\nnewline", "A\u0100\x01"]
KINDS = ["url", "urlx", "urlz", "url0", "file", "fileup1", "fileup3", "fileup255", "fileup256", "fileext", "unc", "workbook", "none"]
# after a URL: nothing, or serial GUID, version and flags
URLTAIL = {"url": b"", "urlx": bytes(range(1, 25)), "urlz": bytes.fromhex("795881F43B1D7F48AF2C825DC485276300000000A5AB0000"), "url0": b"\0" * 24}


def make(kind, text, desc, target, mark, tip, rng=(0, 0, 0, 0), extra=b"", absolute=1):
    """(record bytes, expected attributes); desc = (flags, text) or None."""
    opts, parts = 0, b""
    e = dict(frowx=rng[0], lrowx=rng[1], fcolx=rng[2], lcolx=rng[3], type="unknown", url_or_path=None, desc=None, target=None, textmark=None, quicktip=None)
    if desc is not None:
        opts |= desc[0]
        parts += B.zstr(desc[1])
        e["desc"] = desc[1]
    if target is not None:
        opts |= 0x80
        parts += B.zstr(target)
        e["target"] = target
    if kind in URLTAIL:
        opts |= 1 | (2 if absolute else 0)
        parts += B.url_moniker(text, URLTAIL[kind])
        e["type"], e["url_or_path"] = "url", text
    elif kind.startswith("file") and kind != "fileext":
        up = int(kind[6:] or 0)
        opts |= 1 | (2 if absolute and not up else 0)
        short = text.encode("latin_1", "replace").replace(b"\0", b"")
        parts += B.file_moniker(short, None, up)
        e["type"], e["url_or_path"] = "local file", b"..\\" * up + short
    elif kind == "fileext":
        opts |= 1 | (2 if absolute else 0)
        parts += B.file_moniker(b"SHORT~1.XLS", text)
        e["type"], e["url_or_path"] = "local file", text
    elif kind == "unc":
        opts |= 0x103
        parts += B.zstr(text)
        e["type"], e["url_or_path"] = "unc", text
    elif kind == "workbook":
        mark = text if mark is None else mark
        e["type"] = "workbook"
    if mark is not None:
        opts |= 8
        parts += B.zstr(mark)
        e["textmark"] = mark
        if kind == "none":
            e["type"] = "workbook"
    rec = B.hlink(rng[0], rng[1], rng[2], rng[3], opts, parts + extra)
    if tip is not None:
        rec += B.quicktip(rng[0], rng[1], rng[2], rng[3], tip)
        e["quicktip"] = tip
    return rec, e


def compare(sh, exp):
    got = sh.hyperlink_list
    if len(got) != len(exp):
        return "%d hyperlinks listed, %d stored" % (len(got), len(exp))
    cover = {}
    for i, (h, e) in enumerate(zip(got, exp)):
        for k, v in e.items():
            g = getattr(h, k)
            if type(g) is not type(v) or g != v:
                return "link %d: %s is %.120r, should be %.120r" % (i, k, g, v)
        for r in range(e["frowx"], e["lrowx"] + 1):
            for c in range(e["fcolx"], e["lcolx"] + 1):
                cover[r, c] = h
    m = sh.hyperlink_map
    if set(m) != set(cover):
        return "cells mapped: %.150r, should be %.150r" % (sorted(m), sorted(cover))
    for k, h in cover.items():
        if m[k] is not h:
            return "cell %r is mapped to a link other than the last one covering it" % (k,)
    return None


def read(body, exp, fmt):
    data = B.workbook(80, [B.Sh("A", B.number(80, 0, 0, 1.0) + body + B.number(80, 1, 1, 2.0)), B.Sh("B", B.number(80, 0, 0, 3.0))], pre=B.font(80) + B.xf(80) * 16)
    try:
        bk = open_bytes(data, formatting_info=fmt)
    except Exception as x:
        return "raises %r" % (x,)
    bad = compare(bk.sheet_by_index(0), exp)
    if bad:
        return bad
    if bk.sheet_by_index(0).cell_value(1, 1) != 2.0:
        return "the cell after the links is lost"
    sh = bk.sheet_by_index(1)
    if sh.hyperlink_list or sh.hyperlink_map:
        return "the links of one sheet also show up on another"
    return None


class Parts(Space):
    name = "parts of a link"
    bound = "13 target kinds x 9 texts x description {none, bits 14, 10} x frame x text mark x quick tip x trailing bytes {0, 2, 16}, each text in each part"

    def gen(self):
        for kind in KINDS:
            for ti in range(len(TEXTS)):
                yield kind, ti

    def judge(self, case):
        kind, ti = case
        text = TEXTS[ti]
        n = 0
        other = TEXTS[3]
        for d, t, m, q in itertools.product((None, 0x14, 0x10), (0, 1), (0, 1), (0, 1)):
            for which in range(2):                   # the text in the target, or in the other parts
                a, b = (text, other) if which == 0 else (other, text)
                for extra in (b"", b"A\0", b"\1" * 16):
                    for ab in (0, 1):
                        n += 1
                        rec, e = make(kind, a, None if d is None else (d, b), b if t else None, b if m else None, b if q else None, (n % 7, n % 7, n % 5, n % 5), extra, ab)
                        bad = read(rec, [e], bool(n & 1))
                        if bad:
                            return Result("kind %s, text %.40r, description %r frame %d mark %d tip %d, %d extra bytes: %s" % (kind, a, d, t, m, q, len(extra), bad), evals=n)
        return Result(None, outcome=case, evals=n)


class Overlap(Space):
    name = "overlapping links"

    def __init__(self, rows, cols, depth):
        self.rows, self.cols, self.depth = rows, cols, depth
        self.bound = "every sequence of up to %d links over all rectangles of a %dx%d grid, with a quick tip on one of them" % (depth, rows, cols)

    def rects(self):
        return [(a, b, c, d) for a in range(self.rows) for b in range(a, self.rows) for c in range(self.cols) for d in range(c, self.cols)]

    def gen(self):
        n = len(self.rects())
        for k in range(self.depth):
            for pre in itertools.product(range(n), repeat=k):
                yield pre

    def judge(self, case):
        rs = self.rects()
        n = 0
        for last in range(len(rs)):
            seq = [rs[i] for i in case] + [rs[last]]
            n += 1
            body, exp = b"", []
            for i, r in enumerate(seq):
                kind = KINDS[(i * 3 + last) % len(KINDS)]
                rec, e = make(kind, "t%d" % i, (0x14, "d%d" % i) if i & 1 else None, None, None, "tip%d" % i if (last + i) % 3 == 0 else None, r)
                body += rec
                exp.append(e)
            bad = read(body, exp, bool(last & 1))
            if bad:
                return Result("links over %r: %s" % (seq, bad), evals=n)
        return Result(None, outcome=case, evals=n)


class Edges(Space):
    name = "edges of the sheet"
    bound = "all ranges with corners on rows {0,1,255,256,65534,65535} and columns {0,1,127,128,254,255} of at most 3000 cells; up to 70 links in one sheet"

    def gen(self):
        for r0 in (0, 1, 255, 256, 65534, 65535):
            for c0 in (0, 1, 127, 128, 254, 255):
                yield r0, c0
        yield "many",

    def judge(self, case):
        if case[0] == "many":
            body, exp = b"", []
            for i in range(70):
                rec, e = make(KINDS[i % len(KINDS)], TEXTS[i % 6 + 1], None, None, None, None if i % 4 else "q%d" % i, (i, i + 1, i, i + 1))
                body += rec
                exp.append(e)
            return Result(read(body, exp, True), outcome="many")
        r0, c0 = case
        n = 0
        for r1 in (0, 1, 255, 256, 65534, 65535):
            for c1 in (0, 1, 127, 128, 254, 255):
                if r1 < r0 or c1 < c0 or (r1 - r0 + 1) * (c1 - c0 + 1) > 3000:
                    continue
                n += 1
                rec, e = make("url", "http://x/", (0x14, "d"), None, "m", "tip", (r0, r1, c0, c1))
                bad = read(rec, [e], True)
                if bad:
                    return Result("range %r: %s" % ((r0, r1, c0, c1), bad), evals=n)
        return Result(None, outcome=case, evals=n)


def spaces(tier):
    if tier == "quick":
        return [Parts(), Overlap(3, 3, 3), Edges(), neigh.Neigh(neigh.links, "links")]
    return [Parts(), Overlap(4, 3, 3), Overlap(2, 3, 4), Edges(), neigh.Neigh(neigh.links, "links")]
