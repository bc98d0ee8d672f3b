"""C17: XF, font, format, palette and style records are decoded field by field."""
import itertools
from struct import pack
import biff as B, neigh
from mc import Space, Result
from xl import *

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of bit patterns (every bit, every pair of bits, every value of every field on all-zero and all-one backgrounds) of the formatting records, against field tables from the published layouts; every record followed by each of its single-bit alterations"
NOTE = ("Every single bit, every pair of bits and their complements over the whole XF record, and every value of every field, in BIFF2.1, 3, 4, 4W, 5, 7 and 8; the same for FONT; every palette length and channel; "
        "every builtin and user style; format keys and strings; the parents and usage flags as stored.")
RULE = "A case is one workbook holding a block of records; evaluations = attributes compared. Every case is non-trivial."
ASSUMPTIONS = ["XF parents refer to existing XF records and format keys to existing formats (xlrd documents that it repairs others)"]

STEMS = ("format", "font", "alignment", "border", "background", "protection")


def bits(lo, n):
    return lo, n


# attribute -> (first bit in the little-endian record, number of bits)
def spec(ver):
    s = {}
    used = None
    if ver >= 80:
        size = 20
        s.update({"font_index": (0, 16), "format_key": (16, 16), "protection.cell_locked": (32, 1), "protection.formula_hidden": (33, 1), "is_style": (34, 1), "lotus_123_prefix": (35, 1),
                  "parent_style_index": (36, 12), "alignment.hor_align": (48, 3), "alignment.text_wrapped": (51, 1), "alignment.vert_align": (52, 3), "alignment.rotation": (56, 8),
                  "alignment.indent_level": (64, 4), "alignment.shrink_to_fit": (68, 1), "alignment.text_direction": (70, 2),
                  "border.left_line_style": (80, 4), "border.right_line_style": (84, 4), "border.top_line_style": (88, 4), "border.bottom_line_style": (92, 4),
                  "border.left_colour_index": (96, 7), "border.right_colour_index": (103, 7), "border.diag_down": (110, 1), "border.diag_up": (111, 1),
                  "border.top_colour_index": (112, 7), "border.bottom_colour_index": (119, 7), "border.diag_colour_index": (126, 7), "border.diag_line_style": (133, 4),
                  "background.fill_pattern": (138, 6), "background.pattern_colour_index": (144, 7), "background.background_colour_index": (151, 7)})
        used = 74
    elif ver >= 50:
        size = 16
        s.update({"font_index": (0, 16), "format_key": (16, 16), "protection.cell_locked": (32, 1), "protection.formula_hidden": (33, 1), "is_style": (34, 1), "lotus_123_prefix": (35, 1),
                  "parent_style_index": (36, 12), "alignment.hor_align": (48, 3), "alignment.text_wrapped": (51, 1), "alignment.vert_align": (52, 3), "alignment.rotation": (56, 2),
                  "background.pattern_colour_index": (64, 7), "background.background_colour_index": (71, 7), "background.fill_pattern": (80, 6),
                  "border.bottom_line_style": (86, 3), "border.bottom_colour_index": (89, 7), "border.top_line_style": (96, 3), "border.left_line_style": (99, 3), "border.right_line_style": (102, 3),
                  "border.top_colour_index": (105, 7), "border.left_colour_index": (112, 7), "border.right_colour_index": (119, 7)})
        used = 58
    elif ver >= 30:
        size = 12
        s.update({"font_index": (0, 8), "format_key": (8, 8), "protection.cell_locked": (16, 1), "protection.formula_hidden": (17, 1), "is_style": (18, 1), "lotus_123_prefix": (19, 1),
                  "background.fill_pattern": (48, 6), "background.pattern_colour_index": (54, 5), "background.background_colour_index": (59, 5),
                  "border.top_line_style": (64, 3), "border.top_colour_index": (67, 5), "border.left_line_style": (72, 3), "border.left_colour_index": (75, 5),
                  "border.bottom_line_style": (80, 3), "border.bottom_colour_index": (83, 5), "border.right_line_style": (88, 3), "border.right_colour_index": (91, 5)})
        if ver >= 40:
            s.update({"parent_style_index": (20, 12), "alignment.hor_align": (32, 3), "alignment.text_wrapped": (35, 1), "alignment.vert_align": (36, 2), "alignment.rotation": (38, 2)})
            used = 42
        else:
            s.update({"alignment.hor_align": (32, 3), "alignment.text_wrapped": (35, 1), "parent_style_index": (36, 12)})
            used = 26
    else:
        size = 4
        s.update({"font_index": (0, 8), "format_key": (16, 6), "protection.cell_locked": (22, 1), "protection.formula_hidden": (23, 1), "alignment.hor_align": (24, 3)})
    if used is not None:
        for i, st in enumerate(STEMS):
            s["_%s_flag" % st] = (used + i, 1)
    return size, s


DEFAULTS = {"alignment.text_wrapped": 0, "alignment.indent_level": 0, "alignment.shrink_to_fit": 0, "alignment.text_direction": 0, "border.diag_colour_index": 0, "border.diag_line_style": 0, "border.diag_down": 0, "border.diag_up": 0}


def expected(ver, word):
    """All attributes of the XF whose record, read as a little-endian number, is `word`."""
    size, s = spec(ver)
    e = dict(DEFAULTS)
    for a, (lo, n) in s.items():
        e[a] = (word >> lo) & ((1 << n) - 1)
    if 40 <= ver < 80:
        e["alignment.rotation"] = (0, 255, 90, 180)[e["alignment.rotation"]]
    if ver <= 30:
        e["alignment.vert_align"] = 2
        e["alignment.rotation"] = 0
    if ver < 30:
        e["is_style"] = 0
        top = word >> 24
        for m, side in ((8, "left"), (16, "right"), (32, "top"), (64, "bottom")):
            e["border.%s_line_style" % side] = 1 if top & m else 0
            e["border.%s_colour_index" % side] = 8 if top & m else 0
        e["background.fill_pattern"] = 17 if top & 128 else 0
        e["background.background_colour_index"] = 9
        e["background.pattern_colour_index"] = 8
        for st in STEMS:
            e["_%s_flag" % st] = 1
    return e


CODE = {21: 0x0043, 30: 0x0243, 40: 0x0443, 45: 0x0443, 50: 0x00E0, 70: 0x00E0, 80: 0x00E0}
HEAD = 4096     # plain XFs first, so that every parent index exists


def words(ver):
    size, s = spec(ver)
    n = 8 * size
    full = (1 << n) - 1
    out = []
    for k in (0, 1, 2):
        for bs in itertools.combinations(range(n), k):
            w = sum(1 << b for b in bs)
            out += [w, full ^ w]
    for a, (lo, m) in sorted(s.items()):
        for v in range(1 << m) if m <= 8 else [v for v in range(0, 1 << m, 37)]:
            out += [v << lo, (full & ~(((1 << m) - 1) << lo)) | v << lo]
    alt = int("01" * (n // 2), 2)
    out += [alt, alt << 1 & full]
    for a, (lo, m) in sorted(s.items()):
        out += [alt ^ (((1 << m) - 1) << lo), ((1 << m) - 1) << lo]
    return out


PARTS = ("alignment", "border", "background", "protection")
_words = {}


class XFs(Space):
    name = "XF records"
    bound = "every bit, every pair of bits and complements; every value of every field on zero, one and alternating backgrounds; 7 versions"
    case_limit = 60

    def __init__(self, block):
        self.block = block

    def get(self, ver):
        if ver not in _words:
            _words[ver] = words(ver)
        return _words[ver]

    def gen(self):
        for ver in B.VERSIONS:
            for i in range(0, len(self.get(ver)), self.block):
                yield ver, i

    def judge(self, case):
        ver, i = case
        size, s = spec(ver)
        ws = self.get(ver)[i:i + self.block]
        lo, m = s["format_key"]
        keys = sorted({(w >> lo) & ((1 << m) - 1) for w in ws})
        pre = B.font(ver)
        if ver < 50:
            pre += b"".join(B.fmt(ver, k, "0") for k in range(max(keys) + 1))
        else:
            pre += b"".join(B.fmt(ver, k, "0") for k in keys)
        # most parents exist without padding; only pad as far as the block needs
        plo = s.get("parent_style_index")
        need = 1 + max([(w >> plo[0]) & 0xFFF for w in ws if not (w >> s["is_style"][0]) & 1] or [0]) if plo else 0
        pre += b"".join(B.rec(CODE[ver], w.to_bytes(size, "little")) for w in ws)
        plain = B.xf(ver, keys[0])
        pre += plain * max(0, need - len(ws))
        n = 0
        bk = open_bytes(B.single(ver, B.dimensions(ver, 0, 0, 0, 0), pre), formatting_info=True)
        prev = None
        for j, w in enumerate(ws):
            xf = bk.xf_list[j]
            e = expected(ver, w)
            if prev:
                pxf, pe = prev
                for part in PARTS:
                    x, y = getattr(xf, part), getattr(pxf, part)
                    same = all(pe[a] == v for a, v in e.items() if a.startswith(part + "."))
                    n += 1
                    if (x == y, x != y) != (same, not same) or not x == x or x != x:
                        return Result("BIFF%d XF records %s and %s: %s compare %sequal" % (ver, ws[j - 1].to_bytes(size, "little").hex(), w.to_bytes(size, "little").hex(), part, "" if x == y else "un"), evals=n)
            prev = xf, e
            if xf.xf_index != j:
                return Result("BIFF%d: xf_index %d of XF %d" % (ver, xf.xf_index, j), evals=n)
            for a, v in e.items():
                o = xf
                for part in a.split("."):
                    o = getattr(o, part)
                n += 1
                if o != v:
                    return Result("BIFF%d XF record %s: %s is %r, encoded %r" % (ver, w.to_bytes(size, "little").hex(), a, o, v), evals=n)
        return Result(None, outcome=case, evals=n)


FONT5 = {"height": (0, 16), "bold": (16, 1), "italic": (17, 1), "underlined": (18, 1), "struck_out": (19, 1), "outline": (20, 1), "shadow": (21, 1), "colour_index": (32, 16), "weight": (48, 16),
         "escapement": (64, 16), "underline_type": (80, 8), "family": (88, 8), "character_set": (96, 8)}


NOFONT = dict(font_index=4, height=0, bold=0, italic=0, underlined=0, struck_out=0, outline=0, shadow=0, colour_index=0, weight=400, escapement=0, underline_type=0, family=0, character_set=0)


class Fonts(Space):
    name = "FONT records"
    bound = "every bit, pair of bits and complement of the fixed part, names, positions 0..n (number 4 skipped), EFONT colours; 7 versions"

    def gen(self):
        for ver in B.VERSIONS:
            n = 112 if ver >= 50 else 48 if ver >= 30 else 32
            tot = 2 * (1 + n + n * (n - 1) // 2)
            for i in range(0, tot, 500):
                yield ver, i

    def judge(self, case):
        ver, i = case
        nb = 112 if ver >= 50 else 48 if ver >= 30 else 32
        full = (1 << nb) - 1
        ws = []
        for k in (0, 1, 2):
            for bs in itertools.combinations(range(nb), k):
                w = sum(1 << b for b in bs)
                ws += [w, full ^ w]
        ws = ws[i:i + 500]
        pre, want = b"", []
        for j, w in enumerate(ws):
            nm = "Font %d \xe9" % j if j % 5 else "x" * (j % 250)
            if ver >= 80 and j % 3 == 0:
                nm += "\u0416"
            pre += B.rec(0x0231 if ver in (30, 40, 45) else 0x0031, w.to_bytes(nb // 8, "little") + B.vstr(ver, nm, 1))
            e = {a: (w >> lo) & ((1 << m) - 1) for a, (lo, m) in FONT5.items() if lo + m <= nb}
            e["name"] = nm
            if ver < 50:
                e.update(weight=700 if e["bold"] else 400, escapement=0, underline_type=e["underlined"], family=0, character_set=1)
            if ver < 30:
                e.update(outline=0, shadow=0, colour_index=0x7FFF)
                if j % 2:
                    pre += B.rec(0x0045, pack("<H", j * 131 & 0xFFFF))
                    e["colour_index"] = j * 131 & 0xFFFF
            want.append(e)
        pre += (B.fmt(ver, 0, "General") if ver < 50 else b"") + B.xf(ver)
        bk, again = open_bytes(B.single(ver, B.dimensions(ver, 0, 0, 0, 0), pre), formatting_info=True), open_bytes(B.single(ver, B.dimensions(ver, 0, 0, 0, 0), pre), formatting_info=True).font_list
        if len(bk.font_list) != len(ws) + (len(ws) > 4):
            return Result("BIFF%d: %d fonts for %d records" % (ver, len(bk.font_list), len(ws)))
        n = 0
        if len(ws) > 4:
            for a, v in NOFONT.items():
                if getattr(bk.font_list[4], a) != v:
                    return Result("BIFF%d: the font that does not exist (4) has %s %r" % (ver, a, getattr(bk.font_list[4], a)))
        for j, e in enumerate(want):
            k = j if j < 4 else j + 1
            f = bk.font_list[k]
            g = again[k]
            if g is f or not f == g or f != g:
                return Result("BIFF%d: font %d of two loads of one file compares unequal" % (ver, k))
            if j and (f == bk.font_list[j - 1] or not f != bk.font_list[j - 1]):
                return Result("BIFF%d: different fonts %d and %d compare equal" % (ver, k, j - 1))
            if f.font_index != k:
                return Result("BIFF%d: font_index %r at %d" % (ver, f.font_index, k))
            for a, v in e.items():
                n += 1
                if getattr(f, a) != v:
                    return Result("BIFF%d FONT %s: %s is %r, encoded %r" % (ver, ws[j].to_bytes(nb // 8, "little").hex(), a, getattr(f, a), v), evals=n)
        return Result(None, outcome=case, evals=n)


class Formats(Space):
    name = "FORMAT records"
    bound = "format keys and strings in every order of 4, lengths 0..255, both modes; 7 versions"

    def gen(self):
        for ver in B.VERSIONS:
            for perm in itertools.permutations((164, 5, 400, 65535)):
                yield ver, perm

    def judge(self, case):
        ver, keys = case
        strs = ["0.0\"x\"", "d/m/yy", "", "#" * 255, "\xe9", "General"]
        pre = B.font(ver)
        ks = list(keys) + [1, 2]
        for k, s in zip(ks, strs):
            pre += B.fmt(ver, k, s)
        pre += b"".join(B.xf(ver, k if ver >= 50 else i) for i, k in enumerate(ks))
        n = 0
        for fi in (False, True):
            bk = open_bytes(B.single(ver, B.dimensions(ver, 0, 0, 0, 0), pre), formatting_info=fi)
            want = [(k if ver >= 50 else i, s) for i, (k, s) in enumerate(zip(ks, strs))]
            got = [(f.format_key, f.format_str) for f in bk.format_list]
            twin = open_bytes(B.single(ver, B.dimensions(ver, 0, 0, 0, 0), pre), formatting_info=fi).format_list
            for (i, f), (j, g) in itertools.product(enumerate(bk.format_list), enumerate(twin)):
                n += 1
                if (f == g, f != g) != (i == j, i != j):
                    return Result("BIFF%d: formats %d and %d of two loads of one file compare %sequal" % (ver, i, j, "" if f == g else "un"), evals=n)
            if got != want:
                return Result("BIFF%d: format_list %.200r, stored %.200r" % (ver, got, want))
            for k, s in want:
                n += 1
                f = bk.format_map[k]
                if (f.format_key, f.format_str) != (k, s) or f.type != (1 if s == "d/m/yy" else 3):
                    return Result("BIFF%d: format_map[%d] is %r type %d" % (ver, k, f.format_str, f.type))
            if [x.format_key for x in bk.xf_list] != [k for k, s in want]:
                return Result("BIFF%d: format keys of the XFs %r" % (ver, [x.format_key for x in bk.xf_list]))
            if ver >= 50 and set(bk.format_map) != {k for k, s in want} | STD:
                return Result("BIFF%d: keys of format_map" % ver)
            for k, s in STDSTR.items():
                if ver >= 50 and k not in ks and bk.format_map[k].format_str != s:
                    return Result("BIFF%d: builtin format %d is %r" % (ver, k, bk.format_map[k].format_str))
        return Result(None, outcome=case, evals=n)


STD = set(range(0, 23)) | set(range(27, 63)) | set(range(67, 82))
STDSTR = {0: "General", 1: "0", 2: "0.00", 3: "#,##0", 4: "#,##0.00", 9: "0%", 10: "0.00%", 11: "0.00E+00", 12: "# ?/?", 13: "# ??/??", 14: "m/d/yy", 15: "d-mmm-yy", 16: "d-mmm",
          17: "mmm-yy", 18: "h:mm AM/PM", 19: "h:mm:ss AM/PM", 20: "h:mm", 21: "h:mm:ss", 22: "m/d/yy h:mm", 37: "#,##0_);(#,##0)", 38: "#,##0_);[Red](#,##0)", 39: "#,##0.00_);(#,##0.00)",
          40: "#,##0.00_);[Red](#,##0.00)", 45: "mm:ss", 46: "[h]:mm:ss", 47: "mm:ss.0", 48: "##0.0E+0", 49: "@"}

EGA = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (255, 0, 255), (0, 255, 255)]
P16 = EGA + [(128, 0, 0), (0, 128, 0), (0, 0, 128), (128, 128, 0), (128, 0, 128), (0, 128, 128), (192, 192, 192), (128, 128, 128)]
P8 = [int(x, 16) for x in ("9999FF 993366 FFFFCC CCFFFF 660066 FF8080 0066CC CCCCFF 000080 FF00FF FFFF00 00FFFF 800080 800000 008080 0000FF 00CCFF CCFFFF CCFFCC FFFF99 99CCFF FF99CC CC99FF FFCC99 "
                           "3366FF 33CCCC 99CC00 FFCC00 FF9900 FF6600 666699 969696 003366 339966 003300 333300 993300 993366 333399 333333").split()]
P8 = P16 + [(x >> 16, x >> 8 & 255, x & 255) for x in P8]


class Palette(Space):
    name = "PALETTE and default colours"
    bound = "no palette; every number of entries; every channel bit of every entry, the fourth byte 0 or 255; 0..4 bytes more than needed; 7 versions"

    def gen(self):
        for ver in B.VERSIONS:
            for n in [None] + list(range(0, 17 if ver < 50 else 57)):
                yield ver, n

    def judge(self, case):
        ver, n = case
        full = 56 if ver >= 50 else 16
        for rot in range(1 if n is None else 24):
            cols = [] if n is None else [tuple(((1 << ((rot + i) % 24)) ^ (i * 0x10305 if rot & 1 else 0)).to_bytes(4, "little")[:3]) for i in range(n)]
            pre = B.font(ver) + (B.fmt(ver, 0, "General") if ver < 50 else b"") + B.xf(ver) + (
                B.rec(0x0092, pack("<H", n) + b"".join(bytes(c) + (b"\xff" if rot % 3 == 2 else b"\0") for c in cols) + b"\0" * (rot % 5)) if n is not None else b"")
            bk = open_bytes(B.single(ver, B.dimensions(ver, 0, 0, 0, 0), pre), formatting_info=True)
            if bk.palette_record != cols:
                return Result("BIFF%d: palette_record %r, stored %r" % (ver, bk.palette_record, cols))
            want = dict(enumerate(EGA))
            base = P8 if ver >= 80 else None
            for i in range(full):
                if i < len(cols):
                    want[8 + i] = cols[i]
                elif ver < 50 or i < 16:
                    want[8 + i] = P16[i]
                elif base:
                    want[8 + i] = base[i]
            want[full + 8] = want[full + 9] = want[0x51] = want[0x7FFF] = None
            got = bk.colour_map
            if len(got) != full + 12 or set(want) - set(got):
                return Result("BIFF%d: colour_map has keys %r" % (ver, sorted(got)))
            for k, v in want.items():
                if got[k] != v:
                    return Result("BIFF%d, %r palette entries: colour %d is %r, should be %r" % (ver, n, k, got[k], v))
        return Result(None, outcome=case, evals=full)


BUILTIN = ["Normal", "RowLevel_%d", "ColLevel_%d", "Comma", "Currency", "Percent", "Comma [0]", "Currency [0]", "Hyperlink", "Followed Hyperlink"]


class Styles(Space):
    name = "STYLE records"
    bound = "every builtin id and level, every XF index bit pattern, user names of every length, all orders of 3, versions 3..8"

    def gen(self):
        for ver in B.VERSIONS[1:]:
            for i in range(6):
                yield ver, i

    def judge(self, case):
        ver, i = case
        recs, want = [], {}
        n = 0
        if i < 4:
            for b in range(10):
                for lev in range(7) if b in (1, 2) else (0xFF,):
                    x = (b * 37 + lev * 5 + (1 << (b + i) % 12)) & 0xFFF
                    recs.append(B.style_builtin(x, b, lev))
                    want[BUILTIN[b] % (lev + 1) if b in (1, 2) else BUILTIN[b]] = (1, x)
            for ln in range(1 + i, 256 if ver < 80 else 300, 4):
                nm = ("\u0416" if ver >= 80 and i & 1 else "\xe9") + "y" * (ln - 1)
                x = (ln * 131) & 0xFFF
                recs.append(B.style_user(ver, x, nm))
                want[nm] = (0, x)
            for x in range(12):
                recs.append(B.style_user(ver, 1 << x, "bit%d" % x))
                want["bit%d" % x] = (0, 1 << x)
            if i == 1:
                recs.reverse()
        elif i == 4:
            recs, want = [b"\x93\x02\x04\0\0\0\0\0"], {"Normal": (1, 0)}
        else:
            recs, want = [B.style_user(ver, 5, "a"), B.style_user(ver, 6, "a"), B.style_builtin(9, 0)], {"a": (0, 6), "Normal": (1, 9)}
        pre = B.font(ver) + (B.fmt(ver, 0, "General") if ver < 50 else b"") + B.xf(ver) * 20 + b"".join(recs)
        for fi in (True, False):
            bk = open_bytes(B.single(ver, B.dimensions(ver, 0, 0, 0, 0), pre), formatting_info=fi)
            got = bk.style_name_map
            n += len(want)
            if got != (want if fi else {}):
                d = [(k, got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)]
                return Result("BIFF%d: style_name_map differs: %.200r" % (ver, d), evals=n)
        return Result(None, outcome=case, evals=n)


class Attr20(Space):
    """BIFF2.0 has no XF records: the formatting stands in each cell record, in three bytes."""
    name = "cell attributes of BIFF2.0"
    bound = "every value of the three attribute bytes (format 64 x font 4 x alignment, border and shade 256 x protection 4), every kind of cell record, ROW and COLUMNDEFAULT attributes"
    case_limit = 60

    def gen(self):
        for b1 in range(256):
            yield b1

    def judge(self, b1):
        pre = b"".join(B.font(21, "F%d" % i) for i in range(4))
        date = lambda i: i % 3 == 1
        pre += b"".join(B.fmt(21, i, "d/m/yy" if date(i) else "0." + "0" * (i + 1)) for i in range(64))
        rows, want = b"", {}
        k = 0
        for b2 in range(256):
            cells = b""
            for c, prot in enumerate((0, 0x40, 0x80, 0xC0)):
                a = bytes([prot, b1, b2])
                kind = k % 6
                k += 1 + (c == 3)
                cells += (lambda: B.number(21, b2, c, 1.5, a), lambda: B.integer2(b2, c, 7, a), lambda: B.label(21, b2, c, "x", a), lambda: B.boolerr(21, b2, c, 1, 0, a),
                          lambda: B.blank(21, b2, c, a), lambda: B.formula(21, b2, c, 2.5, a))[kind]()
                want[b2, c] = (a, 3 if kind in (0, 1, 5) and date(b1 & 63) else {0: 2, 1: 2, 2: 1, 3: 4, 4: 6, 5: 2}[kind])
            if b2 % 16 == 3:
                rows += B.row_b2(b2, attr=bytes([0x40, b1, b2 ^ 0x55]))
            rows += cells
        cols = B.columndefault_b2(1, [bytes([p, b1, b1 ^ 0xFF]) for p in (0, 0x40, 0x80)])
        data = B.single(21, B.dimensions(21, 0, 256, 0, 4) + cols + rows, pre)
        n = 0
        plain = open_bytes(data).sheet_by_index(0)
        bk = open_bytes(data, formatting_info=True)
        sh = bk.sheet_by_index(0)
        got = [("cell (%d, %d)" % rc, a, sh.cell_xf_index(*rc), t, sh.cell_type(*rc), plain.cell_type(*rc) if t != 6 else 6) for rc, (a, t) in want.items()]
        got += [("row %d" % b2, bytes([0x40, b1, b2 ^ 0x55]), sh.rowinfo_map[b2].xf_index, 0, 0, 0) for b2 in range(3, 256, 16)]
        got += [("column %d" % (1 + i), bytes([p, b1, b1 ^ 0xFF]), sh.colinfo_map[1 + i].xf_index, 0, 0, 0) for i, p in enumerate((0, 0x40, 0x80))]
        for what, a, x, t, t1, t2 in got:
            if t1 != t or t2 != t:
                return Result("%s with attributes %s: type %d/%d, should be %d" % (what, a.hex(), t1, t2, t), evals=n)
            xf = bk.xf_list[x]
            word = a[1] >> 6 | a[0] << 8 | (a[1] & 63 | a[0] & 0xC0) << 16 | a[2] << 24      # the same bits in a BIFF2.1 XF record
            e = expected(21, word)
            e.update(xf_index=x, is_style=0)
            for at, v in e.items():
                o = xf
                for part in at.split("."):
                    o = getattr(o, part)
                n += 1
                if o != v:
                    return Result("%s with attributes %s: %s is %r, encoded %r" % (what, a.hex(), at, o, v), evals=n)
            n += 1
            if not (0 <= xf.parent_style_index < len(bk.xf_list) and bk.xf_list[xf.parent_style_index].is_style):
                return Result("%s with attributes %s: parent_style_index %r leads to no style XF" % (what, a.hex(), xf.parent_style_index), evals=n)
        return Result(None, outcome=b1, evals=n)


def spaces(tier):
    return [XFs(600), Fonts(), Formats(), Palette(), Styles(), Attr20(), neigh.Neigh(neigh.formatting, "formatting")]
