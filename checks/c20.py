"""C20: sheet-level and book-level metadata records are reported as stored."""
import itertools
import biff as B
from mc import Space, Result
from xl import *

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of metadata record sequences up to a depth (against a fold over the records) and of every value of each record's fields, in every version"
NOTE = ("All sequences up to depth 3 (thorough: 4) over 19 sheet metadata records, in every version, next to a sheet that has none; every WINDOW2 option combination; every pane, zoom, row-height, page-break, label and merge field "
        "on boundary values; every count and repetition of the list-like records; every order of the workbook's COUNTRY, DATEMODE, WRITEACCESS and CODEPAGE records.")
RULE = "A case is one sheet (or a block of them); evaluations = sheets compared attribute by attribute. A case is non-trivial when it has a metadata record."
ASSUMPTIONS = ["merged ranges and page breaks are extracted with formatting_info only, as documented", "the mapping of a pre-BIFF8 grid line colour to a palette index is checked for distance, not for the choice between equals"]

OPTS = ("show_formulas", "show_grid_lines", "show_sheet_headers", "panes_are_frozen", "show_zero_values", "automatic_grid_line_colour", "columns_from_right_to_left",
        "show_outline_symbols", "remove_splits_if_pane_freeze_is_removed", "sheet_selected", "sheet_visible", "show_in_page_break_preview")
DEFAULTS = dict(show_formulas=0, show_grid_lines=1, show_sheet_headers=1, panes_are_frozen=0, show_zero_values=1, automatic_grid_line_colour=1, columns_from_right_to_left=0,
                show_outline_symbols=1, remove_splits_if_pane_freeze_is_removed=0, sheet_selected=0, sheet_visible=0, show_in_page_break_preview=0,
                first_visible_rowx=0, first_visible_colx=0, gridline_colour_index=0x40, gridline_colour_rgb=None,
                cached_page_break_preview_mag_factor=0, cached_normal_view_mag_factor=0, scl_mag_factor=None,
                cooked_page_break_preview_mag_factor=60, cooked_normal_view_mag_factor=100,
                has_pane_record=0, vert_split_pos=0, horz_split_pos=0, horz_split_first_visible=0, vert_split_first_visible=0, split_active_pane=0,
                default_row_height=None, default_row_height_mismatch=0, default_row_hidden=0, default_additional_space_above=0, default_additional_space_below=0,
                defcolwidth=None, standardwidth=None, merged_cells=[], horizontal_page_breaks=[], vertical_page_breaks=[], row_label_ranges=[], col_label_ranges=[],
                hyperlink_list=[], hyperlink_map={}, cell_note_map={}, rich_text_runlist_map={}, colinfo_map={}, rowinfo_map={}, gcw=(0,) * 256)


def default():
    return {k: (v.copy() if isinstance(v, (list, dict)) else v) for k, v in DEFAULTS.items()}


# --- reference semantics of one record; each returns (bytes, function updating the expected attributes) -----------

def m_window2(ver, opts, row, col, colour=0x40, rgb=(0, 0, 0), pb=0, nm=0, short=False):
    data = B.window2(ver, opts, row, col, colour, rgb, pb, nm, short is True)
    if short == 14: # without the reserved field
        data = B.rec(0x023E, data[4:18])

    def f(e, fmt):
        for i, a in enumerate(OPTS if ver >= 30 else OPTS[:6]):
            e[a] = (opts >> i) & 1
        e["first_visible_rowx"], e["first_visible_colx"] = row, col
        if ver >= 80 and short is not True:
            e["gridline_colour_index"] = colour
            e["cached_page_break_preview_mag_factor"], e["cached_normal_view_mag_factor"] = pb, nm
        else:
            e["gridline_colour_rgb"] = rgb
            e["gridline_colour_index"] = "nearest"
    return data, f


def m_scl(ver, num, den):
    def f(e, fmt):
        z = num * 100 // den if den else 0
        e["scl_mag_factor"] = z if 10 <= z <= 400 else 100
    return B.scl(num, den), f


def m_pane(ver, *v):
    def f(e, fmt):
        e["has_pane_record"] = 1
        e["vert_split_pos"], e["horz_split_pos"], e["horz_split_first_visible"], e["vert_split_first_visible"], e["split_active_pane"] = v
    return B.pane(ver, *v), f


def m_breaks(ver, horz, items):
    def f(e, fmt):
        if fmt:
            e["horizontal_page_breaks" if horz else "vertical_page_breaks"] += [tuple(x) if ver >= 80 else (x[0], 0, 255 if horz else 65535) for x in items]
    return B.pagebreaks(ver, horz, items), f


def m_labels(ver, rows, cols):
    def f(e, fmt):
        e["row_label_ranges"] += [(a, b + 1, c, d + 1) for a, b, c, d in rows]
        e["col_label_ranges"] += [(a, b + 1, c, d + 1) for a, b, c, d in cols]
    return B.labelranges(rows, cols), f


def m_merged(ver, rs):
    def f(e, fmt):
        if fmt:
            e["merged_cells"] += [(a, b + 1, c, d + 1) for a, b, c, d in rs]
    return B.merged(rs), f


def m_drh(ver, h, flags, short=False):
    def f(e, fmt):
        e["default_row_height"] = h & 0x7FFF if ver < 30 else h
        if ver >= 30:
            fl = 0 if short else flags
            e["default_row_height_mismatch"], e["default_row_hidden"], e["default_additional_space_above"], e["default_additional_space_below"] = [(fl >> i) & 1 for i in range(4)]
    return (B.rec(0x0225, bytes([h & 255, h >> 8])) if short else B.defaultrowheight(ver, h, flags)), f


def m_defcol(ver, n):
    def f(e, fmt):
        e["defcolwidth"] = n
    return B.defcolwidth(n), f


def m_stdw(ver, n):
    def f(e, fmt):
        e["standardwidth"] = n
    return B.standardwidth(n), f


def m_gcw(ver, cols):
    def f(e, fmt):
        if fmt:
            e["gcw"] = tuple(int(c in cols) for c in range(256))
    return B.gcw(cols), f


def finish(e):
    """Zoom factors Excel will use, as documented beside the attributes."""
    scl, nm, pb = e["scl_mag_factor"], e["cached_normal_view_mag_factor"], e["cached_page_break_preview_mag_factor"]
    active = 100 if scl is None else scl
    if e["show_in_page_break_preview"]:
        e["cooked_page_break_preview_mag_factor"] = active
        e["cooked_normal_view_mag_factor"] = nm if 10 <= nm <= 400 else active
    else:
        e["cooked_normal_view_mag_factor"] = active
        e["cooked_page_break_preview_mag_factor"] = 60 if pb == 0 else pb if 10 <= pb <= 400 else active
    return e


def plainmap(v):
    return v


def compare(sh, exp, fmt, bk):
    for k, want in exp.items():
        got = getattr(sh, k)
        if k == "gridline_colour_index" and want == "nearest":
            if fmt:
                rgb = exp["gridline_colour_rgb"]
                dist = {i: sum((a - b) ** 2 for a, b in zip(rgb, c)) for i, c in bk.colour_map.items() if c is not None}
                if got not in dist or dist[got] != min(dist.values()):
                    return "grid line colour %r is given index %r, which is not the nearest" % (rgb, got)
            continue
        if k in ("colinfo_map", "rowinfo_map"):
            if got:
                return "%s should be empty, is %r" % (k, got)
            continue
        if type(got) is not type(want) or got != want:
            return "%s is %.200r, should be %.200r" % (k, got, want)
    return None


def build(ver, body, pre=b""):
    """The sheet with the records and, from BIFF5 on, a following sheet without any."""
    if ver >= 50:
        return B.workbook(ver, [B.Sh("A", body), B.Sh("B", B.number(ver, 0, 0, 1.0))], pre=B.font(ver) + pre + B.xf(ver) * 16)
    if ver == 45:
        return B.workbook4w([("A", B.fmt(40, 0, "General") + body), ("B", B.number(40, 0, 0, 1.0))])
    return B.single(ver, body, pre=B.font(ver) + pre + B.fmt(ver, 0, "General") + B.xf(ver) * 16)


def run(ver, items, fmt, tail=b""):
    """Read a sheet with these records between two cells; None or a text."""
    e = default()
    body = b""
    rv = 40 if ver == 45 else ver
    for data, f in items:
        body += data
        f(e, fmt)
    finish(e)
    cell = B.number(rv, 1, 1, 7.5, 0 if rv >= 30 else B.attr2(0))
    try:
        bk = open_bytes(build(ver, cell + body + cell), formatting_info=fmt)
    except Exception as x:
        return "raises %r" % (x,)
    sh = bk.sheet_by_index(0)
    bad = compare(sh, e, fmt, bk)
    if bad:
        return bad
    if sh.cell_value(1, 1) != 7.5 or sh.nrows < 2:
        return "the cells of the sheet are lost"
    if bk.nsheets > 1:
        bad = compare(bk.sheet_by_index(1), finish(default()), fmt, bk)
        if bad:
            return "the sheet without such records: " + bad
    return None


def alphabet(ver):
    w = 40 if ver == 45 else ver
    a = [m_window2(w, 0x6B6, 3, 2, 0x11, (255, 0, 0), 70, 80), m_window2(w, 0x949, 0, 9, 0x40, (0, 0, 0)), m_pane(w, 2, 3, 4, 5, 1), m_pane(w, 1, 0, 0, 200, 0),
         m_drh(w, 300, 0xA), m_drh(w, 255, 0x5), m_defcol(w, 9), m_breaks(w, 1, [(3, 0, 255)]), m_breaks(w, 1, [(7, 1, 4), (9, 0, 2)]),
         m_breaks(w, 0, [(2, 0, 65535)]), m_breaks(w, 0, [])]
    if w >= 40:
        a += [m_stdw(w, 2000), m_scl(w, 3, 4), m_scl(w, 5, 1)]
    if 40 <= w < 80:
        a.append(m_gcw(w, [0, 3, 255]))
    if w >= 80:
        a += [m_merged(w, [(0, 1, 0, 0)]), m_merged(w, [(2, 3, 0, 1), (0, 0, 1, 2)]), m_merged(w, []), m_labels(w, [(0, 0, 0, 0)], []), m_labels(w, [(1, 2, 3, 4)], [(0, 5, 0, 5), (1, 1, 1, 1)]),
              m_window2(w, 0x6B6, 1, 1, short=True), m_window2(w, 0x6B4, 5, 6, 0x12, (0, 0, 0), 75, 85, short=14)]
    return a


class Sequences(Space):
    name = "sequences of metadata records"

    def __init__(self, depth):
        self.depth = depth
        self.bound = "every sequence of up to %d records over up to 19 metadata records, BIFF2..8, with and without formatting_info, followed by a sheet without any" % depth

    def gen(self):
        for ver in B.VERSIONS:
            n = len(alphabet(ver))
            for k in range(self.depth):
                for pre in itertools.product(range(n), repeat=k):
                    for fmt in (False, True):
                        yield ver, pre, fmt

    def judge(self, case):
        ver, pre, fmt = case
        al = alphabet(ver)
        n = 0
        for last in range(-1 if not pre else 0, len(al)):
            n += 1
            seq = list(pre) + ([last] if last >= 0 else [])
            bad = run(ver, [al[i] for i in seq], fmt)
            if bad:
                return Result("BIFF%d records %r formatting_info=%r: %s" % (ver, seq, fmt, bad), evals=n)
        return Result(None, outcome=case, evals=n, nontrivial=True)


class Window2(Space):
    name = "window settings"
    bound = "every combination of the 12 option bits (BIFF2: 6 flags x byte values 0, 1, 2, 255), every boundary of the other fields"

    def gen(self):
        for ver in B.VERSIONS:
            if ver < 30:
                for x in range(64):
                    yield ver, "opts", x
            else:
                for hi in range(64):
                    yield ver, "opts", hi << 6
            yield ver, "pos", 0
            if ver < 80:
                for i in range(4):
                    yield ver, "rgb", i
            else:
                yield ver, "colour", 0

    def judge(self, case):
        ver, what, x = case
        w = 40 if ver == 45 else ver
        cases = []
        if what == "opts":
            if ver < 30:
                for v in (1, 2, 255):
                    data, f = m_window2(w, x, 0, 0)
                    b = bytearray(data)
                    for i in list(range(5)):
                        b[4 + i] *= v
                    cases.append((bytes(b), f))
            else:
                cases = [m_window2(w, x | lo, 1, 2) for lo in range(64)] + [m_window2(w, x | 0xF000, 1, 2)]
        elif what == "pos":
            cases = [m_window2(w, 6, r, c) for r in (0, 1, 255, 256, 16383, 65535) for c in (0, 1, 127, 128, 255)]
        elif what == "rgb":
            vals = (0, 1, 51, 127, 128, 150, 204, 255)
            cases = [m_window2(w, 6, 0, 0, rgb=(r, g, b)) for r in vals[2 * x:2 * x + 2] for g in vals for b in vals]
        else:
            cases = [m_window2(w, 6, 0, 0, colour=c) for c in list(range(0x60)) + [0x7FFF, 0x8000, 0xFFFF]]
        for i, m in enumerate(cases):
            bad = run(ver, [m], True)
            if bad:
                return Result("BIFF%d WINDOW2 %s %#x (variant %d): %s" % (ver, what, x, i, bad), evals=i + 1)
        return Result(None, outcome=case, evals=len(cases))


class Zoom(Space):
    name = "zoom factors"
    bound = "every SCL fraction num, den <= 45 and boundaries; preview flag x SCL x both cached factors over the edges of 10..400"

    def gen(self):
        for ver in (40, 45, 50, 70, 80):
            for num in list(range(46)) + [100, 399, 400, 401, 32767, 65535]:
                yield ver, "scl", num
        for preview in (0, 1):
            for scl in (None, (0, 1), (9, 100), (10, 100), (3, 4), (4, 1), (401, 100), (1, 0)):
                yield 80, "cooked", (preview, scl)

    def judge(self, case):
        ver, what, x = case
        w = 40 if ver == 45 else ver
        n = 0
        if what == "scl":
            for den in list(range(46)) + [100, 399, 400, 32767, 65535]:
                n += 1
                bad = run(ver, [m_scl(w, x, den)], False)
                if bad:
                    return Result("BIFF%d SCL %d/%d: %s" % (ver, x, den, bad), evals=n)
        else:
            preview, scl = x
            vals = (0, 1, 9, 10, 11, 60, 100, 399, 400, 401, 65535)
            for nm in vals:
                for pb in vals:
                    win = m_window2(80, 6 | preview << 11, 0, 0, pb=pb, nm=nm)
                    for order in (0, 1):
                        n += 1
                        items = [win] + ([m_scl(80, *scl)] if scl else [])
                        bad = run(80, items[::-1] if order else items, False)
                        if bad:
                            return Result("preview %d, SCL %r, cached factors %d and %d: %s" % (preview, scl, nm, pb, bad), evals=n)
        return Result(None, outcome=case, evals=n)


class Panes(Space):
    name = "panes"
    bound = "every combination of 5 boundary values of each of the 4 positions and every active pane, frozen or not, in every version"

    def gen(self):
        for ver in B.VERSIONS:
            for h in (0, 1, 255, 256, 65535):
                for v in (0, 1, 255, 256, 65535):
                    yield ver, h, v

    def judge(self, case):
        ver, h, v = case
        w = 40 if ver == 45 else ver
        n = 0
        for a in (0, 1, 300, 65535):
            for b in (0, 1, 255, 256):
                for act in range(4):
                    for win in (None, 0x8, 0x6):
                        n += 1
                        items = ([m_window2(w, win, 0, 0)] if win is not None else []) + [m_pane(w, v, h, a, b, act)]
                        bad = run(ver, items, False)
                        if bad:
                            return Result("BIFF%d PANE %r: %s" % (ver, (v, h, a, b, act), bad), evals=n)
        return Result(None, outcome=case, evals=n)


class RowHeight(Space):
    name = "default row height"
    bound = "every value of the option bits 0..15 single and in pairs, boundary heights, the two-byte form, every version"

    def gen(self):
        for ver in B.VERSIONS:
            yield ver,

    def judge(self, case):
        ver, = case
        w = 40 if ver == 45 else ver
        n = 0
        flags = sorted({0, 0xFFFF} | {1 << i for i in range(16)} | {1 << i | 1 << j for i in range(16) for j in range(16)} | set(range(16))) if w >= 30 else [0]
        for h in (0, 1, 255, 300, 0x7FFF, 0x8000, 0xFFFF):
            for fl in flags:
                for short in ((False, True) if w >= 30 else (False,)):
                    n += 1
                    bad = run(ver, [m_drh(w, h, fl, short)], False)
                    if bad:
                        return Result("BIFF%d DEFAULTROWHEIGHT %d flags %#x: %s" % (ver, h, fl, bad), evals=n)
        for v in (0, 1, 8, 255, 65535):
            for m in (m_defcol, m_stdw):
                n += 1
                bad = run(ver, [m(w, v)], False)
                if bad:
                    return Result("BIFF%d default width %d: %s" % (ver, v, bad), evals=n)
        return Result(None, outcome=case, evals=n)


class Lists(Space):
    name = "list records"
    bound = "every split of up to 9 ranges or breaks over 3 records, boundary coordinates, the largest counts that fit in a record"

    def gen(self):
        for ver in B.VERSIONS:
            kinds = ["h", "v"] + (["merged", "rowlabels", "collabels", "both"] if ver >= 80 else [])
            for k in kinds:
                for split in itertools.product(range(4), repeat=3):
                    yield ver, k, split
                yield ver, k, "big"

    def judge(self, case):
        ver, k, split = case
        w = 40 if ver == 45 else ver
        breaks = [(1, 0, 255), (2, 3, 4), (255, 0, 0), (256, 255, 255), (65535, 0, 255), (0, 0, 65535), (16383, 1, 2), (3, 0, 65535), (4, 5, 6)]
        ranges = [(0, 0, 0, 0), (0, 1, 2, 3), (65535, 65535, 255, 255), (0, 65535, 0, 0), (5, 5, 0, 255), (7, 9, 1, 1), (256, 511, 127, 128), (2, 2, 2, 2), (1, 1, 1, 2)]
        if split == "big":
            if k in "hv":
                sets = [[(i % 65536, i & 255, 255 - (i & 255)) for i in range(1026)], [(0, 0, 0)] * 1, [(i, 0, 1) for i in range(255, 258)]]
            else:
                sets = [[(i, i + 1, i & 255, 255) for i in range(1027)], [(i, i, 0, 1) for i in range(256)]]
        else:
            src = breaks if k in "hv" else ranges
            sets, i = [], 0
            for n in split:
                sets.append(src[i:i + n])
                i += n
        items = []
        for s in sets:
            if k in "hv":
                items.append(m_breaks(w, k == "h", s))
            elif k == "merged":
                items.append(m_merged(w, [x for x in s]))
            elif k == "rowlabels":
                items.append(m_labels(w, s, []))
            elif k == "collabels":
                items.append(m_labels(w, [], s))
            else:
                half = len(s) // 2
                items.append(m_labels(w, s[:half][:500], s[half:][:500]))
        n = 0
        for fmt in (True, False):
            if k == "merged" and fmt:
                # a huge merged range would make the sheet huge; keep the grid small
                big = [x for s in sets for x in s if x[1] > 2000]
                if big and split != "big":
                    items2 = [m_merged(w, [x if x[1] <= 2000 else (x[0] % 1000, x[0] % 1000 + 1, x[2], x[3]) for x in s]) for s in sets]
                    n += 1
                    bad = run(ver, items2, fmt)
                    if bad:
                        return Result("BIFF%d %s %r: %s" % (ver, k, sets, bad), evals=n)
                    continue
            n += 1
            bad = run(ver, items, fmt)
            if bad:
                return Result("BIFF%d %s %.200r formatting_info=%r: %s" % (ver, k, sets, fmt, bad), evals=n)
        return Result(None, outcome=case, evals=n, nontrivial=split == "big" or any(split))


class BookRecords(Space):
    """Country codes, date mode, code page and user name of the workbook."""
    name = "book-level records"
    batch = 1
    COUNTRIES = ((0, 0), (1, 1), (1, 49), (49, 1), (0, 7), (7, 0), (0x3FFF, 0xFFFF), (0xFFFF, 1), (256, 255))
    USERS = ("", "x", "Jo\xe9 Smith", " two  blanks", "tail  ", "o'Neil & \xc4\xd6", "u" * 54, "A\u0416\u20ac", "\U0001F600 x", "\u0100")
    CPS = (1252, 437, 1251, 10000, 1200)
    bound = "every order of every subset of COUNTRY, DATEMODE, WRITEACCESS and CODEPAGE x %d user names, %d country pairs, %d code pages, both date modes, padded or not, every version" % (len(USERS), len(COUNTRIES), len(CPS))

    def gen(self):
        for ver in B.VERSIONS:
            for k in range(5):
                for kinds in itertools.permutations("CDUP", k):
                    yield ver, "".join(kinds)

    def judge(self, case):
        ver, kinds = case
        if "C" in kinds and ver < 30:
            return Result(None, outcome=None, nontrivial=False, evals=0)
        n = 0
        for u, (user, pad) in enumerate(itertools.product(self.USERS, (112, 0))) if "U" in kinds else [(0, ("", 0)), (1, ("", 0))]:
            for v in range(max(len(self.COUNTRIES) if "C" in kinds else 1, len(self.CPS) if "P" in kinds else 1, 2 if "D" in kinds else 1)):
                cc, dm, cp = self.COUNTRIES[v % len(self.COUNTRIES)], (v + u) % 2, self.CPS[(v + u) % len(self.CPS)]
                if ver < 80 and cp == 1200:
                    cp = 1252
                enc = {1252: "cp1252", 437: "cp437", 1251: "cp1251", 10000: "mac_roman", 1200: "utf_16_le"}[cp] if "P" in kinds else "iso-8859-1"
                name = user
                if ver < 80:
                    try:
                        user.encode(enc)
                    except UnicodeEncodeError:
                        name = "plain"
                parts = {"C": B.country(*cc), "D": B.datemode(dm), "U": B.writeaccess(ver, name, enc, pad), "P": B.codepage(cp)}
                pre = b"".join(parts[k] for k in kinds)
                if ver >= 50:
                    # (a code page is due before BOUNDSHEET, the first text, at the latest)
                    data = B.workbook(ver, [B.Sh("A", (parts["C"] if "C" in kinds and v % 2 else b"") + B.number(ver, 0, 0, 1.0)), B.Sh("B", B.number(ver, 0, 0, 2.0))],
                                      **{"post" if u % 2 and ("P" not in kinds or ver >= 80) else "pre": pre})
                elif ver == 45:
                    k = 0 if "P" in kinds else u % 3
                    data = B.workbook4w([("A", (pre if k == 1 else b"") + B.number(ver, 0, 0, 1.0)), ("B", (pre if k == 2 else b"") + B.number(ver, 0, 0, 2.0))], pre=pre if k == 0 else b"")
                else:
                    data = B.single(ver, B.number(ver, 0, 0, 1.0), pre)
                n += 1
                bk = open_bytes(data, formatting_info=bool(v % 3))
                want = dict(countries=cc if "C" in kinds else (0, 0), datemode=dm if "D" in kinds else 0, user_name=name.rstrip() if "U" in kinds else "",
                            codepage=cp if "P" in kinds else 1200 if ver >= 80 else None)
                if ver < 80:
                    want["encoding"] = enc
                for a, w in sorted(want.items()):
                    g = getattr(bk, a)
                    if g != w or type(g) is not type(w):
                        return Result("BIFF%d, records %s (countries %r, date mode %d, user %r, code page %d): Book.%s is %r, stored %r" % (ver, kinds, cc, dm, name, cp, a, g, w), evals=n)
        return Result(None, outcome=case, nontrivial=bool(kinds), evals=n)


def spaces(tier):
    q = tier == "quick"
    return [Sequences(3 if q else 4), Window2(), Zoom(), Panes(), RowHeight(), Lists(), BookRecords()]
