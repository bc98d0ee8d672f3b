"""Everything a book says, through its documented attributes, as a comparable plain value."""
SHEET_ATTRS = """name number nrows ncols visibility defcolwidth standardwidth default_row_height default_row_height_mismatch
default_row_hidden default_additional_space_above default_additional_space_below col_label_ranges row_label_ranges merged_cells
rich_text_runlist_map horizontal_page_breaks vertical_page_breaks first_visible_rowx first_visible_colx gridline_colour_index
gridline_colour_rgb cooked_page_break_preview_mag_factor cooked_normal_view_mag_factor cached_page_break_preview_mag_factor
cached_normal_view_mag_factor scl_mag_factor has_pane_record vert_split_pos horz_split_pos horz_split_first_visible
vert_split_first_visible split_active_pane gcw show_formulas show_grid_lines show_sheet_headers panes_are_frozen
show_zero_values automatic_grid_line_colour columns_from_right_to_left show_outline_symbols remove_splits_if_pane_freeze_is_removed
sheet_selected sheet_visible show_in_page_break_preview colinfo_map rowinfo_map hyperlink_list hyperlink_map
cell_note_map""".split()
BOOK_ATTRS = """nsheets datemode biff_version codepage encoding countries user_name font_list xf_list format_list format_map
style_name_map colour_map palette_record name_obj_list name_map name_and_scope_map""".split()
FMT_ONLY_SHEET = """merged_cells rich_text_runlist_map horizontal_page_breaks vertical_page_breaks colinfo_map rowinfo_map gcw
gridline_colour_index""".split()
FMT_ONLY_BOOK = "font_list xf_list style_name_map colour_map palette_record".split()
_SCALAR = (int, str, bytes, type(None), bool)


def plain(x, depth=0, memo=None):
    if isinstance(x, _SCALAR):
        return x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, bytearray):
        return bytes(x)
    if depth > 8:
        return "..."
    if memo is None:
        memo = {}
    if isinstance(x, (list, tuple)):
        return tuple(plain(v, depth + 1, memo) for v in x)
    if isinstance(x, dict):
        return tuple(sorted(((repr(plain(k)), plain(v, depth + 1, memo)) for k, v in x.items()), key=_first))
    return obj(x, depth, memo)


def _first(kv):
    return kv[0]


_SKIP = ("book", "dump", "logfile", "verbosity", "evaluated", "stack", "any_rel", "any_err", "any_external")
_class_names = {}


def _keep(n):
    return not (n.startswith("_") and not n.endswith("_flag")) and n not in _SKIP


def obj(o, depth=0, memo=None):
    """All public non-callable attributes; an object met again at the same depth is not walked again."""
    memo = {} if memo is None else memo
    key = (id(o), depth)
    if key in memo:
        return memo[key][1]
    t = type(o)
    static = _class_names.get(t)
    if static is None:
        static = set()
        for klass in t.__mro__:
            static |= {n for n, v in klass.__dict__.items() if _keep(n) and not (callable(v) and not isinstance(v, property))}
            static |= {n for n in getattr(klass, "__slots__", ()) if _keep(n)}
        _class_names[t] = static
    d = {}
    for n in static | {n for n in getattr(o, "__dict__", ()) if _keep(n)}:
        try:
            v = getattr(o, n)
        except AttributeError:
            continue
        if callable(v):
            continue
        d[n] = plain(v, depth + 1, memo)
    r = (t.__name__,) + tuple(sorted(d.items()))
    memo[key] = (o, r)
    return r


def cells(sh, fmt=None):
    """(type, value, xf) rows."""
    fmt = sh.formatting_info if fmt is None else fmt
    out = []
    for r in range(sh.nrows):
        out.append(tuple((c.ctype, repr(c.value), c.xf_index if fmt else None) for c in sh.row(r)))
    return tuple(out)


def sheet(sh, skip=()):
    d = {}
    for a in SHEET_ATTRS:
        if a in skip:
            continue
        v = getattr(sh, a, None)
        d[a] = plain(v)
    d["cells"] = cells(sh)
    return d


def book(bk, skip=()):
    d = {a: plain(getattr(bk, a, None)) for a in BOOK_ATTRS if a not in skip}
    d["sheet_names"] = plain(bk.sheet_names())
    return d


def full(bk, skip=()):
    d = book(bk, skip)
    d["sheets"] = tuple(tuple(sorted(sheet(bk.sheet_by_index(i), skip).items())) for i in range(bk.nsheets))
    return d


def diff(a, b, path=""):
    """First difference between two plain values, as text (or None)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s/%s only on one side" % (path, k)
            r = diff(a[k], b[k], "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%s: %d items against %d: %.300r against %.300r" % (path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
                return diff(x, y, "%s[%s]" % (path, lab))
        return None
    if a != b or type(a) is not type(b):
        return "%s: %.300r against %.300r" % (path, a, b)
    return None
