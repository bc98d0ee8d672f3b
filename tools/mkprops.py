"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)
S, B, F, G, Z, CD, XD, H = ("xlrd/sheet.py", "xlrd/book.py", "xlrd/formula.py", "xlrd/formatting.py",
                       "xlrd/__init__.py", "xlrd/compdoc.py", "xlrd/xldate.py", "xlrd/biffh.py")

p("C01", "Cell grid reproduces the stored cells at their addresses, in any record order",
  "A worksheet's grid holds, at every (row, column), the value and type of the last cell record in the file that addresses it, and an empty cell everywhere else; nrows and ncols are exactly one more than the greatest row and column addressed by a stored cell (blank cells and merged ranges also count when formatting_info is on, and a declared DIMENSIONS row/column count is never allowed to hide a cell). "
  "With ragged_rows every row is exactly as long as its last stored cell requires, otherwise every row has ncols cells, and this holds whatever the order, repetition or kind (single or multi-cell) of the cell records.",
  ["histories", "inputs"], "all sequences of cell/blank/row/merge/dimension records up to a depth over colliding addresses, in both padding modes and with formatting on and off",
  "Tests read a handful of fixed files written by Excel, whose records come in ascending order without repeats; rewriting, out-of-order and overlapping records are never sampled.",
  [S], [("put_cell_ragged / put_cell_unragged", S), ("tidy_dimensions", S), ("Sheet.read dispatch on cell records", S)],
  [("nrows/ncols", "declared extent of the sheet", "Sheet")], ["Sheet.nrows/ncols/row_len/cell/row"])

p("C02", "Load options and data sources never change the extracted data",
  "For the same workbook bytes, opening from a path (with or without mmap), from bytes, an mmap or any other sliceable object, wrapped in an OLE2 container or as a bare stream, on demand or not, ragged or not, at any verbosity and with any logfile, yields the same sheet names, dimensions, cell values, cell types, names and other book-level data. "
  "formatting_info only adds blank cells and formatting detail; it never changes the value or type of any non-blank cell. An option left out means its documented default (eager, padded rows, no formatting information, strict about corruption), and options may be given by keyword or in the documented order.",
  ["configurations", "inputs"], "the full cross product of the loading options and sources for a library of synthetic workbooks covering every record kind and BIFF version, plus the sample files",
  "Tests open each sample file under one or two option combinations and look at a few attributes; the cross product is never compared.",
  [Z, B, S, CD], [("open_workbook option plumbing", Z), ("Book.biff2_8_load", B), ("verbosity/formatting branches of the record loops", S)])

p("C03", "All accessors of a sheet agree with each other, with Python indexing semantics",
  "cell, cell_value, cell_type, cell_xf_index, row, row_types, row_values, row_slice, col, col_types, col_values, col_slice, row_len, get_rows, iteration and [] indexing (row, or row-and-column) all describe one and the same grid. "
  "Start and end arguments mean what a Python slice means (negative indexes count from the end, an omitted or excessive end means the end, an empty range gives an empty list) and an out-of-range single index raises IndexError. The lists an accessor returns are the caller's own: changing them leaves the sheet as it was.",
  ["inputs"], "all small grid shapes (including empty and ragged) and all start/end/index arguments in a range around the grid's edges",
  "Tests call a few accessors at a few positions of one file; the argument space around the boundaries is unsampled.",
  [S], [("row_slice/col_slice/row_values/col_values/... start-end normalisation", S), ("Sheet.__getitem__, get_rows", S), ("Sheet.cell_xf_index fallbacks", S)])

p("C04", "On-demand: any load/unload/release history behaves like the eager book",
  "With on_demand=True the book's sheet list, names and nsheets are available at once, a sheet is loaded exactly when first requested (sheet_loaded tells), repeated requests return the same object until unload_sheet, and every loaded sheet equals the one an eager open gives, whatever the order of requests. "
  "After release_resources or leaving a with block, sheets already loaded stay fully usable, requests for unloaded ones raise XLRDError, and release may be repeated.",
  ["histories"], "all histories of sheet_by_index, sheet_by_name, indexing, iteration, sheets(), unload_sheet, sheet_loaded, release_resources and with-exit over workbooks with up to three sheets, explored to a fixpoint of the abstract state",
  "Tests walk a couple of fixed histories.",
  [B], [("sheet_by_index/get_sheet/unload_sheet/sheet_loaded/release_resources", B)],
  [("_sheet_list, _resources_released", "which sheets are loaded; whether the backing store is gone", "Book")])

p("C05", "No open file or mapping outlives a failed open, a finished open or a with block",
  "If open_workbook raises, for whatever reason and at whatever point of the load, every file descriptor and memory map it opened is closed before the exception reaches the caller. "
  "After a successful open without on_demand, after release_resources, and after a with block (however it is left), no descriptor or mapping opened by xlrd remains.",
  ["fault_sequences", "crash_points"], "a fault injected at every file/mmap operation and every read of the workbook, every truncation point of sample files, in every source and option combination",
  "Tests check one on-demand release; no fault is injected anywhere.",
  [B, Z], [("try/except around loading in open_workbook_xls", B), ("release_resources", B), ("with open(...) in biff2_8_load and inspect_format", B)])

p("C06", "OLE2 streams are reassembled byte for byte from any legal sector layout",
  "The content returned for a named stream is exactly the stream's bytes in order, truncated to its recorded size, for every placement and order of its sectors, of the allocation tables, of the directory and of the short-stream container, for streams below and above the short-stream threshold, and when the master allocation table overflows into extension sectors. "
  "A stream is found under its name or path irrespective of letter case and of its place in the directory tree, and a missing name is reported as missing.",
  ["inputs"], "all placements of up to a bounded number of sectors of every kind, all stream sizes around sector and threshold boundaries, all small directory trees",
  "Tests read files from a few writers, whose sectors are nearly all contiguous and whose allocation tables fit in the header.",
  [CD], [("CompDoc.__init__ MSAT/SAT/SSAT/directory reading", CD), ("_get_stream/_locate_stream/locate_named_stream/get_named_stream", CD), ("_dir_search", CD)])

p("C07", "Corrupt OLE2 allocation structures never hang or yield another stream's bytes",
  "Whatever a container's allocation tables, directory links and header fields say, opening it or extracting a stream terminates in time and memory proportional to the file. "
  "A chain that loops, is cut short, leaves the file or its container, or reuses sectors already owned by another structure is reported by an exception or at least a WARNING in the log and is never silently presented as a complete correct stream (ignore_workbook_corruption=True only tolerates a workbook stream reusing sectors). Of a file cut short, whatever is returned of a stream is its beginning: nothing moves into the place of missing sectors.",
  ["inputs", "fault_sequences"], "every assignment of allocation-table entries (every successor graph) over a small sector set, every value class of each header and directory field",
  "Tests contain two or three corrupt files.",
  [CD], [("seen-array and size accounting in _get_stream/_locate_stream", CD), ("MSAT/SAT validation in CompDoc.__init__", CD)])

p("C08", "Shared strings survive any legal split across CONTINUE records",
  "Every shared string comes out exactly as stored - compressed or UTF-16, with or without rich-text runs or phonetic data, empty or long, including characters outside the basic plane - no matter where the SST record is broken into CONTINUE records, including breaks inside a string where compression may change. "
  "With formatting_info on, each string cell's rich-text run list is exactly the stored one. "
  "The same holds for the BIFF8 strings of every other record (sheet, font, style, format, user, defined and add-in function names, label cells, string constants, note authors): text as stored, nothing after it misread.",
  ["inputs"], "every legal cut position and every pair of cut positions of shared-string tables mixing all the string kinds, with each compression choice of the continued part",
  "Sample files contain at most a few natural splits.",
  [B, S], [("unpack_SST_table", B), ("handle_sst", B), ("LABELSST handling and rich_text_runlist_map", S)])

p("C09", "Formula strings and note text survive any legal split across CONTINUE records",
  "A string formula result (STRING record plus continuations) and the text and rich-text runs of a cell note (TXO record plus continuations, or chained NOTE records in older versions) are returned exactly as stored, wherever the text is divided between records and whichever compression each part uses. "
  "Notes carry the right cell address, author, show/hidden flags and object linkage, whatever the order of the drawing objects.",
  ["inputs"], "every cut position of strings mixing narrow, wide, double-byte and surrogate-pair characters, each compression choice per part, each BIFF version; every pairing order of objects, texts and notes",
  "One test covers a single real note file; none covers continued strings.",
  [S], [("string_record_contents", S), ("handle_txo/handle_note/handle_obj", S)])

p("C10", "Numeric cells have exactly the stored number",
  "Each numeric cell, whether stored as a double, an RK-packed value, in a multi-cell RK record, as a BIFF2 integer or as a formula's cached result, is returned as the float the file format defines for those bits, bit for bit, and its type is number, or date where its format is a date format.",
  ["inputs"], "all low-order flag combinations and every single-bit/boundary pattern of the packed encodings, all lengths of multi-cell records",
  "Tests check some dozens of values.",
  [S], [("unpack_RK", S), ("NUMBER/RK/MULRK/INTEGER/FORMULA handling", S)])

p("C11", "Formula cells report the cached result with its right type and value",
  "A formula cell has the type and value of its cached result: number (or date by format), text, boolean, error code, or empty string as text; this holds for every BIFF version, and whatever auxiliary records (shared formula, array, table, continuation) lie between the formula and its string result. "
  "A formula record never disturbs the cells that follow it.",
  ["inputs", "histories"], "all sequences of formula cells over the result kinds with all legal auxiliary records between, in each BIFF version",
  "One sample file with formulas is read.",
  [S], [("XL_FORMULA branches of Sheet.read", S), ("string_record_contents", S)])

p("C12", "Number cells are dates exactly when their number format is a date format",
  "A numeric cell is reported as a date if and only if the number format of its cell format shows date or time components; literal text in quotes, escaped characters, colour and condition sections, and fraction/scientific/general formats never make a number a date, and no standard builtin date format code is missed. "
  "The classification is the same with and without formatting_info, and for user-defined formats does not depend on the format key.",
  ["inputs"], "all builtin format codes in every BIFF version, all format strings up to a length over an alphabet of format tokens, all placements of formats among the format keys",
  "Tests try about twenty format strings.",
  [G], [("is_date_format_string", G), ("std_format_code_types / fill_in_standard_formats", G), ("handle_format/handle_xf/xf_epilogue", G)])

p("C13", "Serial dates convert to and from calendar dates exactly",
  "For both date systems each valid serial number converts to the calendar date and time-of-day Excel shows (rounded to the second for tuples, to the millisecond for datetimes), and converting date and time tuples back gives the serial number again. "
  "Negative, ambiguous (before 1 March 1900), too large numbers, bad date modes and invalid date or time tuples raise the documented exception from the tuple functions rather than returning a wrong answer.",
  ["inputs"], "every day of both date systems, every second (and half-second edge) of a day, every small date tuple around month and year edges",
  "Tests convert some ten dates.",
  [XD], [("xldate_as_tuple/xldate_as_datetime", XD), ("xldate_from_date_tuple/_time_tuple/_datetime_tuple", XD)])

p("C14", "Text of pre-Unicode files is decoded with the declared or overriding code page",
  "In BIFF versions before 8 every string (cell text, formula text, sheet name, defined name, font name, format string, user name) is decoded with the encoding of the CODEPAGE record, or with encoding_override if given, or else iso-8859-1, wherever the CODEPAGE record stands before the text. "
  "Book.codepage and Book.encoding report it, an unusable code page raises rather than mis-decoding, and BIFF8 text is unaffected by code pages.",
  ["configurations", "inputs"], "every known code page crossed with every string-bearing record kind, BIFF version and override choice, every byte value",
  "Tests do not open any file with a non-default code page.",
  [B, S, H], [("derive_encoding/handle_codepage", B), ("encoding_from_codepage", H), ("unpack_string and its callers", H)])

p("C15", "The same sheet written in any BIFF version reads the same",
  "A logical worksheet (numbers, texts, booleans, errors, dates and formula results at given addresses) stored with the record layouts of any supported BIFF version (2, 2.1, 3, 4, 4W, 5, 7, 8) is extracted with the same dimensions, types and values, and biff_version tells the version. "
  "Versions are recognised from any of the legal forms of the BOF record.",
  ["configurations", "inputs"], "all small logical sheets over the cell kinds, crossed with all versions and BOF forms",
  "Tests sample one file in an old version.",
  [S, B], [("version-dependent branches of Sheet.read", S), ("getbof", B), ("fake_globals_get_sheet", B)])

p("C16", "Cell format and column width follow the documented default hierarchy",
  "With formatting_info, a cell's XF index is its own if it is stored, else the row's default if the row has one, else the column's, else 15, for negative indexes as for positive. "
  "computed_column_width gives the explicit column width where there is one, else the standard width, else the default column width, as documented for the file's version, and row and column attributes come out as stored.",
  ["configurations", "inputs"], "all combinations of presence/absence of cell, row and column information over a small grid, all positions including negative, each BIFF version",
  "Tests check two positions of one file.",
  [S], [("cell_xf_index", S), ("computed_column_width", S), ("ROW/COLINFO/STANDARDWIDTH/DEFCOLWIDTH/GCW handling", S)])

p("C17", "XF, font, format, palette and style records are decoded field by field",
  "Each attribute of each XF (font, format key, alignment, border, background, protection, style and parent), font, number format, colour map and palette entry and style name equals the value encoded in the corresponding bits of the record (of the cell record in BIFF 2.0, which has no XF records), independently of all other bits, in every BIFF version that has it. "
  "The attribute-usage flags and the parent style index of each XF are reported as stored. Fonts, formats and the parts of XFs compare equal exactly when all their attributes are.",
  ["inputs"], "every value of each bit field with the rest all zeros and all ones, every version; all parent/flag combinations",
  "Tests check a few formatting attributes of one file.",
  [G], [("handle_xf/xf_epilogue", G), ("handle_font/handle_format/handle_style/handle_palette/palette_epilogue", G), ("upkbits manifests", H)])

p("C18", "Defined names have the right scope, maps and referenced cells",
  "Every defined name appears once in name_obj_list in file order with its name, flags and scope (global, or the worksheet it is local to, counted among the worksheets even when charts, macro sheets or modules lie between); name_and_scope_map and name_map give access by lower-case name, scopes sorted. "
  "Name.cell and Name.area2d give the cell or rectangle the formula refers to on the right sheet, clipped to the sheet's extent when asked, and raise XLRDError for anything else.",
  ["inputs", "configurations"], "all arrangements of sheet kinds up to four sheets, all scopes, all reference tokens over edge positions, each BIFF version with names",
  "Tests read one sample of names with a few names.",
  [B, F], [("handle_name/names_epilogue", B), ("Name.cell/Name.area2d", B), ("get_externsheet_local_range(_b57)", F)])

p("C19", "Defined-name formulas: text and constant result agree with the formula's meaning",
  "For every well-formed name formula, the result's text is a formula that parses back to the same expression tree under Excel's precedence rules ('?' standing for an operand it cannot render: array constants, references that are deleted or not tied to a sheet, unknown functions), and where a constant value or reference is given it is what Excel's operators define for the constants (otherwise the value is left unknown). "
  "No formula, well-formed or not, that merely cannot be evaluated makes the workbook unreadable, and evaluation never affects other names.",
  ["programs"], "all postfix token programs up to a length over an alphabet with every operator, operand and function class, every BIFF version with names",
  "Tests evaluate about ten sampled formulas.",
  [F], [("evaluate_name_formula", F), ("do_binop/do_unaryop precedence ranks", F), ("num2strg/rangename3d", F)])

p("C20", "Sheet-level metadata records are reported as stored",
  "merged_cells, horizontal and vertical page breaks, row and column label ranges, pane and freeze settings, window and zoom settings, default row height, gridlines/visibility flags and first-visible positions equal the values in their records in every BIFF version that has them, accumulate over repeated records where the format allows several, and have their documented defaults when absent. "
  "Ranges are half-open exactly as documented. The workbook's country codes, date mode, code page and user name are those of its records.",
  ["inputs", "histories"], "all counts and repetition patterns of list-like records, every bit of flag fields, all versions",
  "A sample file each is used for few of these records and none for the rest.",
  [S], [("MERGEDCELLS/LABELRANGES/PAGEBREAKS/PANE/WINDOW2/SCL/DEFAULTROWHEIGHT handling", S), ("update_cooked_mag_factors", S), ("unpack_cell_range_address_list_update_pos", H)])

p("C21", "Hyperlinks are attached to their cells with the stored targets and texts",
  "hyperlink_list holds every hyperlink in file order with its range, type (url, unc, local file, workbook), target, text mark, description and quick tip exactly as stored, and hyperlink_map gives for each cell the last link covering it, when formatting_info is on.",
  ["inputs"], "all combinations of the optional parts of a link record, all target kinds, all overlap patterns of small ranges, quick tips present or not",
  "Tests read one sample file with four links.",
  [S], [("handle_hlink", S), ("handle_quicktip", S)])

p("C22", "Records xlrd does not need are skipped without disturbing anything",
  "Inserting records that carry no worksheet data - unknown or unsupported types of any length, empty records, an embedded chart or other nested BOF..EOF substream - at any record boundary where the format allows them leaves every extracted value, name and format unchanged.",
  ["inputs", "fault_sequences"], "every record boundary of workbooks covering all supported records, every record code, every embedded substream kind",
  "Sample files contain the records they happen to contain.",
  [S, B], [("Sheet.read / parse_globals fall-through", S), ("nested BOF skipping", S), ("parse_globals", B)])

p("C23", "Damaged or encrypted files fail with an exception, never with a hang",
  "Opening a file cut at any byte, or with any single byte altered, terminates in bounded time by returning a book or raising an ordinary exception, never hangs or exhausts memory. "
  "A truncated file is never silently read as complete up to missing sheets, text that is not a workbook, unsupported stream types and encrypted workbooks raise XLRDError.",
  ["fault_sequences", "inputs"], "every truncation point and every byte position (with a set of replacement values) of synthetic workbooks and sample files; every BOF variant",
  "Tests open two or three broken files.",
  [B, S, CD, Z], [("getbof", B), ("handle_filepass", B), ("record loops", S)])

p("C24", "File type inspection recognises each format by content alone",
  "inspect_format tells xls, xlsx, xlsb, ods, other readable zip and unknown content apart by the leading signature and the zip's component names (ignoring case and slash direction), the same from a path (with ~ expanded) as from bytes (which count when both are given), and always returns a key of FILE_FORMAT_DESCRIPTIONS. "
  "open_workbook raises XLRDError naming the format for every recognised format but xls, and opens xls content from the same path or bytes.",
  ["inputs", "configurations"], "all prefixes of the signatures, all small sets of component names with case and slash variants, both sources",
  "Tests inspect one file of each format.",
  [Z, B], [("inspect_format", Z), ("open_workbook", Z)])

p("C25", "dump and count_records account for every byte and record of the stream",
  "count_records reports every record type of the workbook stream with its exact number of occurrences, and dump lists every record in order with its offset, type, length and all data bytes, including unnumbered mode and streams with padding or a damaged tail.",
  ["inputs"], "all record sequences up to a bound, all data lengths around line boundaries, every truncation of the tail",
  "No test inspects the output.",
  [H, Z], [("biff_dump", H), ("biff_count_records", H), ("hex_char_dump", H)])

p("C26", "Cell, range and sheet reference helpers print correct Excel references",
  "colname, cellname, cellnameabs and the range-name helpers give the A1 or R1C1 reference Excel shows for every row and column of the format and every combination of relative and absolute parts, and sheet names containing blanks or apostrophes are quoted with inner apostrophes doubled. "
  "Parsing the produced text gives the coordinates back, so different references never share a text.",
  ["inputs"], "all columns, rows around every digit-length edge, all relative/absolute flags and offsets, all sheet spans and awkward sheet names",
  "Tests check a few names.",
  [F, B], [("colname/cellname/cellnameabs/rownamerel/colnamerel", F), ("rangename2d/rangename3d/rangename3drel/quotedsheetname", F)])

p("C27", "Workbooks opened one after another or concurrently do not affect each other",
  "The data extracted from a workbook is the same whether it is the only one opened in the process, opened after any other workbooks, or loaded while other threads load other workbooks, at any interleaving; books never share mutable state through the library, and mutating one book's lists and maps does not alter another's or a later one.",
  ["schedules", "histories"], "all sequences of opens up to a length over dissimilar workbooks, and all interleavings (bounded preemptions) of two threads loading them, with every read of the file content a scheduling point",
  "Tests open files one at a time in one thread and compare nothing across opens.",
  [B, S, G], [("per-instance initialisation in Book.__init__/Sheet.__init__", B), ("initialise_book/initialise_format_info", G), ("module-level tables and caches", S)])

p("C28", "Sheets are listed, ordered and located as the workbook declares them",
  "sheet_names, nsheets, visibility and sheet order follow the workbook's sheet declarations, with charts, macro sheets and modules left out, and each sheet's data is read from the place its own declaration points to, wherever the sheets lie in the stream. "
  "Sheets can be reached by name, by index and by iteration, equal objects each way, and unknown names raise XLRDError; the lists of sheets and names handed out are copies; BIFF4 workspace-style workbooks with several embedded sheets give all of them in order.",
  ["configurations", "inputs"], "all arrangements of up to four sheets of all types and visibilities, all physical orders of the substreams, all versions with workbooks",
  "Tests open files whose sheets are all worksheets in natural order.",
  [B], [("handle_boundsheet/handle_sheethdr/handle_sheetsoffset", B), ("get_sheet/sheet_by_name/__getitem__/__iter__", B)])

p("C29", "decompile_formula renders any parsed cell formula faithfully",
  "decompile_formula returns, for every well-formed formula token sequence of a cell, shared, array, data-validation or conditional-format formula, a text that parses back to the same expression tree ('?' standing for an operand it cannot render), with relative references resolved against the given base cell (in A1 or R1C1 notation; as offsets in R1C1 notation when there is no base), and never raises on well-formed tokens it has no rendering for (shared-formula and table links, tokens unexpected in that type of formula, unknown functions, names and sheets the book does not have) but returns a best-effort text.",
  ["programs"], "all postfix token programs up to a length over an alphabet with every operator, operand and function class, for BIFF2 to BIFF8, each formula type and edge base cells",
  "No test calls it.",
  [F], [("decompile_formula", F), ("do_binop/do_unaryop", F), ("get_cell_addr/get_cell_range_addr", F)])

p("C30", "The runxlrd tool runs every documented command on every readable file",
  "Each documented runxlrd command (show, ov, hdr, hotshot-free variants, names, fonts, xfs, labels, biff_count, biff_dump, version, ...) and option accepts every readable workbook and prints what the API reports for it - every cell's address, type and value for show - and continues with the next file after an unreadable one. The log file named with -l gets everything the library writes about a file, under that file's heading.",
  ["configurations"], "all commands crossed with option subsets and a set of files covering every version and an unreadable file",
  "No test runs the script.",
  ["scripts/runxlrd.py"], [("main command dispatch", "scripts/runxlrd.py"), ("show/show_row/get_row_data", "scripts/runxlrd.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
