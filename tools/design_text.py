TEXT = {
"C01": """The reader is a state machine over cell records: rows are grown, padded and overwritten as records arrive. The model is a dictionary
(row, column) -> (type, value, xf): last record wins. All sequences of cell-record kinds over small address sets are run to a depth, for every
BIFF version and each load mode (plain, ragged, formatting_info), with and without a (possibly wrong) DIMENSIONS record; the whole grid is compared
after each. States are the distinct grids reached. A test has one order of records; bugs here need a particular *sequence* (a row extended after it
was closed, a multi-cell record over existing cells, a blank that must not overwrite).""",
"C02": """Reference: one load of the file from a bare byte string. Every combination of the load options and of the sources (path, bytes, memory map,
buffer objects, OLE2 container with several layouts) must give the same snapshot of everything extracted (ragged_rows: modulo padding; no
formatting_info: modulo formatting). The workbooks cover every record the reader knows. The whole sample directory of the repository is included.""",
"C03": """Model: a list of lists. All grid shapes to a bound (rectangular and ragged, empty rows and columns included) × every accessor × all
argument tuples including negatives, beyond-the-end and None; value, type, xf and exception behaviour must agree with Python's own list semantics.""",
"C04": """The life of a book is a state machine (per sheet: never loaded / loaded / unloaded; resources released or not). Breadth-first
search over all histories of load, unload, accessor, sheet iteration, release and context-manager events on the *real* Book, with the canonical state
computed from observations; every answer must equal the eager book's. A second space runs all histories to a depth without state merging, so that
the result does not rest on the abstraction of the state.""",
"C05": """Fault enumeration: every call xlrd makes into the interpreter or operating system (open, mmap, read, seek, zip access, log writes,
memory) fails in turn, with each class of exception (OSError, MemoryError, KeyboardInterrupt, …), for every kind of file and option, and every content
byte position is a fault position for readers with a custom mapping. Afterwards no file descriptor or mapping may be left (checked in /proc/self/fd and by
instrumented file objects), neither after a failed open nor after a finished one, release_resources or the end of a with block.""",
"C06": """Reference: the streams as written. All placements of a workbook stream's sectors in a container (all permutations of few sectors,
all interleavings with a second stream), all sizes around every boundary (sector, short sector, cutoff, master table), directory trees of every shape, both
standard and short streams; the bytes returned by the reader (and by the in-place path) must be the bytes written.""",
"C07": """A strict reader of the same container, written from the specification, decides what the tables mean. All successor graphs over a few
sectors (all functions from sectors to sectors, free and end marks), all pairs of header fields at boundary values, all directory link assignments: the real
reader must return the stream's true bytes or raise, never bytes of another structure and never loop. Entries of the master table and its extension
sectors likewise; containers in every sector order, cut at every sector edge, must give back the beginning of each stream or nothing.""",
"C08": """Reference: the strings themselves. Every legal cut position of shared-string tables (within characters runs with the option byte repeated,
between parts), one to three cuts, narrow/wide mixtures, rich-text runs and phonetic blocks, surrogate pairs, empty strings, table sizes. The cut positions
are exhaustively enumerated, which is exactly what a sample file cannot do. A further space puts every combination of string options in each other BIFF8 record
that holds text.""",
"C09": """As C08 for the two other kinds of text that continue over records: STRING after FORMULA (every version) and TXO/NOTE (BIFF8), NOTE
continuation records (BIFF2–7), with all orders of drawing objects and notes to a bound.""",
"C10": """Reference: exact rational arithmetic from the bit pattern. All boundary patterns of RK (both flags, every exponent, every bit), all INTEGER
values, every bit of IEEE doubles; MULRK and the other multi-cell shapes in all widths; the result must be bit-identical.""",
"C11": """Sequences of formula cells × result kinds × auxiliary records × versions, each followed by ordinary cells (a formula record must not
disturb the next cells); every byte of the result field including all values next to the special marker.""",
"C12": """Reference: an independent recogniser of date formats (tokens outside quotes, escapes, fill and pad characters, colour/condition brackets,
elapsed time). All strings over the significant characters to a length and all sequences of tokens; all 65536 format keys; each is attached to real
cells (and to RK/formula cells).""",
"C13": """Reference: the proleptic calendar computed independently. All days of both date systems, all seconds of chosen days, half-second
neighbourhoods of rounding points, all date tuples around every month end, invalid tuples; inverse functions composed both ways.""",
"C14": """Reference: Python's codecs. Every byte (pair) of every code page in every text-bearing record of every version; all 65536 code page
numbers; all placements of CODEPAGE among the records; overrides.""",
"C15": """One logical sheet, eight encodings of it, all record layouts of each: all must read as the logical sheet. Also every form of BOF record
(opcode, length, version field, build, year), since the version is decided there, and every cell format index, direct or through BIFF2's IXFE record.""",
"C16": """Reference: the documented hierarchy (cell, row, column, 15) and the documented order of width sources. Complete products of presence
and absence over small grids, overlapping COLINFO ranges in all orders; every bit and bit pair of ROW and COLINFO, and rows that differ from each other
in one or two bits in one sheet and across sheets (records may be shared internally).""",
"C17": """Reference: the published bit layouts. Every field, every bit, every pair of bits on all-zero and all-one backgrounds of XF, FONT, STYLE,
PALETTE in every version, so any wrong mask, shift or version switch shows; BIFF 2.0, which has no XF records, through every value of the three attribute bytes of its
cells, rows and columns.""",
"C18": """Reference: the names as written. All small multisets of names × scopes × sheets (all arrangements of worksheet, chart, macro sheet), all
flag words, all reference forms, external/add-in/deleted references; maps, scopes, order, cell() and area2d() compared.""",
"C19": """The token stream is a program for a stack machine. All expression trees to a number of operators over every operand kind are encoded to
tokens; the text is parsed back by an independent parser and must give the same tree, and a constant result must be Excel's value. Reference graphs
between names (cycles, chains) are enumerated as graphs; malformed token sequences (all pairs of opcodes, thorough all triples) must not make the
workbook unreadable or hang.""",
"C20": """Reference: a fold over the records. All sequences of metadata records to a depth and all values of every flag word and boundary field.""",
"C21": """Reference: the links as written. All combinations of optional parts, option bits, target kinds, texts with awkward characters, and all overlap
patterns of link ranges.""",
"C22": """Metamorphic: inserting, at every boundary of a workbook that uses everything, a record with any code xlrd has no need of (all 65536
codes at chosen boundaries; all relevant codes at all boundaries), or an embedded chart substream, or junk sheets, must not change the snapshot. The set of
codes that carry data is taken from the published list, not from the source.""",
"C23": """Fault enumeration: every prefix of the workbooks and every single byte replaced by several values, FILEPASS at every boundary, BOF
variants, garbage files. Every outcome must be a book or an exception within the time and memory limits, encrypted files must raise XLRDError, and a truncated file
must not yield cells it does not contain.""",
"C24": """Reference: the published decision (signatures, zip member names). Complete enumeration of signature prefixes and sets of zip members, through
path, bytes and open_workbook.""",
"C25": """The dump's offsets and hex bytes must rebuild the stream; the counts must equal the records written. All sequences of records over lengths
and damaged tails.""",
"C26": """Reference: bijective base-26 and A1/R1C1 syntax written and parsed independently; all columns, edge rows, flags, offsets, bases, sheet
spans over awkward names.""",
"C27": """(a) all sequences of opens over a set of dissimilar workbooks: each book's snapshot must equal the one taken in a fresh process; (b) two threads
opening different workbooks under a controlled scheduler: every schedule with up to the bound of preemptions at the chosen granularity is run.""",
"C28": """All arrangements of sheet declarations (types, visibilities, names, orders) × physical orders and gaps of the substreams × container offsets,
and 4W workspaces.""",
"C29": """As C19 for cell formulas, shared formulas, conditional formats, …: each formula type, base cell and notation; the text parsed back must be the
token program's tree with the right absolute or relative positions.""",
"C30": """The script is run in-process (and as a real process for a part) on every command × option combination × file kind; its output is parsed and
compared with what the API says. File lists with unreadable files at any position must process the rest.""",
}
