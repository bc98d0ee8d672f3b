"""C25: dump and count_records account for every byte and record of the stream."""
import io, itertools, os, re, tempfile
from struct import pack, unpack
import biff as B
import ole
from mc import Space, Result
from xl import *

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of record sequences, data lengths and damaged tails; the stream is rebuilt byte for byte from the dump and the counts from the records"
NOTE = ("Every sequence of up to 3 (thorough: 4) items over 13 kinds of records and padding x 15 tails (none, zero bytes, stray bytes, cut records), numbered or not; every data length 0..80 and around 224, 4112 and 8224; "
        "every record code; streams of up to a megabyte; bare and in three OLE2 layouts.")
RULE = "A case is one block of streams; evaluations = dumps and counts compared. Every case is non-trivial."
ASSUMPTIONS = ["trailing zero bytes are padding, not records"]

KINDS = [("eof", 0x0A, 0), ("num", 0x203, 14), ("l15", 0x04D, 15), ("l16", 0x04D, 16), ("l17", 0x05C, 17), ("l33", 0x0FC, 33), ("unk0", 0x7777, 0), ("unk5", 0x7778, 5), ("unkFFFF", 0xFFFF, 3),
         ("dim2", 0x0000, 8), ("dummy", 0x0000, 0), ("bof", 0x809, 16), ("bof2", 0x009, 4)]
TAILS = [b"", b"\0", b"\0\0", b"\0\0\0", b"\0" * 4, b"\0" * 5, b"\0" * 16, b"\0" * 23, b"\x0a", b"\x0a\0\0", b"\0\0\x01", b"\x03\x02\x0e\0", b"\x03\x02\x0e\0\x11\x22\x33", b"\x03\x02\xff\xff" + b"\x44" * 40, b"\0\0\0\0\x05\x06"]


class Cleaned(object):
    """A scratch file of this process, removed after use."""

    def __enter__(self):
        self.p = os.path.join(tempfile.gettempdir(), "c25.%d" % os.getpid())
        return self.p

    def __exit__(self, *a):
        try:
            os.unlink(self.p)
        except OSError:
            pass


def records(stream):
    """Reference walk: list of (offset, code, length, data) with zero padding in between left out, and the bytes left over."""
    pos, out, pad = 0, [], []
    n = len(stream)
    while n - pos >= 4:
        code, ln = unpack("<HH", stream[pos:pos + 4])
        if code == 0 and ln == 0:
            if stream[pos:].count(0) == n - pos:
                break
            pad.append(pos)
            pos += 4
            continue
        out.append((pos, code, ln, stream[pos + 4:pos + 4 + ln]))
        pos += 4 + ln
    return out, pad


HEAD = re.compile(r"^( *\d+: )?([0-9a-f]{4}) (\S+) len = ([0-9a-f]{4}) \((\d+)\)$")
HEX = re.compile(r"^( *\d+: )?     ((?:[0-9a-f]{2} ){1,16}) *")
ZERO = re.compile(r"^( *\d+: )?---- (\d+) zero bytes skipped ----$")
MISC = re.compile(r"^( *\d+: )?---- Misc bytes at end ----$")


def check_dump(text, stream, numbered):
    """Rebuild the stream from the dump; returns (fault or None, [(code, name)])."""
    out = bytearray()
    names = []
    heads = []
    for line in text.split("\n"):
        if not line:
            continue
        m = HEAD.match(line)
        if m:
            kind = "record"
            if int(m.group(4), 16) != int(m.group(5)):
                return "lengths disagree in %r" % line, names
            at = len(out)
            heads.append((at, int(m.group(2), 16), int(m.group(5))))
            names.append((int(m.group(2), 16), m.group(3)))
            add = pack("<HH", int(m.group(2), 16), int(m.group(5)))
        elif ZERO.match(line):
            m = ZERO.match(line)
            at, add = len(out), bytes(int(m.group(2)))
        elif MISC.match(line):
            m = MISC.match(line)
            at, add = len(out), b""
        elif line.startswith("Last dumped record has length ("):
            rec = records(stream)[0][-1]
            if rec[2] <= len(rec[3]) or int(re.search(r"\((\d+)\)", line).group(1)) != rec[2]:
                return "unfounded %r" % line, names
            continue
        elif HEX.match(line):
            m = HEX.match(line)
            at, add = len(out), bytes(int(x, 16) for x in m.group(2).split())
            chars = "".join("~" if b == 0 else chr(b) if 32 <= b < 127 else "?" for b in add)
            if not line.endswith(chars) or line[:len(line) - len(chars)].split() != (m.group(1) or "").split() + m.group(2).split():
                return "the characters of line %r do not go with its bytes" % line, names
        else:
            return "unexpected line %r" % line, names
        if bool(m.group(1)) != numbered:
            return "line %r is%s numbered" % (line, "" if m.group(1) else " not"), names
        if numbered and int(m.group(1).strip()[:-1]) != at:
            return "line %r should have offset %d" % (line, at), names
        out += add
    want = [(o, c, n) for o, c, n, d in records(stream)[0]]
    if heads != want:
        return "records listed: %.200r, should be %.200r" % (heads, want), names
    if bytes(out) != stream:
        return "the dump accounts for %d bytes, the stream has %d; first difference at %d" % (len(out), len(stream), next((i for i, (a, b) in enumerate(zip(out, stream)) if a != b), min(len(out), len(stream)))), names
    if want and len(records(stream)[0][-1][3]) < want[-1][2] and "that is too large" not in text:
        return "the last record is cut short but the dump does not say so", names
    return None, names


def check_count(text, stream, names):
    by = {}
    nm = dict(names)
    recs, pad = records(stream)
    for o, c, n, d in recs:
        k = nm[c] if nm.get(c, "<UNKNOWN>") != "<UNKNOWN>" else "Unknown_0x%04X" % c
        by[k] = by.get(k, 0) + 1
    got = {}
    for line in text.splitlines():
        a, b = line.strip().split(None, 1)
        if b in got:
            return "%r is listed twice" % b
        got[b] = int(a)
    dummy = got.pop("<Dummy (zero)>", 0)
    if got != by:
        return "counts %r, should be %r" % (got, by)
    if dummy != len(pad):
        return "%d zero records counted, there are %d" % (dummy, len(pad))
    return None


def check(stream, cont="bare"):
    """None or a text; the file is written in a scratch directory."""
    blob = stream if cont == "bare" else ole.simple(stream, slot_order=(lambda n: list(range(n))[::-1]) if cont == "frag" else None, extra_free=2)
    with Cleaned() as path:
        with open(path, "wb") as f:
            f.write(blob)
        for un in (False, True):
            o = io.StringIO()
            xlrd.dump(path, o, un)
            bad, names = check_dump(o.getvalue(), stream, not un)
            if bad:
                return "dump%s: %s" % (" unnumbered" if un else "", bad)
        o = io.StringIO()
        xlrd.count_records(path, o)
        bad = check_count(o.getvalue(), stream, names)
        if bad:
            return "count_records: " + bad
    return None


def item(i, salt=0):
    name, code, n = KINDS[i]
    return B.rec(code, bytes((salt * 37 + j * 5 + 1) & 0xFF for j in range(n)))


class Streams(Space):
    name = "record sequences"

    def __init__(self, depth):
        self.depth = depth
        self.bound = "every sequence of 1..%d items over %d kinds, every one of %d tails, numbered or not" % (depth, len(KINDS), len(TAILS))

    def gen(self):
        for k in range(self.depth):
            for seq in itertools.product(range(len(KINDS)), repeat=k):
                yield seq

    def judge(self, case):
        n = 0
        for last in range(len(KINDS)):
            seq = list(case) + [last]
            body = b"".join(item(i, p) for p, i in enumerate(seq))
            for tail in TAILS:
                if not len(body + tail):
                    continue
                n += 3
                bad = check(body + tail)
                if bad:
                    return Result("stream %r + %r: %s" % ([KINDS[i][0] for i in seq], tail, bad), evals=n)
        return Result(None, outcome=case, evals=n)


class Lengths(Space):
    name = "record codes and data lengths"
    bound = "data lengths 0..80, 220..260, 4090..4120, 8220..8226 with every byte value; every record code 0..0x0FFF and the high ones"

    def gen(self):
        for ln in list(range(81)) + list(range(220, 261)) + list(range(4090, 4121)) + list(range(8220, 8227)):
            yield "len", ln
        for c in range(0, 0x1000, 64):
            yield "code", c
        for c in (0x4BC, 0x1000, 0x1060, 0x7FC0, 0x8000, 0xFFC0):
            yield "code", c

    def judge(self, case):
        what, x = case
        if what == "len":
            stream = B.rec(0x4D, bytes((i * 7 + x) & 255 for i in range(x))) + B.EOF
            n = 3
            bad = check(stream)
        else:
            codes = range(x, min(x + 64, 0x10000))
            stream = b"".join(B.rec(c, b"z" * (1 + c % 3)) * (1 + c % 2) for c in codes)
            n = 3
            bad = check(stream)
        return Result("%s %d: %s" % (what, x, bad) if bad else None, outcome=case, evals=n)


class Big(Space):
    name = "long streams"
    bound = "streams of 70000 and 1050000 bytes of records of 3, 100 and 8000 bytes, with and without zero records near the end"

    def gen(self):
        for size in (70000, 1050000):
            for ln in (3, 100, 8000) if size < 100000 else (800, 8000):
                for zeros in (0, 1, 3):
                    yield size, ln, zeros

    def judge(self, case):
        size, ln, zeros = case
        out = [B.rec(0x4D, bytes((i * 7 + j) & 255 for j in range(ln))) for i in range(size // (ln + 4) + 1)]
        out += [B.rec(0, b"")] * zeros + [B.rec(0x203, bytes(range(14))), B.EOF]
        bad = check(b"".join(out))
        return Result("stream of %d bytes, records of %d bytes, %d zero records: %s" % (size, ln, zeros, bad) if bad else None, outcome=case, evals=3)


class Containers(Space):
    name = "streams inside containers"
    bound = "13 kinds of last record x 15 tails in short sectors, in place in contiguous sectors (with other data after the stream) and in reversed sectors"

    def gen(self):
        for cont in ("ole", "big", "frag"):
            for last in range(len(KINDS)):
                yield cont, last

    def judge(self, case):
        cont, last = case
        n = 0
        for tail in TAILS:
            big = B.rec(0x4D, b"\1" * 4200) if cont != "ole" else b""
            body = big + item(1) + item(last)
            n += 3
            bad = check(body + tail, cont)
            if bad:
                return Result("%s, last record %s + %r: %s" % (cont, KINDS[last][0], tail, bad), evals=n)
        return Result(None, outcome=case, evals=n)


class Workbooks(Space):
    name = "whole workbooks"
    bound = "the corpus workbooks of every version and every cut of the small ones"

    def gen(self):
        for ver in B.VERSIONS:
            yield "whole", ver
            for part in range(16):
                yield "cuts", (ver, part)

    def judge(self, case):
        import corpus
        what, x = case
        n = 0
        if what == "whole":
            for d in (corpus.rich(x), corpus.small(x)):
                n += 3
                bad = check(d)
                if bad:
                    return Result("BIFF%d: %s" % (x, bad))
        else:
            ver, part = x
            d = corpus.small(ver)
            for k in range(1 + part, len(d), 16):
                n += 3
                bad = check(d[:k])
                if bad:
                    return Result("BIFF%d cut at byte %d: %s" % (ver, k, bad), evals=n)
        return Result(None, outcome=case, evals=n)


def spaces(tier):
    return [Streams(3 if tier == "quick" else 4), Lengths(), Big(), Containers(), Workbooks()]
