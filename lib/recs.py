"""A BIFF stream as a list of records, with insertion that keeps every declared position and length right."""
from struct import pack, unpack_from
import biff as B

BOFS = (0x0809, 0x0409, 0x0209, 0x0009)


class Rec(object):
    __slots__ = ("pos", "code", "data", "seg", "depth")

    def __init__(self, pos, code, data, seg, depth):
        self.pos, self.code, self.data, self.seg, self.depth = pos, code, data, seg, depth

    def __repr__(self):
        return "<%04x %d @%d %s/%d>" % (self.code, len(self.data), self.pos, self.seg, self.depth)


class Stream(object):
    """Contiguous substreams only. seg: "globals", or the number of the worksheet-level substream; depth 2+ inside an embedded substream."""

    def __init__(self, ver, data):
        self.ver, self.data = ver, data
        self.recs = []
        pos = depth = 0
        seg = -1
        while pos < len(data):
            code, n = unpack_from("<HH", data, pos)
            if code in BOFS:
                depth += 1
                if ver == 45 and depth == 1 or ver != 45 and depth == 1:
                    seg += 1
                elif ver == 45 and depth == 2:
                    seg += 1
            self.recs.append(Rec(pos, code, data[pos + 4:pos + 4 + n], self.segname(seg, depth), depth - (ver == 45 and depth > 1)))
            if code == 0x0A:
                depth -= 1
            pos += 4 + n
        assert pos == len(data) and depth == 0

    def segname(self, seg, depth):
        if self.ver < 45:
            return 0
        if self.ver == 45:
            return "globals" if depth <= 1 else seg - 1
        return "globals" if seg == 0 else seg - 1

    def boundaries(self):
        """Indices i such that a record may be put before record i (or at the end of the stream, i == len)."""
        out = []
        for i in range(1, len(self.recs)):
            r, p = self.recs[i], self.recs[i - 1]
            if r.code == 0x3C or r.code in (0x0207, 0x0007):
                continue                              # a CONTINUE, or the text of the formula before it
            if p.code == 0x8F:
                continue                              # the BOF a SHEETHDR announces
            if r.code == 0x1C and r.data[:2] == b"\xff\xff":
                continue                              # the rest of an old note
            out.append(i)
        return out

    def between(self, i):
        """Is boundary i outside all substreams?"""
        return self.recs[i].code in BOFS and (self.recs[i].depth == 1 and self.recs[i - 1].code == 0x0A)

    def insert(self, ins):
        """Stream with ins[i] (bytes) put before record i, positions and lengths adjusted."""
        newpos, pos = {}, 0
        for i, r in enumerate(self.recs):
            pos += len(ins.get(i, b""))
            newpos[r.pos] = pos
            pos += 4 + len(r.data)
        total = pos + len(ins.get(len(self.recs), b""))
        out = []
        for i, r in enumerate(self.recs):
            d = r.data
            if r.code == 0x85 and self.ver >= 50:
                d = pack("<i", newpos[unpack_from("<i", d)[0]]) + d[4:]
            elif r.code == 0x8E:
                d = pack("<i", newpos[unpack_from("<i", d)[0]])
            elif r.code == 0x8F and self.ver == 45:
                a = r.pos + 4 + len(d)
                z = a + unpack_from("<i", d)[0]
                zi = max(k for k, q in enumerate(self.recs) if q.pos < z) + 1
                na = newpos[r.pos] + 4 + len(d)
                nz = newpos[self.recs[zi - 1].pos] + 4 + len(self.recs[zi - 1].data)
                d = pack("<i", nz - na) + d[4:]
            out.append(ins.get(i, b"") + pack("<HH", r.code, len(d)) + d)
        out.append(ins.get(len(self.recs), b""))
        res = b"".join(out)
        assert len(res) == total
        return res
