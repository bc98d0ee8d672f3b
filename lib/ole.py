"""Independent OLE2 compound document writer with every layout decision left to the caller."""
from struct import pack

SIG = bytes.fromhex("D0CF11E0A1B11AE1")
END, FREE, SATID, MSATID = -2, -1, -3, -4


class Entry(object):
    """A directory entry: etype 1 storage, 2 stream, 5 root, 0 empty."""

    def __init__(self, name, data=None, kids=(), etype=None):
        self.name, self.data, self.kids = name, data, list(kids)
        self.etype = etype if etype is not None else (1 if data is None else 2)
        self.left = self.right = self.root = -1
        self.sid, self.size = END, 0


def dirent(name, etype, colour, left, right, root, sid, size):
    nb = (name + "\0").encode("utf_16_le") if name else b""
    return (nb + b"\0" * 64)[:64] + pack("<HBBiii", len(nb), etype, colour, left, right, root) + b"\0" * 36 + pack("<ii", sid, size) + b"\0" * 4


def cfkey(name):
    """Compound file ordering: shorter names first, then upper-case code units."""
    return (len(name.encode("utf_16_le")), name.upper())


def balanced(idx):
    """Any search tree over the sorted list; returns (root, {i: (left, right)})."""
    links = {}

    def go(a):
        if not a:
            return -1
        m = len(a) // 2
        links[a[m]] = (go(a[:m]), go(a[m + 1:]))
        return a[m]
    return go(idx), links


def all_trees(idx):
    """Every binary search tree over the list idx (in-order = idx): yields (root, links)."""
    if not idx:
        yield -1, {}
        return
    for m in range(len(idx)):
        for lr, ll in all_trees(idx[:m]):
            for rr, rl in all_trees(idx[m + 1:]):
                d = dict(ll)
                d.update(rl)
                d[idx[m]] = (lr, rr)
                yield idx[m], d


class Doc(object):
    def __init__(self, top, ssz=9, sssz=6, cutoff=4096, tree=None, dirpad=None, extra_free=0, slot_order=None, msatx_extra=0,
                 tail_cut=0, short_order=None, short_extra=0, colour=1):
        """top: list of Entry (the root storage's members).
        tree: function(list of entry indexes in name order) -> (root, links).
        slot_order: function(n) -> list: logical sector i goes to physical sector slot_order[i].
        short_order: the same for the short sectors (short_extra = unused ones)."""
        self.top, self.ssz, self.sssz, self.cutoff = top, ssz, sssz, cutoff
        self.tree = tree or balanced
        self.extra_free, self.slot_order, self.short_order, self.short_extra = extra_free, slot_order, short_order, short_extra
        self.tail_cut, self.msatx_extra, self.colour = tail_cut, msatx_extra, colour
        self.fix = {}           # hook: raw overrides used by the corruption check

    def build(self):
        S, SS = 1 << self.ssz, 1 << self.sssz
        nent = S // 4
        # directory entries, in creation order
        ents = [Entry("Root Entry", etype=5)]

        def add(e):
            ents.append(e)
            e.did = len(ents) - 1
            for k in e.kids:
                add(k)
        for e in self.top:
            add(e)
        ents[0].kids = list(self.top)
        for e in ents:
            if e.kids:
                order = [k.did for k in sorted(e.kids, key=lambda k: cfkey(k.name))]
                e.root, links = self.tree(order)
                for d, (l, r) in links.items():
                    ents[d].left, ents[d].right = l, r
        self.ents = ents
        # short streams
        shorts = [e for e in ents if e.etype == 2 and 0 < len(e.data) < self.cutoff]
        longs = [e for e in ents if e.etype == 2 and len(e.data) >= self.cutoff and len(e.data)]
        nshort = sum((len(e.data) + SS - 1) // SS for e in shorts)
        tot_short = nshort + self.short_extra
        sorder = list(range(tot_short)) if self.short_order is None else self.short_order(tot_short)
        sblob = bytearray(b"\xAA" * (tot_short * SS))
        ssat = [FREE] * tot_short
        k = 0
        for e in shorts:
            n = (len(e.data) + SS - 1) // SS
            ids = [sorder[k + j] for j in range(n)]
            k += n
            for j, i in enumerate(ids):
                piece = e.data[j * SS:(j + 1) * SS]
                sblob[i * SS:i * SS + len(piece)] = piece
                ssat[i] = ids[j + 1] if j + 1 < n else END
            e.sid, e.size = ids[0], len(e.data)
        used_short = max([i for i, v in enumerate(ssat) if v != FREE], default=-1) + 1
        sblob = bytes(sblob[:used_short * SS])
        ssat = ssat[:used_short]
        ssat_sec = (len(ssat) + nent - 1) // nent
        ssat += [FREE] * (ssat_sec * nent - len(ssat))
        ssat_blob = b"".join(pack("<i", v) for v in ssat)
        for e in longs:
            e.size = len(e.data)
        # logical chains
        chains = {}
        ndir = (len(ents) * 128 + S - 1) // S
        chains["dir"] = ndir
        if sblob:
            chains["sscs"] = (len(sblob) + S - 1) // S
            chains["ssat"] = ssat_sec
        for e in longs:
            chains[("s", e.did)] = (len(e.data) + S - 1) // S
        body = sum(chains.values()) + self.extra_free
        nsat = nx = 0
        while True:
            total = body + nsat + nx
            n2 = (total + nent - 1) // nent
            x2 = max(0, -(-(n2 - 109) // (nent - 1))) + self.msatx_extra
            if (n2, x2) == (nsat, nx):
                break
            nsat, nx = n2, x2
        chains["sat"], chains["msatx"] = nsat, nx
        total = body + nsat + nx
        order = list(range(total)) if self.slot_order is None else self.slot_order(total)
        # default logical order: streams, sscs, ssat, dir, free, sat, msatx
        self.where = {}
        k = 0
        names = [c for c in chains if isinstance(c, tuple)] + [c for c in ("sscs", "ssat", "dir") if c in chains]
        for c in names:
            self.where[c] = [order[k + j] for j in range(chains[c])]
            k += chains[c]
        self.where["free"] = [order[k + j] for j in range(self.extra_free)]
        k += self.extra_free
        for c in ("sat", "msatx"):
            self.where[c] = [order[k + j] for j in range(chains[c])]
            k += chains[c]
        sat = [FREE] * (nsat * nent)
        for c in names:
            ids = self.where[c]
            for j, i in enumerate(ids):
                sat[i] = ids[j + 1] if j + 1 < len(ids) else END
        for i in self.where["sat"]:
            sat[i] = SATID
        for i in self.where["msatx"]:
            sat[i] = MSATID
        for e in longs:
            e.sid = self.where[("s", e.did)][0]
        if sblob:
            ents[0].sid, ents[0].size = self.where["sscs"][0], len(sblob)
        self.sat, self.ssat, self.nent, self.total = sat, ssat, nent, total
        self.S, self.SS, self.sblob = S, SS, sblob
        return self.emit()

    def emit(self):
        """Lay the (possibly overridden) structures out as bytes."""
        S, nent, ents, where = self.S, self.nent, self.ents, self.where
        disk = bytearray(b"\xEE" * (self.total * S))

        def put(ids, blob):
            for j, i in enumerate(ids):
                piece = blob[j * S:(j + 1) * S]
                disk[i * S:i * S + len(piece)] = piece
        dirb = b"".join(dirent(e.name, e.etype, self.colour, e.left, e.right, e.root, e.sid, e.size) for e in ents)
        if len(dirb) % S:
            dirb += dirent("", 0, 0, -1, -1, -1, 0, 0) * ((S - len(dirb) % S) // 128)
        put(where["dir"], dirb)
        for c in where:
            if isinstance(c, tuple):
                put(where[c], ents[c[1]].data)
        if "sscs" in where:
            put(where["sscs"], self.sblob)
            put(where["ssat"], b"".join(pack("<i", v) for v in self.ssat))
        put(where["sat"], b"".join(pack("<i", v) for v in self.sat))
        msat = list(where["sat"])
        head_msat = (msat[:109] + [FREE] * 109)[:109]
        rest = msat[109:]
        xs = where["msatx"]
        for j, i in enumerate(xs):
            part = rest[:nent - 1]
            rest = rest[nent - 1:]
            part = part + [FREE] * (nent - 1 - len(part)) + [xs[j + 1] if j + 1 < len(xs) else END]
            put([i], b"".join(pack("<i", v) for v in part))
        self.msat = msat
        h = dict(sat_n=len(where["sat"]), dir_sid=where["dir"][0], ssat_sid=where["ssat"][0] if "ssat" in where else END,
                 ssat_n=len(where.get("ssat", [])), x_sid=xs[0] if xs else END, x_n=len(xs), head_msat=head_msat,
                 ssz=self.ssz, sssz=self.sssz, cutoff=self.cutoff)
        h.update(self.fix)
        hdr = SIG + b"\0" * 16 + pack("<HH", 0x3E, 3) + b"\xFE\xFF" + pack("<HH", h["ssz"], h["sssz"]) + b"\0" * 10
        hdr += pack("<iiiiiiii", h["sat_n"], h["dir_sid"], 0, h["cutoff"], h["ssat_sid"], h["ssat_n"], h["x_sid"], h["x_n"])
        hdr += b"".join(pack("<i", v) for v in h["head_msat"])
        assert len(hdr) == 512
        out = hdr + bytes(disk)
        return out[:len(out) - self.tail_cut] if self.tail_cut else out


def simple(data, name="Workbook", **kw):
    return Doc([Entry(name, data)], **kw).build()
