"""Streams and files longer than 32 bits can count: runs of one byte with pieces of content in them."""
import functools, struct, zlib
import bodies, ref7z
from lib import l64

FILL = 0x11


def times(m, v):
    s = 0
    for x in m:
        if v & 1:
            s ^= x
        v >>= 1
    return s


@functools.lru_cache(None)
def shift(k):
    """what 2^k zero bytes behind a checksum make of it, as a matrix"""
    if k == 0:
        m = [0xedb88320] + [1 << i for i in range(31)]       # one bit
        for _ in range(3):
            m = [times(m, x) for x in m]
        return m
    m = shift(k - 1)
    return [times(m, x) for x in m]


def combine(a, b, n):
    """checksum of two pieces from theirs; n: length of the second"""
    k = 0
    while n:
        if n & 1:
            a = times(shift(k), a)
        n >>= 1
        k += 1
    return a ^ b


def run_crc(n, byte):
    c, p, k = 0, zlib.crc32(bytes([byte])), 1
    while n:
        if n & 1:
            c = combine(c, p, k)
        p = combine(p, p, k)
        k *= 2
        n >>= 1
    return c


class Far:
    """pieces: bytes, or (how many, which byte)"""
    def __init__(self, *pieces):
        self.pieces = [p if isinstance(p, tuple) else bytes(p) for p in pieces]

    def __len__(self):
        return sum(p[0] if isinstance(p, tuple) else len(p) for p in self.pieces)

    def __add__(self, o):
        return Far(*(self.pieces + (o.pieces if isinstance(o, Far) else [bytes(o)])))

    def crc(self):
        c, n = 0, 0
        for p in self.pieces:
            k, x = (p[0], run_crc(p[0], p[1])) if isinstance(p, tuple) else (len(p), zlib.crc32(p))
            c = combine(c, x, k)
        return c

    def store(self):
        """as the harness takes it"""
        dense, gaps, at = b"", [], 0
        for p in self.pieces:
            if isinstance(p, tuple):
                if p[0]:
                    gaps.append([str(at), str(p[0]), p[1]])
                at += p[0]
            else:
                dense += p
                at += len(p)
        return {"dense": dense.hex(), "gaps": gaps}


def join(parts):
    out = Far()
    for p in parts:
        out = out + p
    return out


def archive(bs, pos=0, crc=False):
    """bodies (as bodies.py makes them, streams possibly Far) behind pos bytes of nothing -> file, header"""
    from p_crypt import header_of
    from p_foreign import start_header
    hdr, packs = header_of(bs, ["e%d" % i for i in range(sum(len(b["_subs"]) for b in bs))], crc=crc, pos=pos)
    pack = join([Far((pos, 0x37))] + packs)
    return Far(start_header(len(pack), len(hdr), ref7z.crc(hdr))) + pack + hdr, hdr


def limbs32(n):
    n &= 0xffffffff
    return [n & 0xffff, n >> 16]


def copied(r, sizes, kinds=("copy",)):
    """a folder that is copied, or filtered without effect, and its contents: runs with a few bytes around"""
    subs = []
    for n in sizes:
        a, b = [bytes(r.choice(b"\0\1\2azAZ") for _ in range(min(n // 2, r.randrange(9)))) for _ in range(2)]
        subs.append(Far(a, (n - len(a) - len(b), FILL), b))
    d = join(subs)
    n = len(d)
    return {"coders": [{"id": list(bodies.ID[k]), "nin": 1, "nout": 1, "props": []} for k in kinds], "binds": [(i, i + 1) for i in range(len(kinds) - 1)],
            "packed": [len(kinds) - 1], "sizes": [l64(n)] * len(kinds), "_packed": [d], "_subs": subs, "_aes": False}


def archives(r, many):
    """files of which something lies, or is, longer than 32 bits count -> (file, header, contents, folders)"""
    C = bodies.Coder
    G4 = 1 << 32
    small = lambda: bodies.body([C(r.choice(["copy", "lzma", "lzma2", "zstd", "bzip2", "x86"]))] if r.random() < .8 else [C("x86"), C("lzma2")],
                                [bytes(r.getrandbits(8) for _ in range(r.choice([1, 5, 300]))) for _ in range(r.choice([1, 1, 2, 3]))])
    filt = lambda: r.choice([("copy",), ("x86",), ("copy", "copy"), ("arm",)])
    out = []
    # only far away
    for pos in [1 << 31, G4 - 40, G4 - 1, G4, G4 + 5, 3 * G4 + 1, 1 << 40, (1 << 56) + 3] + [r.randrange(1 << 62) for _ in range(4)]:
        out.append((pos, [small() for _ in range(r.randrange(1, 5))]))
    # long entries: on their own, between others, in one block with others
    for n in r.sample([G4, G4 + 1, G4 + 3, G4 + 70000], 1 if not many else 4) + ([G4 - 1, (1 << 31), (1 << 31) - 1, (1 << 31) + 9, 2 * G4 + 1] if many else [r.choice([1 << 31, (1 << 31) + 9, G4 - 1])]):
        out.append((0, [small(), copied(r, [n], filt()), small()]))
        out.append((r.choice([0, G4]), [copied(r, [5, n, 3, 70000], filt()), small(), small()]))
    res = []
    for pos, bs in out:
        f, h = archive(bs, pos, True)
        cs = [s if isinstance(s, Far) else Far(s) for b in bs for s in b["_subs"]]
        res.append((f, h, cs, len(bs)))
    return res
