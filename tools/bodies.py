"""Folder bodies of foreign archives: packed data made by independent encoders."""
import bz2, lzma, os, random, struct, zlib
import ref7z, reflzma
from lib import l64, l32

ID = {"copy": b"\0", "lzma": b"\x03\x01\x01", "lzma2": b"\x21", "delta": b"\x03", "x86": b"\x03\x03\x01\x03", "x86n": b"\x04",
      "ppc": b"\x03\x03\x02\x05", "arm": b"\x03\x03\x05\x01", "armt": b"\x03\x03\x07\x01", "sparc": b"\x03\x03\x08\x05",
      "aes": b"\x06\xf1\x07\x01", "bzip2": b"\x04\x02\x02", "zstd": b"\x04\xf7\x11\x01", "bcj2": b"\x03\x03\x01\x1b"}


def xxh64(d):
    M = (1 << 64) - 1
    P = [0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63, 0x27D4EB2F165667C5]
    rot = lambda x, k: (x << k | x >> (64 - k)) & M
    rnd_ = lambda a, x: rot((a + x * P[1]) & M, 31) * P[0] & M
    n, p = len(d), 0
    if n >= 32:
        v = [(P[0] + P[1]) & M, P[1], 0, -P[0] & M]
        while p + 32 <= n:
            v = [rnd_(v[k], struct.unpack_from("<Q", d, p + 8 * k)[0]) for k in range(4)]
            p += 32
        h = (rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18)) & M
        for x in v:
            h = ((h ^ rnd_(0, x)) * P[0] + P[3]) & M
    else:
        h = P[4]
    h = (h + n) & M
    while p + 8 <= n:
        h = (rot(h ^ rnd_(0, struct.unpack_from("<Q", d, p)[0]), 27) * P[0] + P[3]) & M
        p += 8
    if p + 4 <= n:
        h = (rot(h ^ (struct.unpack_from("<I", d, p)[0] * P[0] & M), 23) * P[1] + P[2]) & M
        p += 4
    while p < n:
        h = rot(h ^ (d[p] * P[4] & M), 11) * P[0] & M
        p += 1
    h = (h ^ h >> 33) * P[1] & M
    h = (h ^ h >> 29) * P[2] & M
    return h ^ h >> 32


def zstd_raw(d, sum_=False):
    """a zstd frame of raw and RLE blocks, with or without a checksum at the end"""
    out = b"\x28\xb5\x2f\xfd" + (b"\xa4" if sum_ else b"\xa0") + struct.pack("<I", len(d))
    end = struct.pack("<I", xxh64(d) & 0xffffffff) if sum_ else b""
    p = 0
    if not d:
        return out + b"\x01\0\0" + end
    while p < len(d):
        c = d[p:p + 1000]
        p += len(c)
        last = 1 if p >= len(d) else 0
        if len(set(c)) == 1:
            out += struct.pack("<I", last | 1 << 1 | len(c) << 3)[:3] + c[:1]
        else:
            out += struct.pack("<I", last | len(c) << 3)[:3] + c
    return out + end


def lzma1_raw(d, lc=3, lp=0, pb=2, dict_size=1 << 16, eos=False):
    if len(d) == 0 and not eos:
        return b"\0\0\0\0\0"
    x = lzma.compress(d, format=lzma.FORMAT_RAW, filters=[{"id": lzma.FILTER_LZMA1, "lc": lc, "lp": lp, "pb": pb, "dict_size": dict_size}])
    return x


class Coder:
    def __init__(self, kind, **k):
        self.kind, self.k = kind, k

    def props(self):
        k = self.kind
        if k == "lzma":
            return bytes([(self.k.get("pb", 2) * 5 + self.k.get("lp", 0)) * 9 + self.k.get("lc", 3)]) + struct.pack("<I", self.k.get("dict_size", 1 << 16))
        if k == "lzma2":
            return bytes([self.k.get("p", 8)])
        if k == "delta":
            return bytes([self.k["dist"] - 1])
        if k == "aes":
            salt, iv, pw = self.k["salt"], self.k["iv"], self.k["power"]
            if not salt and not iv:
                return bytes([pw])
            # a size is a nibble plus a flag: 1..15 can be written without the flag while the other one's flag is set
            fs, fi = bool(salt), bool(iv)
            if self.k.get("alt") == "salt" and iv and 0 < len(salt) < 16:
                fs = False
            if self.k.get("alt") == "iv" and salt and 0 < len(iv) < 16:
                fi = False
            return bytes([pw | (0x80 if fs else 0) | (0x40 if fi else 0), ((len(salt) - fs) << 4) | (len(iv) - fi)]) + salt + iv
        return b""

    def encode(self, d, pwb):
        k = self.kind
        if k == "copy":
            return d
        if k == "lzma":
            return lzma1_raw(d, **self.k)
        if k == "lzma2":
            if self.k.get("stored"):
                return ref7z.lz2_stored(d)
            return lzma.compress(d, format=lzma.FORMAT_RAW, filters=[{"id": lzma.FILTER_LZMA2, "dict_size": min(1 << 16, ref7z.lzma2_dict(self.k.get("p", 8)))}])
        if k == "delta":
            return ref7z.refilter({"id": lzma.FILTER_DELTA, "dist": self.k["dist"]}, d)
        if ID[k] in ref7z.BCJ:
            return ref7z.refilter({"id": ref7z.BCJ[ID[k]]}, d)
        if k == "bzip2":
            return bz2.compress(d)
        if k == "zstd":
            return zstd_raw(d, **self.k)
        if k == "aes":
            key = ref7z.derive(pwb, self.k["salt"], self.k["power"])
            d = d + b"\0" * (-len(d) % 16)
            return ref7z.aes_enc(d, key, self.k["iv"] + b"\0" * (16 - len(self.k["iv"])))
        raise Exception(k)


def body(chain, subs, pwb=b"", order=None):
    """chain: coders from the unpacked side to the packed side; subs: list of contents.
    order: permutation of the coders in the folder record"""
    n = len(chain)
    order = order or list(range(n))          # position -> chain index
    data = b"".join(subs)
    outs, d = [], data
    for c in chain:
        outs.append(len(d))
        d = c.encode(d, pwb)
    pos = {ci: k for k, ci in enumerate(order)}
    # chain[i] reads the output of chain[i+1]
    binds = [(pos[i], pos[i + 1]) for i in range(n - 1)]
    coders = [{"id": list(ID[chain[ci].kind]), "nin": 1, "nout": 1, "props": list(chain[ci].props()), "res": 0} for ci in order]
    return {"coders": coders, "binds": [list(b) for b in binds], "packed": [pos[n - 1]], "main": pos[0],
            "sizes": [l64(outs[ci]) for ci in order], "crc": l32(ref7z.crc(data)),
            "packs": [l64(len(d))], "pcrcs": [l32(ref7z.crc(d))],
            "subs": [l64(len(s)) for s in subs], "scrcs": [l32(ref7z.crc(s)) for s in subs],
            "_packed": [d], "_subs": subs, "_aes": any(c.kind == "aes" for c in chain)}


def bcj2_split(r, d, always=None, base=0):
    """the four streams of the branch converter; whether a branch is converted is the encoder's choice"""
    e, t = reflzma.Enc(), [1024] * 258
    m, cj = bytearray(), [bytearray(), bytearray()]
    i, prev = 0, 0
    while i < len(d):
        b = d[i]
        m.append(b)
        i += 1
        if b & 0xfe == 0xe8 or prev == 0x0f and b & 0xf0 == 0x80:
            k = 2 + prev if b == 0xe8 else 1 if b == 0xe9 else 0
            if i + 4 <= len(d) and (always if always is not None else d[i + 3] in (0, 255) or r.random() < .3):
                e.bit(t, k, 1)
                cj[b != 0xe8] += struct.pack(">I", (struct.unpack("<I", d[i:i + 4])[0] + i + 4 + base) & 0xffffffff)
                prev = d[i + 3]
                i += 4
                continue
            e.bit(t, k, 0)
        prev = b
    for _ in range(5):
        e.shift()
    return [bytes(m), bytes(cj[0]), bytes(cj[1]), bytes(e.out)]


def bcj2_join(streams, n, chains, subs, pwb=b"", order=None, packs=None):
    """a folder of the branch converter over four streams of n bytes of output;
    chains: per input, coders from the unpacked side to the packed one; order: coders in the record (0: the converter);
    packs: order of the packed streams; subs: what the converter makes of them"""
    cs = [(None, None, n)]                   # coder, props, size of what it puts out
    binds, ends, data = [], [], []           # (reader (coder, input), writer), reader of packed stream k
    for k in range(4):
        at, d = (0, k), streams[k]
        for c in chains[k]:
            cs.append((c.kind, list(c.props()), len(d)))
            binds.append((at, len(cs) - 1))
            at = (len(cs) - 1, 0)
            d = c.encode(d, pwb)
        ends.append(at)
        data.append(d)
    order = order or list(range(len(cs)))
    packs = packs or [0, 1, 2, 3]
    pos = {ci: k for k, ci in enumerate(order)}
    start, x = {}, 0
    for ci in order:
        start[ci] = x
        x += 4 if ci == 0 else 1
    inp = lambda a: start[a[0]] + a[1]
    all_ = b"".join(subs)
    return {"coders": [{"id": list(ID["bcj2" if ci == 0 else cs[ci][0]]), "nin": 4 if ci == 0 else 1, "nout": 1, "props": cs[ci][1] or [], "res": 0} for ci in order],
            "binds": [[inp(a), pos[w]] for a, w in binds], "packed": [inp(ends[k]) for k in packs], "main": pos[0],
            "sizes": [l64(cs[ci][2]) for ci in order], "crc": l32(ref7z.crc(all_)),
            "packs": [l64(len(data[k])) for k in packs], "pcrcs": [l32(ref7z.crc(data[k])) for k in packs],
            "subs": [l64(len(s)) for s in subs], "scrcs": [l32(ref7z.crc(s)) for s in subs],
            "_packed": [data[k] for k in packs], "_subs": subs, "_aes": any(c.kind == "aes" for ch in chains for c in ch)}


def bcj2(r, subs, chains=None, pwb=b"", shuffle=True):
    d = b"".join(subs)
    chains = chains or [[], [], [], []]
    n = 1 + sum(map(len, chains))
    return bcj2_join(bcj2_split(r, d), len(d), chains, subs, pwb, r.sample(range(n), n) if shuffle else None, r.sample(range(4), 4) if shuffle else None)


def public(b):
    return {k: v for k, v in b.items() if not k.startswith("_")}


def text(r, n):
    w = [bytes(r.choice(b"abcdefghij \n") for _ in range(r.randrange(1, 9))) for _ in range(20)]
    o = b""
    while len(o) < n:
        o += r.choice(w)
    return o[:n]


def rnd(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def crcd(b, want=0):
    """b and 4 bytes that give all of it the checksum `want`"""
    w = want ^ 0xffffffff
    for _ in range(32):
        w = ((w ^ 0xedb88320) << 1 | 1) & 0xffffffff if w >> 31 else w << 1
    return b + struct.pack("<I", ref7z.crc(b) ^ 0xffffffff ^ w)


def x86(r, n):
    o = b""
    while len(o) < n:
        k = r.randrange(4)
        if k == 0:
            o += bytes([0xe8 + r.randrange(2)]) + struct.pack("<I", r.randrange(1 << 20))
        elif k == 1:
            o += bytes([0x0f, 0x80 + r.randrange(16)]) + struct.pack("<I", r.getrandbits(32) & 0xff0fffff)
        else:
            o += rnd(r, r.randrange(1, 5))
    return o[:n]


def table(r, pwb, big=False, mid=False):
    C = Coder
    T = lambda n: text(r, n)
    X = lambda n: x86(r, n)
    Z = lambda n: rnd(r, n)
    salt, iv = Z(16), Z(16)
    out = [
        body([C("copy")], [T(5)]),
        body([C("copy")], [T(3), b"", T(4)]),
        body([C("lzma2", stored=True)], [T(9), T(2)]),
        body([C("copy")], [b""]),
        body([C("copy")], [b"", b"", T(2), b""]),
        body([C("lzma2")], [T(300)]),
        body([C("lzma2")], [T(100), T(200), b"", T(1)]),
        body([C("lzma")], [T(280)]),
        body([C("lzma", lc=0, lp=2, pb=0)], [T(70), X(80)]),
        body([C("bzip2")], [T(120), T(8)]),
        body([C("zstd")], [T(130), b"z" * 1200]),
        body([C("delta", dist=1), C("copy")], [T(10)]),
        body([C("delta", dist=4), C("lzma2")], [T(40), T(41)]),
        body([C("delta", dist=256), C("lzma")], [T(600)], order=[1, 0]),
        body([C("x86"), C("lzma2")], [X(400), X(90)]),
        body([C("arm"), C("lzma2")], [Z(200)]),
        body([C("armt"), C("copy")], [Z(100)], order=[1, 0]),
        body([C("ppc"), C("lzma")], [Z(100)]),
        body([C("sparc"), C("lzma2")], [Z(100)]),
        body([C("copy"), C("copy"), C("copy")], [T(33)], order=[2, 0, 1]),
        body([C("lzma2"), C("lzma")], [T(90)]),
        body([C("x86"), C("delta", dist=2), C("lzma2"), C("copy")], [X(150)], order=[3, 1, 2, 0]),
        body([C("lzma2"), C("aes", salt=salt, iv=iv, power=1)], [T(50), T(60)], pwb),
        body([C("lzma"), C("aes", salt=b"", iv=iv[:8], power=2)], [T(77)], pwb, order=[1, 0]),
        body([C("copy"), C("aes", salt=salt[:5], iv=b"", power=0)], [T(31)], pwb),
        body([C("aes", salt=b"", iv=b"", power=3)], [T(16), T(3)], pwb),
        body([C("aes", salt=salt[:1], iv=iv[:1], power=0x3f)], [T(20)], pwb),
        body([C("copy")], []),
        body([C("lzma2", p=0)], [T(5000)]),
        body([C("bzip2"), C("copy")], [T(900)]),
        body([C("zstd", sum_=True)], [T(40), T(57)]),
        bcj2(r, [X(130), X(41)], shuffle=False),
        bcj2(r, [X(300)], [[C("lzma")], [C("lzma2")], [C("copy")], []]),
        bcj2(r, [X(20), b"", X(60)], [[C("lzma2"), C("aes", salt=salt, iv=iv, power=1)], [C("aes", salt=b"", iv=iv, power=0)], [C("copy")], [C("aes", salt=salt[:3], iv=b"", power=2)]], pwb),
    ]
    # contents whose checksum is a special number
    out += [body([C("copy")], [crcd(Z(6)), T(4), crcd(Z(3), 0xffffffff), crcd(b"")]),
            body([C("copy")], [crcd(T(9))]),
            body([C("lzma2")], [T(40), crcd(T(30)), crcd(Z(20))])]
    if mid:
        out += [body([C("x86"), C("lzma2")], [X(9000), X(3000)]), body([C("delta", dist=3), C("copy")], [Z(8500)]), body([C("arm"), C("lzma")], [Z(8200)]),
                body([C("armt"), C("copy")], [Z(4099)]), body([C("ppc"), C("lzma2")], [Z(4098), T(5000)]), body([C("sparc"), C("copy")], [Z(8193)]),
                body([C("copy"), C("aes", salt=salt, iv=iv, power=1)], [Z(1500), Z(3000)], pwb), body([C("x86"), C("copy"), C("aes", salt=b"", iv=iv, power=0)], [X(5000)], pwb),
                body([C("lzma2"), C("aes", salt=b"", iv=iv, power=0)], [Z(3000), T(9000)], pwb), body([C("lzma", lc=0, lp=0, pb=0), C("lzma2")], [T(6000)]),
                body([C("zstd")], [T(20000)]), body([C("bzip2")], [T(15000)]), body([C("lzma2", p=0)], [T(12000), Z(9000)])]
    if big:
        out += [body([C("lzma2", p=12)], [Z(70000), T(100000)]), body([C("lzma")], [X(200000)]), body([C("x86"), C("lzma2")], [X(100000)] * 2),
                body([C("zstd")], [Z(300000)]), body([C("bzip2")], [T(1200000)])]
    # a body without sub-streams still has a size
    return out
