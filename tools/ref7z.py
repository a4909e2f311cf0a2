"""An independent reader of the 7z container (used to produce facts about files, and to find
offsets to damage).  Decoding uses liblzma, bz2, libcrypto - nothing from the code under test."""
import bz2, ctypes, ctypes.util, hashlib, lzma, struct, zlib
import reflzma


class Bad(Exception):
    pass


def crc(b):
    return zlib.crc32(bytes(b)) & 0xffffffff


# ------------------------------------------------------------------ AES
_crypto = None


def _lib():
    global _crypto
    if _crypto is None:
        _crypto = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
        for f in ("EVP_CIPHER_CTX_new", "EVP_aes_256_cbc"):
            getattr(_crypto, f).restype = ctypes.c_void_p
    return _crypto


def _aes(data, key, iv, enc):
    if len(data) % 16:
        raise Bad("AES data not a multiple of 16")
    if not data:
        return b""
    L = _lib()
    c = ctypes.c_void_p(L.EVP_CIPHER_CTX_new())
    try:
        if L.EVP_CipherInit_ex(c, ctypes.c_void_p(L.EVP_aes_256_cbc()), None, key, iv, 1 if enc else 0) != 1:
            raise Bad("evp")
        L.EVP_CIPHER_CTX_set_padding(c, 0)
        out = ctypes.create_string_buffer(len(data) + 32)
        n = ctypes.c_int(0)
        L.EVP_CipherUpdate(c, out, ctypes.byref(n), bytes(data), len(data))
        m = ctypes.c_int(0)
        L.EVP_CipherFinal_ex(c, ctypes.byref(out, n.value), ctypes.byref(m))
        return out.raw[:n.value + m.value]
    finally:
        L.EVP_CIPHER_CTX_free(c)


def aes_dec(d, key, iv):
    return _aes(d, key, iv, False)


def aes_enc(d, key, iv):
    return _aes(d, key, iv, True)


def pw_bytes(pw):
    if pw is None:
        return b""
    if isinstance(pw, str):
        return pw.encode("utf-16-le", "surrogatepass")
    return b"".join(struct.pack("<H", x) for x in pw)


_keys = {}


def derive(pwb, salt, power):
    k = (pwb, salt, power)
    if k not in _keys:
        if power == 0x3f:
            b = (salt + pwb)[:32]
            _keys[k] = b + b"\0" * (32 - len(b))
        else:
            h = hashlib.sha256()
            for i in range(1 << power):
                h.update(salt + pwb + struct.pack("<Q", i))
            _keys[k] = h.digest()
    return _keys[k]


def aes_props(p):
    """-> power, salt, iv"""
    if len(p) < 1:
        raise Bad("aes props")
    b0 = p[0]
    power = b0 & 0x3f
    if b0 & 0xc0 == 0:
        return power, b"", b"\0" * 16
    if len(p) < 2:
        raise Bad("aes props")
    b1 = p[1]
    s = (b0 >> 7 & 1) + (b1 >> 4)
    v = (b0 >> 6 & 1) + (b1 & 15)
    if len(p) != 2 + s + v:
        raise Bad("aes props length")
    return power, bytes(p[2:2 + s]), bytes(p[2 + s:]) + b"\0" * (16 - v)


# ------------------------------------------------------------------ coders
def lzma1_filters(p):
    if len(p) < 5:
        raise Bad("lzma props")
    d = p[0]
    if d >= 225:
        raise Bad("lzma props")
    return [{"id": lzma.FILTER_LZMA1, "lc": d % 9, "lp": d // 9 % 5, "pb": d // 45,
             "dict_size": max(4096, struct.unpack("<I", bytes(p[1:5]))[0])}]


def lzma2_dict(b):
    if b > 40:
        raise Bad("lzma2 props")
    return 0xffffffff if b == 40 else (2 | b & 1) << (b // 2 + 11)


def lzma2_filters(p):
    if len(p) != 1:
        raise Bad("lzma2 props")
    return [{"id": lzma.FILTER_LZMA2, "dict_size": max(4096, lzma2_dict(p[0]))}]


def lz2_stored(data):
    """data as uncompressed LZMA2 chunks"""
    out = bytearray()
    for i in range(0, len(data), 65536):
        c = data[i:i + 65536]
        out += bytes([1 if i == 0 else 2]) + struct.pack(">H", len(c) - 1) + c
    return bytes(out) + b"\0"


BCJ = {b"\x04": lzma.FILTER_X86, b"\x03\x03\x01\x03": lzma.FILTER_X86, b"\x03\x03\x02\x05": lzma.FILTER_POWERPC,
       b"\x03\x03\x05\x01": lzma.FILTER_ARM, b"\x03\x03\x07\x01": lzma.FILTER_ARMTHUMB, b"\x03\x03\x08\x05": lzma.FILTER_SPARC}
L2F = {"id": lzma.FILTER_LZMA2, "dict_size": 1 << 20}


def unfilter(f, data):
    return lzma.decompress(lz2_stored(data), format=lzma.FORMAT_RAW, filters=[f, L2F]) if data else b""


def refilter(f, data):
    if not data:
        return b""
    x = lzma.compress(data, format=lzma.FORMAT_RAW, filters=[f, L2F])
    return lzma.decompress(x, format=lzma.FORMAT_RAW, filters=[L2F])


def lzma1(props, data, size):
    f = lzma1_filters(props)
    if size == 0:
        return b""
    if f[0]["lc"] + f[0]["lp"] > 4:          # not supported by liblzma
        try:
            return reflzma.decode_lzma1(data, props[0], f[0]["dict_size"], size)[0]
        except reflzma.Bad as e:
            raise Bad("lzma: %s" % e)
    d = lzma.LZMADecompressor(format=lzma.FORMAT_RAW, filters=f)
    try:
        out = d.decompress(bytes(data), max_length=size)
        while len(out) < size and not d.eof and not d.needs_input:
            out += d.decompress(b"", max_length=size - len(out))
    except lzma.LZMAError as e:
        raise Bad("lzma: %s" % e)
    return out


def lzma2(props, data, size):
    d = lzma.LZMADecompressor(format=lzma.FORMAT_RAW, filters=lzma2_filters(props))
    try:
        out = d.decompress(bytes(data))
    except lzma.LZMAError as e:
        raise Bad("lzma2: %s" % e)
    if not d.eof:
        raise Bad("lzma2 stream without end")
    if d.unused_data:
        raise Bad("bytes behind the lzma2 stream")
    return out


def decode(cid, props, data, size, pwb):
    """one single-input coder -> exactly size bytes, or Bad"""
    cid = bytes(cid)
    if cid == b"\0":
        return data[:size]
    if cid == b"\x03\x01\x01":
        return lzma1(props, data, size)
    if cid == b"\x21":
        return lzma2(props, data, size)
    if cid == b"\x06\xf1\x07\x01":
        power, salt, iv = aes_props(props)
        return aes_dec(data, derive(pwb, salt, power), iv)[:size]
    if cid == b"\x04\x02\x02":
        return bz2.decompress(data)
    if cid == b"\x03":
        return unfilter({"id": lzma.FILTER_DELTA, "dist": props[0] + 1}, data)
    if cid in BCJ:
        return unfilter({"id": BCJ[cid]}, data)
    raise Bad("coder %s" % cid.hex())


# ------------------------------------------------------------------ header
class R:
    def __init__(self, b, p=0):
        self.b, self.p = b, p

    def u8(self):
        if self.p >= len(self.b):
            raise Bad("eof")
        self.p += 1
        return self.b[self.p - 1]

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Bad("eof")
        self.p += n
        return bytes(self.b[self.p - n:self.p])

    def num(self):
        f = self.u8()
        m, v = 0x80, 0
        for i in range(8):
            if not f & m:
                return v | (f & (m - 1)) << (8 * i)
            v |= self.u8() << (8 * i)
            m >>= 1
        return v

    def bits(self, n):
        b = self.take((n + 7) // 8)
        return [bool(b[i // 8] >> (7 - i % 8) & 1) for i in range(n)]

    def allbits(self, n):
        return [True] * n if self.u8() else self.bits(n)

    def digests(self, n):
        return [struct.unpack("<I", self.take(4))[0] if d else None for d in self.allbits(n)]


def streams(r):
    pos, packs, pcrc, folders = 0, [], [], []
    t = r.u8()
    if t == 6:
        pos, n = r.num(), r.num()
        t = r.u8()
        if t == 9:
            packs = [r.num() for _ in range(n)]
            t = r.u8()
        if t == 10:
            pcrc = r.digests(n)
            t = r.u8()
        if t != 0:
            raise Bad("pack end")
        t = r.u8()
    if t == 7:
        if r.u8() != 11:
            raise Bad("folder id")
        n = r.num()
        if r.u8():
            raise Bad("external")
        for _ in range(n):
            cs = []
            for _ in range(r.num()):
                f = r.u8()
                cid = r.take(f & 15)
                ni = no = 1
                if f & 16:
                    ni, no = r.num(), r.num()
                cs.append((cid, ni, no, r.take(r.num()) if f & 32 else b""))
            tin, tout = sum(c[1] for c in cs), sum(c[2] for c in cs)
            binds = [(r.num(), r.num()) for _ in range(tout - 1)]
            np = tin - (tout - 1)
            packed = [r.num() for _ in range(np)] if np != 1 else [i for i in range(tin) if i not in [b[0] for b in binds]]
            folders.append({"coders": cs, "binds": binds, "packed": packed, "crc": None})
        if r.u8() != 12:
            raise Bad("sizes id")
        for f in folders:
            f["sizes"] = [r.num() for _ in range(sum(c[2] for c in f["coders"]))]
        t = r.u8()
        if t == 10:
            for f, c in zip(folders, r.digests(len(folders))):
                f["crc"] = c
            t = r.u8()
        if t != 0:
            raise Bad("unpack end")
        t = r.u8()
    for f in folders:
        bo = {b[1] for b in f["binds"]}
        f["main"] = [i for i in range(len(f["sizes"])) if i not in bo][0]
        f["size"] = f["sizes"][f["main"]]
    nums = [1] * len(folders)
    subs = None
    if t == 8:
        t = r.u8()
        if t == 13:
            nums = [r.num() for _ in folders]
            t = r.u8()
        subs = []
        for i, (f, n) in enumerate(zip(folders, nums)):
            s = 0
            for k in range(n):
                if k < n - 1:
                    if t != 9:
                        raise Bad("sub sizes")
                    z = r.num()
                else:
                    z = f["size"] - s
                s += z
                subs.append([i, z, None])
        if t == 9:
            t = r.u8()
        need = [s for s in subs if not (nums[s[0]] == 1 and folders[s[0]]["crc"] is not None)]
        for s in subs:
            if s not in need or nums[s[0]] == 1 and folders[s[0]]["crc"] is not None:
                s[2] = folders[s[0]]["crc"]
        if t == 10:
            for s, c in zip(need, r.digests(len(need))):
                s[2] = c
            t = r.u8()
        if t != 0:
            raise Bad("sub end")
        t = r.u8()
    if subs is None:
        subs = [[i, f["size"], f["crc"]] for i, f in enumerate(folders)]
    if t != 0:
        raise Bad("streams end")
    return {"pos": pos, "packs": packs, "pcrc": pcrc, "folders": folders, "subs": subs, "nums": nums}


def start(b):
    if len(b) < 32 or b[:6] != b"7z\xbc\xaf\x27\x1c":
        raise Bad("signature")
    c, = struct.unpack("<I", b[8:12])
    if crc(b[12:32]) != c:
        raise Bad("start crc")
    off, size, hc = struct.unpack("<QQI", b[12:32])
    if 32 + off + size > len(b):
        raise Bad("header beyond the end")
    h = b[32 + off:32 + off + size]
    if crc(h) != hc:
        raise Bad("header crc")
    return off, size, h


def folder_outputs(b, st, fi, pwb):
    """decoded output of every coder of folder fi"""
    f = st["folders"][fi]
    k = sum(len(x["packed"]) for x in st["folders"][:fi])
    off = 32 + st["pos"] + sum(st["packs"][:k])
    pk = []
    for i in range(len(f["packed"])):
        n = st["packs"][k + i]
        if off + n > len(b):
            raise Bad("packed stream beyond the end")
        pk.append(bytes(b[off:off + n]))
        off += n
    outs = [None] * len(f["sizes"])

    def out(o):
        if outs[o] is None:
            i0 = o0 = 0
            for c in f["coders"]:
                if o0 <= o < o0 + c[2]:
                    break
                i0 += c[1]
                o0 += c[2]
            if c[1] != 1 or c[2] != 1:
                raise Bad("complex coder")
            src = None
            for bi, bo in f["binds"]:
                if bi == i0:
                    src = out(bo)
            if src is None:
                src = pk[f["packed"].index(i0)]
            d = decode(c[0], c[3], src, f["sizes"][o], pwb)
            if len(d) != f["sizes"][o]:
                raise Bad("coder %s: %d bytes instead of %d" % (c[0].hex(), len(d), f["sizes"][o]))
            outs[o] = d
        return outs[o]
    out(f["main"])
    return outs


def header(b, pwb=b""):
    """-> (plain header bytes, encoded?, raw header, streams of the encoded header or None)"""
    off, size, h = start(b)
    if size == 0:
        return b"", False, h, None
    if h[0] == 0x17:
        r = R(h, 1)
        st = streams(r)
        outs = folder_outputs(b, st, 0, pwb)
        d = outs[st["folders"][0]["main"]]
        c = st["folders"][0]["crc"]
        if c is not None and crc(d) != c:
            raise Bad("encoded header crc")
        return d, True, h, st
    return h, False, h, None


def main_streams(plain):
    """streams of a plain header (or None)"""
    r = R(plain, 0)
    if not plain or r.u8() != 1:
        raise Bad("header id")
    t = r.u8()
    if t == 2:
        while True:
            t = r.u8()
            if t == 0:
                break
            r.take(r.num())
        t = r.u8()
    if t == 4:
        return streams(r)
    return None
