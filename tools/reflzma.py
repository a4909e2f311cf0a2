"""LZMA by the format description: a decoder, and an encoder for arbitrary packet sequences."""

TOP = 1 << 24


class Bad(Exception):
    pass


class Model:
    def __init__(self, lc, lp, pb):
        self.lc, self.lp, self.pb = lc, lp, pb
        self.reset()

    def reset(self):
        h = 1024
        self.is_match = [h] * (12 << 4)
        self.is_rep = [h] * 12
        self.is_rep0 = [h] * 12
        self.is_rep1 = [h] * 12
        self.is_rep2 = [h] * 12
        self.is_rep0_long = [h] * (12 << 4)
        self.slot = [[h] * 64 for _ in range(4)]
        self.spec = [h] * 128
        self.align = [h] * 16
        self.lit = [h] * (0x300 << (self.lc + self.lp))
        self.len = [self._len(), self._len()]
        self.state = 0
        self.rep = [0, 0, 0, 0]

    @staticmethod
    def _len():
        h = 1024
        return {"c": [h, h], "low": [[h] * 8 for _ in range(16)], "mid": [[h] * 8 for _ in range(16)], "high": [h] * 256}

    def props(self):
        return (self.pb * 5 + self.lp) * 9 + self.lc


class Dec:
    """range decoder"""
    def __init__(self, b, p=0):
        self.b, self.p = b, p
        if len(b) - p < 5:
            raise Bad("short")
        if b[p] != 0:
            raise Bad("first byte")
        self.code = int.from_bytes(b[p + 1:p + 5], "big")
        self.range = 0xffffffff
        self.p = p + 5
        if self.code == self.range:
            raise Bad("code")

    def norm(self):
        if self.range < TOP:
            self.range = (self.range << 8) & 0xffffffff
            if self.p >= len(self.b):
                raise Bad("eof")
            self.code = ((self.code << 8) & 0xffffffff) | self.b[self.p]
            self.p += 1

    def bit(self, t, i):
        self.norm()
        p = t[i]
        bound = (self.range >> 11) * p
        if self.code < bound:
            self.range = bound
            t[i] = p + ((2048 - p) >> 5)
            return 0
        self.range -= bound
        self.code -= bound
        t[i] = p - (p >> 5)
        return 1

    def direct(self, n):
        v = 0
        for _ in range(n):
            self.norm()
            self.range >>= 1
            if self.code >= self.range:
                self.code -= self.range
                v = v * 2 + 1
            else:
                v *= 2
        return v

    def tree(self, t, n, base=0):
        m = 1
        for _ in range(n):
            m = m * 2 + self.bit(t, base + m)
        return m - (1 << n)

    def rtree(self, t, n, base=0):
        m, v = 1, 0
        for i in range(n):
            b = self.bit(t, base + m)
            m = m * 2 + b
            v |= b << i
        return v


class Enc:
    def __init__(self):
        self.low, self.range, self.cache, self.csize = 0, 0xffffffff, 0, 1
        self.out = bytearray()

    def shift(self):
        if self.low < 0xff000000 or self.low > 0xffffffff:
            c = self.low >> 32
            b = self.cache
            while self.csize:
                self.out.append((b + c) & 0xff)
                b = 0xff
                self.csize -= 1
            self.cache = (self.low >> 24) & 0xff
        self.csize += 1
        self.low = (self.low << 8) & 0xffffffff

    def bit(self, t, i, b):
        p = t[i]
        bound = (self.range >> 11) * p
        if b == 0:
            self.range = bound
            t[i] = p + ((2048 - p) >> 5)
        else:
            self.low += bound
            self.range -= bound
            t[i] = p - (p >> 5)
        while self.range < TOP:
            self.range = (self.range << 8) & 0xffffffff
            self.shift()

    def direct(self, v, n):
        for i in range(n - 1, -1, -1):
            self.range >>= 1
            if v >> i & 1:
                self.low += self.range
            while self.range < TOP:
                self.range = (self.range << 8) & 0xffffffff
                self.shift()

    def tree(self, t, n, v, base=0):
        m = 1
        for i in range(n - 1, -1, -1):
            b = v >> i & 1
            self.bit(t, base + m, b)
            m = m * 2 + b

    def rtree(self, t, n, v, base=0):
        m = 1
        for i in range(n):
            b = v >> i & 1
            self.bit(t, base + m, b)
            m = m * 2 + b

    def finish(self):
        for _ in range(5):
            self.shift()
        return bytes(self.out)


def upd_lit(s):
    return 0 if s < 4 else (s - 3 if s < 10 else s - 6)


def get_len(d, l, ps):
    if d.bit(l["c"], 0) == 0:
        return 2 + d.tree(l["low"][ps], 3)
    if d.bit(l["c"], 1) == 0:
        return 10 + d.tree(l["mid"][ps], 3)
    return 18 + d.tree(l["high"], 8)


def put_len(e, l, ps, n):
    n -= 2
    if n < 8:
        e.bit(l["c"], 0, 0)
        e.tree(l["low"][ps], 3, n)
    elif n < 16:
        e.bit(l["c"], 0, 1)
        e.bit(l["c"], 1, 0)
        e.tree(l["mid"][ps], 3, n - 8)
    else:
        e.bit(l["c"], 0, 1)
        e.bit(l["c"], 1, 1)
        e.tree(l["high"], 8, n - 16)


def packet(d, m, out, base, dsize, limit):
    """decode one packet, appending to out; base: out[:base] unreachable.  False at the end marker.
    limit: how long out may get"""
    ps = (len(out) - m.off) & ((1 << m.pb) - 1)
    if d.bit(m.is_match, (m.state << 4) + ps) == 0:
        prev = out[-1] if len(out) > base else 0
        at = 0x300 * ((((len(out) - m.off) & ((1 << m.lp) - 1)) << m.lc) + (prev >> (8 - m.lc)))
        s = 1
        if m.state >= 7:
            if m.rep[0] >= len(out) - base:
                raise Bad("rep0 beyond the dictionary")
            mb = out[len(out) - 1 - m.rep[0]]
            while s < 0x100:
                mbit = mb >> 7
                mb = (mb << 1) & 0xff
                b = d.bit(m.lit, at + ((1 + mbit) << 8) + s)
                s = s * 2 + b
                if mbit != b:
                    break
        while s < 0x100:
            s = s * 2 + d.bit(m.lit, at + s)
        out.append(s & 0xff)
        m.state = upd_lit(m.state)
        return True
    if d.bit(m.is_rep, m.state) == 0:
        m.rep = [0] + m.rep[:3]
        n = get_len(d, m.len[0], ps)
        m.state = 7 if m.state < 7 else 10
        sl = d.tree(m.slot[min(n - 2, 3)], 6)
        if sl < 4:
            m.rep[0] = sl
        else:
            nb = (sl >> 1) - 1
            dist = (2 | sl & 1) << nb
            if sl < 14:
                dist += d.rtree(m.spec, nb, dist - sl)
            else:
                dist += d.direct(nb - 4) << 4
                dist += d.rtree(m.align, 4)
            m.rep[0] = dist
        if m.rep[0] == 0xffffffff:
            return False
    else:
        if d.bit(m.is_rep0, m.state) == 0:
            if d.bit(m.is_rep0_long, (m.state << 4) + ps) == 0:
                m.state = 9 if m.state < 7 else 11
                if m.rep[0] >= len(out) - base or m.rep[0] >= dsize:
                    raise Bad("distance")
                out.append(out[len(out) - 1 - m.rep[0]])
                return True
        elif d.bit(m.is_rep1, m.state) == 0:
            m.rep = [m.rep[1], m.rep[0], m.rep[2], m.rep[3]]
        elif d.bit(m.is_rep2, m.state) == 0:
            m.rep = [m.rep[2], m.rep[0], m.rep[1], m.rep[3]]
        else:
            m.rep = [m.rep[3], m.rep[0], m.rep[1], m.rep[2]]
        n = get_len(d, m.len[1], ps)
        m.state = 8 if m.state < 7 else 11
    if m.rep[0] >= len(out) - base or m.rep[0] >= dsize:
        raise Bad("distance")
    if len(out) + n > limit:
        m.cut = len(out) + n - limit
        n = limit - len(out)
    for _ in range(n):
        out.append(out[len(out) - 1 - m.rep[0]])
    return True


def decode_lzma1(b, props, dsize, size, preset=b"", exact=True):
    """size None: until the end marker.  -> (bytes, consumed)"""
    lc, lp, pb = props % 9, props // 9 % 5, props // 45
    m = Model(lc, lp, pb)
    m.off, m.cut = 0, 0             # positions include the preset dictionary
    out = bytearray(preset)
    d = Dec(b)
    limit = len(preset) + size if size is not None else 1 << 40
    ended = False
    while len(out) < limit:
        if not packet(d, m, out, 0, dsize, limit):
            ended = True
            break
    if m.cut:
        raise Bad("match beyond the end")
    if size is not None and ended and len(out) != limit:
        raise Bad("early end marker")
    d.norm()
    return bytes(out[len(preset):]), d.p, ended, d.code


def encode(packets, lc, lp, pb, preset=b"", model=None, out=None, base=0, off=None, eos=False):
    """packets: ("lit", byte) ("match", dist, len) ("short",) ("rep", i, len) ("eos", len).
    Distances are 1-based.  Returns (payload, data so far, model)"""
    m = model or Model(lc, lp, pb)
    e = Enc()
    out = bytearray(preset) if out is None else out
    m.off = base if off is None else off
    for pk in packets:
        ps = (len(out) - m.off) & ((1 << m.pb) - 1)
        k = pk[0]
        if k == "lit":
            e.bit(m.is_match, (m.state << 4) + ps, 0)
            prev = out[-1] if len(out) > base else 0
            at = 0x300 * ((((len(out) - m.off) & ((1 << m.lp) - 1)) << m.lc) + (prev >> (8 - m.lc)))
            v = pk[1]
            s = 1
            i = 7
            if m.state >= 7:
                mb = out[len(out) - 1 - m.rep[0]] if m.rep[0] < len(out) - base else 0
                while i >= 0:
                    mbit = mb >> 7
                    mb = (mb << 1) & 0xff
                    b = v >> i & 1
                    e.bit(m.lit, at + ((1 + mbit) << 8) + s, b)
                    s = s * 2 + b
                    i -= 1
                    if mbit != b:
                        break
            while i >= 0:
                b = v >> i & 1
                e.bit(m.lit, at + s, b)
                s = s * 2 + b
                i -= 1
            out.append(v)
            m.state = upd_lit(m.state)
            continue
        e.bit(m.is_match, (m.state << 4) + ps, 1)
        if k in ("match", "eos"):
            e.bit(m.is_rep, m.state, 0)
            n = pk[2] if k == "match" else pk[1]
            dist = pk[1] - 1 if k == "match" else 0xffffffff
            put_len(e, m.len[0], ps, n)
            m.state = 7 if m.state < 7 else 10
            if dist < 4:
                sl = dist
            else:
                nb = dist.bit_length() - 2
                sl = (nb + 1) * 2 + (dist >> nb & 1)
            e.tree(m.slot[min(n - 2, 3)], 6, sl)
            if sl >= 4:
                nb = (sl >> 1) - 1
                bs = (2 | sl & 1) << nb
                if sl < 14:
                    e.rtree(m.spec, nb, dist - bs, bs - sl)
                else:
                    e.direct((dist - bs) >> 4, nb - 4)
                    e.rtree(m.align, 4, (dist - bs) & 15)
            m.rep = [dist] + m.rep[:3]
            if k == "eos":
                break
        else:
            e.bit(m.is_rep, m.state, 1)
            if k == "short":
                e.bit(m.is_rep0, m.state, 0)
                e.bit(m.is_rep0_long, (m.state << 4) + ps, 0)
                m.state = 9 if m.state < 7 else 11
                n = 1
            else:
                i, n = pk[1], pk[2]
                if i == 0:
                    e.bit(m.is_rep0, m.state, 0)
                    e.bit(m.is_rep0_long, (m.state << 4) + ps, 1)
                else:
                    e.bit(m.is_rep0, m.state, 1)
                    if i == 1:
                        e.bit(m.is_rep1, m.state, 0)
                    else:
                        e.bit(m.is_rep1, m.state, 1)
                        e.bit(m.is_rep2, m.state, i - 2)
                    r = m.rep.pop(i)
                    m.rep.insert(0, r)
                put_len(e, m.len[1], ps, n)
                m.state = 8 if m.state < 7 else 11
        for _ in range(n):
            q = len(out) - 1 - m.rep[0]
            out.append(out[q] if q >= base else 0)
    return e.finish(), out, m


def decode_lzma2(b, dsize, preset=b""):
    """-> (bytes, chunk list, consumed); Bad when the sequence is not legal"""
    out = bytearray(preset)
    base = 0
    m = None
    p = 0
    need_dict, need_props, need_state = not preset, True, True
    chunks = []
    while True:
        if p >= len(b):
            raise Bad("no end marker")
        c = b[p]
        if c == 0:
            return bytes(out[len(preset):]), chunks, p + 1
        if c == 1 or c >= 0xe0:
            need_dict = False
            base = len(out)
        elif need_dict:
            raise Bad("no dictionary reset")
        if c >= 0x80:
            if p + 6 > len(b):
                raise Bad("eof")
            un = ((c & 0x1f) << 16) + (b[p + 1] << 8) + b[p + 2] + 1
            pk = (b[p + 3] << 8) + b[p + 4] + 1
            q = p + 5
            if c >= 0xc0:
                pr = b[q]
                q += 1
                if pr >= 225 or pr % 9 + pr // 9 % 5 > 4:
                    raise Bad("props")
                m = Model(pr % 9, pr // 9 % 5, pr // 45)
                need_props = need_state = False
            elif need_props:
                raise Bad("no properties")
            elif c >= 0xa0:
                m.reset()
                need_state = False
            elif need_state:
                raise Bad("state not reset")
            m.off, m.cut = base, 0      # positions count from the last dictionary reset
            if q + pk > len(b):
                raise Bad("eof")
            d = Dec(b[q:q + pk])
            lim = len(out) + un
            while len(out) < lim:
                if not packet(d, m, out, base, dsize, lim):
                    raise Bad("end marker in a chunk")
            if m.cut:
                raise Bad("match beyond the chunk")
            d.norm()
            if d.p != pk or d.code != 0:
                raise Bad("payload does not end where the chunk says")
            chunks.append({"c": c, "un": un, "pk": pk})
            p = q + pk
        elif c <= 2:
            n = (b[p + 1] << 8) + b[p + 2] + 1 if p + 3 <= len(b) else 0
            if p + 3 + n > len(b) or n == 0:
                raise Bad("eof")
            out += b[p + 3:p + 3 + n]
            need_state = True
            chunks.append({"c": c, "un": n, "pk": n})
            p += 3 + n
        else:
            raise Bad("control")

