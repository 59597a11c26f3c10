"""Reference Kuznyechik and Magma (GOST R 34.12-2015) and the modes of
GOST R 34.13-2015, written from the standards over whole messages.

Constants are frozen here; nothing is read from /repo.
"""

from .streebog import PI

_LVEC = (148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1)

MAGMA_S = (
    (12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1),
    (6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15),
    (11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0),
    (12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11),
    (7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12),
    (5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0),
    (8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7),
    (1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2),
)


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1c3
        b >>= 1
    return r


def _l(block):
    b = list(block)
    for _ in range(16):
        x = 0
        for i in range(16):
            x ^= _gmul(b[i], _LVEC[i])
        b = [x] + b[:15]
    return bytes(b)


def _l_inv(block):
    b = list(block)
    for _ in range(16):
        first = b[0]
        b = b[1:] + [first]
        x = 0
        for i in range(16):
            x ^= _gmul(b[i], _LVEC[i])
        b[15] = x
    return bytes(b)


_PI_INV = bytes(PI.index(x) for x in range(256))


def _basis(fn):
    """fn is linear: images of every single-byte input."""
    images = []
    for pos in range(16):
        bits = []
        for bit in range(8):
            v = bytearray(16)
            v[pos] = 1 << bit
            bits.append(int.from_bytes(fn(v), 'big'))
        tab = []
        for x in range(256):
            acc = 0
            for bit in range(8):
                if (x >> bit) & 1:
                    acc ^= bits[bit]
            tab.append(acc)
        images.append(tab)
    return images


_L = _basis(_l)
_LI = _basis(_l_inv)
_LS = [[_L[p][PI[x]] for x in range(256)] for p in range(16)]


def _apply(tab, v):
    r = 0
    for t, x in zip(tab, v.to_bytes(16, 'big')):
        r ^= t[x]
    return r


class Kuznyechik:
    block_size = 16

    def __init__(self, key):
        key = bytes(key)
        assert len(key) == 32
        a = int.from_bytes(key[:16], 'big')
        b = int.from_bytes(key[16:], 'big')
        ks = [a, b]
        for i in range(1, 33):
            c = _apply(_L, i)
            a, b = _apply(_LS, a ^ c) ^ b, a
            if i % 8 == 0:
                ks += [a, b]
        self.ks = ks

    def encrypt(self, block):
        v = int.from_bytes(block, 'big')
        for k in self.ks[:9]:
            v = _apply(_LS, v ^ k)
        return (v ^ self.ks[9]).to_bytes(16, 'big')

    def decrypt(self, block):
        v = int.from_bytes(block, 'big') ^ self.ks[9]
        for k in self.ks[8::-1]:
            v = _apply(_LI, v)
            v = int.from_bytes(v.to_bytes(16, 'big').translate(_PI_INV), 'big') ^ k
        return v.to_bytes(16, 'big')

    def secrets(self):
        return [k.to_bytes(16, 'big') for k in self.ks]


def _magma_tab():
    tabs = []
    for byte in range(4):
        lo = MAGMA_S[2 * byte]
        hi = MAGMA_S[2 * byte + 1]
        tab = []
        for x in range(256):
            y = (lo[x & 15] | (hi[x >> 4] << 4)) << (8 * byte)
            tab.append(((y << 11) | (y >> 21)) & 0xffffffff)
        tabs.append(tab)
    return tabs


_M0, _M1, _M2, _M3 = _magma_tab()


class Magma:
    block_size = 8

    def __init__(self, key):
        key = bytes(key)
        assert len(key) == 32
        w = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(8)]
        self.words = w
        self.ks = w * 3 + w[::-1]

    @staticmethod
    def _run(block, ks):
        a1 = int.from_bytes(block[:4], 'big')
        a0 = int.from_bytes(block[4:], 'big')
        for k in ks:
            t = (a0 + k) & 0xffffffff
            f = _M0[t & 255] ^ _M1[(t >> 8) & 255] ^ _M2[(t >> 16) & 255] ^ _M3[t >> 24]
            a1, a0 = a0, a1 ^ f
        return a0.to_bytes(4, 'big') + a1.to_bytes(4, 'big')

    def encrypt(self, block):
        return self._run(bytes(block), self.ks)

    def decrypt(self, block):
        return self._run(bytes(block), self.ks[::-1])

    def secrets(self):
        return [w.to_bytes(4, 'big') for w in self.words]


ALG = {'kuznechik': Kuznyechik, 'magma': Magma}

DEFAULT_IV = {
    ('kuznechik', 'ctr'): bytes.fromhex('1234567890abcef0'),
    ('magma', 'ctr'): bytes.fromhex('12345678'),
    ('kuznechik', 'cbc'): bytes.fromhex(
        '1234567890abcef0a1b2c3d4e5f001122334455667788990' '1213141516171819'),
    ('magma', 'cbc'): bytes.fromhex('1234567890abcdef234567890abcdef134567890abcdef12'),
    ('magma', 'ofb'): bytes.fromhex('1234567890abcdef234567890abcdef1'),
}
DEFAULT_IV[('kuznechik', 'ofb')] = DEFAULT_IV[('kuznechik', 'cbc')]
DEFAULT_IV[('kuznechik', 'cfb')] = DEFAULT_IV[('kuznechik', 'cbc')]
DEFAULT_IV[('magma', 'cfb')] = DEFAULT_IV[('magma', 'ofb')]


def _xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def pad(block_size, mode, data):
    """Padding as shipped: mode 1 fills up with zeros (an empty message becomes
    one zero block); mode 2 appends 80 00.. and always a whole extra block."""
    data = bytes(data)
    if not data:
        size = block_size
    else:
        size = -len(data) % block_size
    if mode == 1:
        return data + b'\x00' * size
    return data + b'\x80' + b'\x00' * (block_size + size - 1)


def blocks(bs, data):
    return [data[i:i + bs] for i in range(0, len(data), bs)]


class Session:
    """Reference stream: the state is explicit, one block at a time."""

    def __init__(self, alg, mode, key, iv=None, pad_mode=1):
        self.c = ALG[alg](key)
        self.bs = self.c.block_size
        self.mode = mode
        self.pad_mode = pad_mode
        if mode == 'ctr':
            self.ctr = int.from_bytes(bytes(iv) + b'\x00' * (self.bs // 2), 'big')
        elif mode != 'ecb':
            self.reg = blocks(self.bs, bytes(iv))

    def counter_at(self, n):
        """Counter block value after n consumed blocks."""
        return ((self.ctr + n) % (1 << (8 * self.bs))).to_bytes(self.bs, 'big')

    def crypt(self, decrypting, data):
        data = bytes(data)
        c, bs, mode = self.c, self.bs, self.mode
        out = []
        if mode in ('ecb', 'cbc'):
            if not decrypting:
                data = pad(bs, self.pad_mode, data)
            data = data[:len(data) // bs * bs]
        for b in blocks(bs, data):
            if mode == 'ecb':
                out.append(c.decrypt(b) if decrypting else c.encrypt(b))
            elif mode == 'cbc':
                head = self.reg[0]
                if decrypting:
                    out.append(_xor(head, c.decrypt(b)))
                    fb = b
                else:
                    fb = c.encrypt(_xor(head, b))
                    out.append(fb)
                self.reg = self.reg[1:] + [fb]
            elif mode == 'ctr':
                gamma = c.encrypt(self.counter_at(0))
                self.ctr = (self.ctr + 1) % (1 << (8 * bs))
                out.append(_xor(b, gamma))
            else:
                gamma = c.encrypt(self.reg[0])
                r = _xor(b, gamma)
                out.append(r)
                if len(b) == bs:
                    if mode == 'ofb':
                        fb = gamma
                    else:
                        fb = b if decrypting else r
                    self.reg = self.reg[1:] + [fb]
        return b''.join(out)

    def iv(self):
        return self.reg[-1]


def mac(alg, key, msg):
    """Full-length OMAC of the whole message."""
    c = ALG[alg](key)
    bs = c.block_size
    poly = 0x87 if bs == 16 else 0x1b
    width = 8 * bs

    def dbl(v):
        v <<= 1
        if v >> width:
            v = (v ^ poly) & ((1 << width) - 1)
        return v
    r = int.from_bytes(c.encrypt(bytes(bs)), 'big')
    k1 = dbl(r)
    k2 = dbl(k1)
    msg = bytes(msg)
    bl = blocks(bs, msg) or [b'']
    state = 0
    for b in bl[:-1]:
        state = int.from_bytes(c.encrypt((state ^ int.from_bytes(b, 'big')).to_bytes(bs, 'big')), 'big')
    last = bl[-1]
    if len(last) == bs:
        v = int.from_bytes(last, 'big') ^ k1
    else:
        v = int.from_bytes(last + b'\x80' + bytes(bs - len(last) - 1), 'big') ^ k2
    return c.encrypt((state ^ v).to_bytes(bs, 'big'))


def mac_subkeys(alg, key):
    c = ALG[alg](key)
    bs = c.block_size
    poly = 0x87 if bs == 16 else 0x1b
    width = 8 * bs

    def dbl(v):
        v <<= 1
        if v >> width:
            v = (v ^ poly) & ((1 << width) - 1)
        return v
    r = int.from_bytes(c.encrypt(bytes(bs)), 'big')
    k1 = dbl(r)
    return [k1.to_bytes(bs, 'big'), dbl(k1).to_bytes(bs, 'big')]
