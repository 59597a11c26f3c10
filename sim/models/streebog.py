"""Reference Streebog (GOST R 34.11-2012), written from the standard's description.

One-shot only: it hashes a complete message held in memory, so it has no
streaming state that could share a defect with the code under test.  The
constants are frozen here; nothing is read from /repo.
"""

PI = bytes.fromhex(
    'fceedd11cf6e3116fbc4fada23c5044de977f0db932e99ba1736f1bb14cd5fc1'
    'f918655ae25cef21811c3c428b018e4f058402aee36a8fa0060bed987fd4d31f'
    'eb342c51eac848abf22a68a2fd3aceccb5700e56080c7612bf7213479cb75d87'
    '15a19629107b9ac7f391786f9d9eb2b13275193dff358a7e6d54c680c3bd0d57'
    'dff524a93ea843c9d779d6f67c22b903e00fecde7a94b0bcdce828504e330a4a'
    'a79760731e0062441ab83882649f2641ad454692275e552f8ca3a57d69d5953b'
    '0758b34086ac1df730376be488d9e789e11b83494c3ff8fe8d53aa90cad88561'
    '207167a42d2b095bcb9b25d0bee56c5259a674d2e6f4b4c0d166afc2394b63b6'
)

# Columns of the linear map, per byte lane and bit.
A = [
    [0x641c314b2b8ee083, 0xc83862965601dd1b, 0x8d70c431ac02a736, 0x07e095624504536c,
     0x0edd37c48a08a6d8, 0x1ca76e95091051ad, 0x3853dc371220a247, 0x70a6a56e2440598e],
    [0xa48b474f9ef5dc18, 0x550b8e9e21f7a530, 0xaa16012142f35760, 0x492c024284fbaec0,
     0x9258048415eb419d, 0x39b008152acb8227, 0x727d102a548b194e, 0xe4fa2054a80b329c],
    [0xf97d86d98a327728, 0xeffa11af0964ee50, 0xc3e9224312c8c1a0, 0x9bcf4486248d9f5d,
     0x2b838811480723ba, 0x561b0d22900e4669, 0xac361a443d1c8cd2, 0x456c34887a3805b9],
    [0x5b068c651810a89e, 0xb60c05ca30204d21, 0x71180a8960409a42, 0xe230140fc0802984,
     0xd960281e9d1d5215, 0xafc0503c273aa42a, 0x439da0784e745554, 0x86275df09ce8aaa8],
    [0x0321658cba93c138, 0x0642ca05693b9f70, 0x0c84890ad27623e0, 0x18150f14b9ec46dd,
     0x302a1e286fc58ca7, 0x60543c50de970553, 0xc0a878a0a1330aa6, 0x9d4df05d5f661451],
    [0xaccc9ca9328a8950, 0x4585254f64090fa0, 0x8a174a9ec8121e5d, 0x092e94218d243cba,
     0x125c354207487869, 0x24b86a840e90f0d2, 0x486dd4151c3dfdb9, 0x90dab52a387ae76f],
    [0x46b60f011a83988e, 0x8c711e02341b2d01, 0x05e23c0468365a02, 0x0ad97808d06cb404,
     0x14aff010bdd87508, 0x2843fd2067adea10, 0x5086e740ce47c920, 0xa011d380818e8f40],
    [0x83478b07b2468764, 0x1b8e0b0e798c13c8, 0x3601161cf205268d, 0x6c022c38f90a4c07,
     0xd8045870ef14980e, 0xad08b0e0c3282d1c, 0x47107ddd9b505a38, 0x8e20faa72ba0b470],
]

C = [bytes.fromhex(v) for v in (
    '0745a6f2596580dd234d74cc3674760515d360a4082a42a20169679291e07c4b'
    'fcc485758db84e7116d0452e43766a2f1f7c65c0812fcbebe9daca1eda5b08b1',
    'b79bb121700479e656cdcbd71ba2dd55caa70adbc261b55c5899d6126b17b59a'
    '3101b5160f5ed561982b230a72eafef3d7b5700f469de34f1a2f9da98ab5a36f',
    'b20aba0af5961e9931db7a8643f4b6c209db6260373ac9c1b19e3590e40fe2d3'
    '7b7b29b11475eaf28b1f9c525f5ef10635843d6a28fc390ac72fce2bacdc74f5',
    '2ed1e384bcbe0c22f137e893a1ea5334be0352933313b7d875d603ed822cd7a9'
    '3f355e68ad1c729d7d3c5c337e858e48dde4715da0e148f9d26615e8b3df1fef',
    '57fe6c7cfd581760f563eaa97ea2567a161a2723b700ffdfa3f53a254717cdbf'
    'bdff0f80d7359e354a1086161f1c157f6323a96c0c413f9a994747adac6bea4b',
    '6e7d64467a4068fa354f903672c571bfb6c6bec2661ff20ab4b79a1cb7a6facf'
    'c68ef09ab49a7f186ca44251f9c4662dc039307a3bc3a46fd9d33a1daeae4fae',
    '93d4143a4d568688f34a3ca24c45173504054a2883694706372c822dc5ab9209'
    'c9937a19333e47d3c987bfe6c7c69e39540924bffe86ac51ecc5aaee160ec7f4',
    '1ee702bfd40d7fa4d9a8515935c2ac362fc4a5d12b8dd16990069b92cb2b89f4'
    '9ac4db4d3b44b4891ede369c71f8b74e41416e0c02aae703a7c9934d425b1f9b',
    'db5a238351446172602a1fcb92dc380e549c07a69a8a2b7bb1ceb2db0b440a80'
    '84090de0b755d93c244289251b3a7d3ade5f16ecd89a4c949b223116545a8f37',
    'ed9c4598fbc7b474c3b63b15d1fa9836f452763b306c1e7a4b3369af0267e79f'
    '0361331b8ae1ff1fdb788aff1ce74189f3f3e4b248e52a38526f0580a6debeab',
    '1b2df381cda4ca6b5dd86fc04a59a2de986e477d1dcdbaefcab948eaef711d8a'
    '79668414218001206107abebbb6bfad894fe5a63cdc60230fb89c8efd09ecd7b',
    '20d71bf14a92bc48991bb2d9d517f4fa5228e188aaa41de786cc91189def805d'
    '9b9f2130d41220f8771ddfbc323ca4cd7ab14904b08013d2ba3116f167e78e37',
)]


def _tables():
    tabs = []
    for lane in range(8):
        tab = []
        for x in range(256):
            v = 0
            s = PI[x]
            for bit in range(8):
                if (s >> bit) & 1:
                    v ^= A[lane][bit]
            tab.append(v)
        tabs.append(tab)
    return tabs


_T0, _T1, _T2, _T3, _T4, _T5, _T6, _T7 = _tables()
_CI = [int.from_bytes(c, 'little') for c in C]
_M512 = (1 << 512) - 1


def _lps(v):
    d = v.to_bytes(64, 'little')
    r = 0
    for i in range(7, -1, -1):
        r = (r << 64) | (
            _T0[d[i]] ^ _T1[d[8 + i]] ^ _T2[d[16 + i]] ^ _T3[d[24 + i]] ^
            _T4[d[32 + i]] ^ _T5[d[40 + i]] ^ _T6[d[48 + i]] ^ _T7[d[56 + i]])
    return r


def _g(h, n, m):
    k = _lps(h ^ n)
    s = k ^ m
    for i in range(12):
        s = _lps(s)
        k = _lps(k ^ _CI[i])
        s ^= k
    return s ^ h ^ m


def streebog(bits, msg):
    """Digest of the whole message."""
    msg = bytes(msg)
    h = 0 if bits == 512 else int.from_bytes(b'\x01' * 64, 'little')
    n = 0
    sigma = 0
    full = len(msg) // 64
    for i in range(full):
        m = int.from_bytes(msg[64 * i:64 * i + 64], 'little')
        h = _g(h, n, m)
        n = (n + 512) & _M512
        sigma = (sigma + m) & _M512
    tail = msg[64 * full:]
    m = int.from_bytes(tail + b'\x01', 'little')
    h = _g(h, n, m)
    n = (n + 8 * len(tail)) & _M512
    sigma = (sigma + m) & _M512
    h = _g(h, 0, n)
    h = _g(h, 0, sigma)
    out = h.to_bytes(64, 'little')
    return out if bits == 512 else out[32:]


class Chain:
    """Digests of many prefixes of one long message (the same computation as
    ``streebog``, with the values after each full block kept)."""

    def __init__(self, bits, msg):
        self.bits = bits
        self.msg = bytes(msg)
        self.kept = [(0 if bits == 512 else int.from_bytes(b'\x01' * 64, 'little'), 0, 0)]

    def digest(self, upto):
        full = upto // 64
        while len(self.kept) <= full:
            i = len(self.kept) - 1
            h, n, sigma = self.kept[i]
            m = int.from_bytes(self.msg[64 * i:64 * i + 64], 'little')
            self.kept.append((_g(h, n, m), (n + 512) & _M512, (sigma + m) & _M512))
        h, n, sigma = self.kept[full]
        tail = self.msg[64 * full:upto]
        m = int.from_bytes(tail + b'\x01', 'little')
        h = _g(h, n, m)
        n = (n + 8 * len(tail)) & _M512
        sigma = (sigma + m) & _M512
        out = _g(_g(h, 0, n), 0, sigma).to_bytes(64, 'little')
        return out if self.bits == 512 else out[32:]


def resumed(bits, head, skip, tail):
    """Digest of head (whole blocks) and tail if the length counter stood skip bits higher in between."""
    h = 0 if bits == 512 else int.from_bytes(b'\x01' * 64, 'little')
    n = sigma = 0
    msg = head + tail
    at = len(head) // 64
    for i in range(len(msg) // 64 + 1):
        if i == at:
            n = (n + skip) & _M512
        block = msg[64 * i:64 * i + 64]
        last = len(block) < 64
        m = int.from_bytes(block + (b'\x01' if last else b''), 'little')
        h = _g(h, n, m)
        n = (n + 8 * len(block)) & _M512
        sigma = (sigma + m) & _M512
    out = _g(_g(h, 0, n), 0, sigma).to_bytes(64, 'little')
    return out if bits == 512 else out[32:]


def hmac(bits, key, msg):
    """HMAC per R 50.1.113-2016 (RFC 7836); keys of at most 64 bytes."""
    key = bytes(key) + b'\x00' * (64 - len(key))
    inner = streebog(bits, bytes(b ^ 0x36 for b in key) + bytes(msg))
    return streebog(bits, bytes(b ^ 0x5c for b in key) + inner)


def pbkdf2(password, salt, iterations, dk_len):
    """R 50.1.111-2016 / RFC 2898 with HMAC_GOSTR3411_2012_512."""
    out = b''
    i = 0
    while len(out) < dk_len:
        i += 1
        u = hmac(512, password, bytes(salt) + i.to_bytes(4, 'big'))
        t = int.from_bytes(u, 'big')
        for _ in range(1, iterations):
            u = hmac(512, password, u)
            t ^= int.from_bytes(u, 'big')
        out += t.to_bytes(64, 'big')
    return out[:dk_len]


def prng_block(seed, index):
    """index-th (from 1) 64-byte block of the R 1323565.1.006-2017 sequence."""
    width = 63 - len(seed)
    return streebog(512, bytes(seed) + index.to_bytes(width, 'big'))


def prng_output(seed, first, size):
    """One output of ``size`` bytes that starts with block ``first``.

    Returns (bytes, next_block_index).
    """
    out = b''
    i = first
    for _ in range(size // 64):
        out += prng_block(seed, i)
        i += 1
    r = size % 64
    if r:
        out += prng_block(seed, i)[64 - r:]
        i += 1
    return out, i


def chain(bits, msg):
    """(chaining value, checksum) after the complete blocks of a message."""
    h = 0 if bits == 512 else int.from_bytes(b'\x01' * 64, 'little')
    n = sigma = 0
    for i in range(len(msg) // 64):
        m = int.from_bytes(msg[64 * i:64 * i + 64], 'little')
        h = _g(h, n, m)
        n = (n + 512) & _M512
        sigma = (sigma + m) & _M512
    return h.to_bytes(64, 'little'), sigma.to_bytes(64, 'little')


def inner_values(bits, msg, follow=False):
    """Everything the compression function computes on its way through the complete blocks of a message,
    and (with follow) the part of the next one that does not depend on its data."""
    h = 0 if bits == 512 else int.from_bytes(b'\x01' * 64, 'little')
    n = 0
    out = []
    full = len(msg) // 64
    for i in range(full + (1 if follow else 0)):
        m = int.from_bytes(msg[64 * i:64 * i + 64], 'little') if i < full else None
        first = h == 0 or i == 0
        k = _lps(h ^ n)
        if not first:
            out += [h ^ n, k]
        s = None if m is None else k ^ m
        for r in range(12):
            if s is not None:
                out.append(s)
                s = _lps(s)
                out.append(s)
            if not first:
                out.append(k ^ _CI[r])
            k = _lps(k ^ _CI[r])
            if not first:
                out.append(k)
            if s is not None:
                s ^= k
        if m is not None:
            out += [s, s ^ h]
            h = s ^ h ^ m
            out.append(h)
            n = (n + 512) & _M512
    return [v.to_bytes(64, 'little') for v in out]
