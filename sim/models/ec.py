"""Reference GOST R 34.10-2012 over short Weierstrass curves.

Independent arithmetic (Jacobian coordinates, explicit point at infinity).
Curve constants are frozen here, in canonical (Weierstrass) form; nothing is
read from /repo.
"""


class Curve:
    def __init__(self, name, size, p, a, b, q, x, y, cofactor, native):
        self.name = name
        self.size = size
        self.p = p
        self.a = a
        self.b = b
        self.q = q
        self.g = (x, y)
        self.cofactor = cofactor
        self.native = native   # parameters as an application would store them

    def on_curve(self, pt):
        x, y = pt
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    # Jacobian helpers; None is the point at infinity.
    def _dbl(self, pt):
        x, y, z = pt
        p = self.p
        if y == 0 or z == 0:
            return (1, 1, 0)
        yy = y * y % p
        s = 4 * x * yy % p
        zz = z * z % p
        m = (3 * x * x + self.a * zz * zz) % p
        x3 = (m * m - 2 * s) % p
        y3 = (m * (s - x3) - 8 * yy * yy) % p
        return (x3, y3, 2 * y * z % p)

    def _add(self, a, b):
        if a[2] == 0:
            return b
        if b[2] == 0:
            return a
        p = self.p
        z1 = a[2] * a[2] % p
        z2 = b[2] * b[2] % p
        u1 = a[0] * z2 % p
        u2 = b[0] * z1 % p
        s1 = a[1] * z2 * b[2] % p
        s2 = b[1] * z1 * a[2] % p
        if u1 == u2:
            if s1 == s2:
                return self._dbl(a)
            return (1, 1, 0)
        h = (u2 - u1) % p
        r = (s2 - s1) % p
        hh = h * h % p
        hhh = h * hh % p
        v = u1 * hh % p
        x3 = (r * r - hhh - 2 * v) % p
        y3 = (r * (v - x3) - s1 * hhh) % p
        return (x3, y3, h * a[2] * b[2] % p)

    def _affine(self, pt):
        if pt[2] == 0:
            return None
        zi = pow(pt[2], -1, self.p)
        zz = zi * zi % self.p
        return (pt[0] * zz % self.p, pt[1] * zz * zi % self.p)

    def mul(self, k, pt=None):
        x, y = self.g if pt is None else pt
        acc = (1, 1, 0)
        base = (x % self.p, y % self.p, 1)
        for bit in bin(k)[2:]:
            acc = self._dbl(acc)
            if bit == '1':
                acc = self._add(acc, base)
        return self._affine(acc)

    def add(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self._affine(self._add(a + (1,), b + (1,)))

    # GOST R 34.10-2012
    def e_of(self, digest):
        e = int.from_bytes(digest, 'big') % self.q
        return e or 1

    def public(self, d):
        pt = self.mul(d)
        return pt[0].to_bytes(self.size, 'big') + pt[1].to_bytes(self.size, 'big')

    def sign_with(self, d, digest, k):
        """(r, s) for this k, either possibly zero when k is unusable."""
        e = self.e_of(digest)
        pt = self.mul(k)
        r = 0 if pt is None else pt[0] % self.q
        return r, (r * d + k * e) % self.q

    def pack(self, r, s):
        return r.to_bytes(self.size, 'big') + s.to_bytes(self.size, 'big')

    def verify(self, public, digest, signature):
        n = self.size
        r = int.from_bytes(signature[:n], 'big')
        s = int.from_bytes(signature[n:], 'big')
        if not (0 < r < self.q and 0 < s < self.q):
            return False
        pt = (int.from_bytes(public[:n], 'big'), int.from_bytes(public[n:], 'big'))
        v = pow(self.e_of(digest), -1, self.q)
        z1 = s * v % self.q
        z2 = -r * v % self.q
        c = self.add(self.mul(z1), self.mul(z2, pt))
        return c is not None and c[0] % self.q == r

    def nonce_of(self, d, digest, signature):
        """Recover the k that produced a signature, from the private key."""
        n = self.size
        r = int.from_bytes(signature[:n], 'big')
        s = int.from_bytes(signature[n:], 'big')
        return (s - r * d) * pow(self.e_of(digest), -1, self.q) % self.q


def shaped(ctx, q, label):
    """A number in [1, q-1] with long runs of equal bits, powers of two and the like."""
    bits = q.bit_length()
    v = int.from_bytes(ctx.key((bits + 7) // 8, label), 'big') % q
    w = ctx.pick((4, 8, 16, 24, 32, 64, 128, bits // 2, bits - 9), label + '.width')
    at = ctx.int(0, bits - w, label + '.at')
    run = (1 << w) - 1
    how = ctx.pick((0, 1, 2, 3, 4, 5, 6, 7, 8), label + '.shape', (4, 4, 3, 3, 3, 3, 2, 2, 1))
    if how == 0:
        v |= run
    elif how == 1:
        v &= ~run
    elif how == 2:
        v |= run << (bits - w)
    elif how == 3:
        v &= ~(run << (bits - w))
    elif how == 4:
        v |= run << at
    elif how == 5:
        v &= ~(run << at)
    elif how == 6:
        v = 1 << ctx.int(0, bits - 1, label + '.bit')
    elif how == 7:
        v = (1 << ctx.int(1, bits - 1, label + '.bit')) + ctx.pick((-1, 1), label + '.off')
    else:
        v = int.from_bytes(bytes([ctx.pick((0x55, 0xaa, 0xf0, 0x0f, 0x80, 0x01), label + '.byte')]) * 66, 'big') >> (528 - bits)
    if v >= q:
        v &= (1 << (bits - 1)) - 1            # the run may lose its top bit
    return v % q or 1


def point_near(c, x, step):
    """The first point of the curve whose x is x, x + step, ... (p = 3 mod 4)."""
    while True:
        x %= c.p
        v = (x * x * x + c.a * x + c.b) % c.p
        y = pow(v, (c.p + 1) // 4, c.p)
        if y * y % c.p == v:
            return x, y
        x += step


class Rebased(Curve):
    """A curve with another generator, so that the nonce j gives the point pt."""

    def __init__(self, c, pt, j=1):
        assert c.cofactor == 1 and c.p % 4 == 3 or pt == c.g
        g = c.mul(pow(j, -1, c.q), pt)
        super().__init__(c.name + '/rebased', c.size, c.p, c.a, c.b, c.q, g[0], g[1], c.cofactor, None)
        self.pt = pt
        self.edge = [j, c.q - j]


def edge_curve(ctx, names):
    """A curve on which a known nonce gives a point with x at an end of its range (perhaps beyond q)."""
    names = [n for n in names if CURVES[n].cofactor == 1 and CURVES[n].p % 4 == 3]
    c = CURVES[ctx.pick(names, 'edge.curve')]
    x, step = ctx.pick(((c.q, 1), (c.p - 1, -1), (c.q - 1, -1), (0, 1), (c.q // 2, 1), (0, 0)), 'edge.x', (3, 3, 2, 2, 1, 4))
    if step == 0:
        x, step = shaped(ctx, c.q, 'edge.shape'), ctx.pick((1, 1 << 8 * (c.size - 1), 1 << 4 * c.size), 'edge.step')
    pt = point_near(c, x + step * ctx.pick((0, 1, 20), 'edge.skip', (3, 2, 1)), step)
    j = ctx.int(1, 1 << 200, 'edge.j') if ctx.flag(60, 'edge.far') else 1 + ctx.int(0, 2, 'edge.near')
    return Rebased(c, pt, j)


CURVES = {}


def _c(name, size, p, a, b, q, x, y, cofactor, native):
    CURVES[name] = Curve(name, size, p, a, b, q, x, y, cofactor, native)


_c('id-tc26-gost-3410-2012-256-paramSetB', 32,
   0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
   0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd94,
   0xa6,
   0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
   0x1,
   0x8d91e471e0989cda27df505a453f2b7635294f2ddf23e3b122acc99c9e9f1e14,
   1,
   dict(p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        a=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd94,
        b=0xa6,
        m=0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
        q=0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
        x=0x1,
        y=0x8d91e471e0989cda27df505a453f2b7635294f2ddf23e3b122acc99c9e9f1e14))
_c('id-tc26-gost-3410-2012-256-paramSetC', 32,
   0x8000000000000000000000000000000000000000000000000000000000000c99,
   0x8000000000000000000000000000000000000000000000000000000000000c96,
   0x3e1af419a269a5f866a7d3c25c3df80ae979259373ff2b182f49d4ce7e1bbc8b,
   0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
   0x1,
   0x3fa8124359f96680b83d1c3eb2c070e5c545c9858d03ecfb744bf8d717717efc,
   1,
   dict(p=0x8000000000000000000000000000000000000000000000000000000000000c99,
        a=0x8000000000000000000000000000000000000000000000000000000000000c96,
        b=0x3e1af419a269a5f866a7d3c25c3df80ae979259373ff2b182f49d4ce7e1bbc8b,
        m=0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
        q=0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
        x=0x1,
        y=0x3fa8124359f96680b83d1c3eb2c070e5c545c9858d03ecfb744bf8d717717efc))
_c('id-tc26-gost-3410-2012-256-paramSetD', 32,
   0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d759b,
   0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d7598,
   0x805a,
   0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
   0x0,
   0x41ece55743711a8c3cbf3783cd08c0ee4d4dc440d4641a8f366e550dfdb3bb67,
   1,
   dict(p=0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d759b,
        a=0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d7598,
        b=0x805a,
        m=0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
        q=0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
        x=0x0,
        y=0x41ece55743711a8c3cbf3783cd08c0ee4d4dc440d4641a8f366e550dfdb3bb67))
_c('id-tc26-gost-3410-12-512-paramSetA', 64,
   0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
   0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc4,
   0xe8c2505dedfc86ddc1bd0b2b6667f1da34b82574761cb0e879bd081cfd0b6265ee3cb090f30d27614cb4574010da90dd862ef9d4ebee4761503190785a71c760,
   0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
   0x3,
   0x7503cfe87a836ae3a61b8816e25450e6ce5e1c93acf1abc1778064fdcbefa921df1626be4fd036e93d75e6a50e3a41e98028fe5fc235f5b889a589cb5215f2a4,
   1,
   dict(p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        a=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc4,
        b=0xe8c2505dedfc86ddc1bd0b2b6667f1da34b82574761cb0e879bd081cfd0b6265ee3cb090f30d27614cb4574010da90dd862ef9d4ebee4761503190785a71c760,
        m=0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
        q=0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
        x=0x3,
        y=0x7503cfe87a836ae3a61b8816e25450e6ce5e1c93acf1abc1778064fdcbefa921df1626be4fd036e93d75e6a50e3a41e98028fe5fc235f5b889a589cb5215f2a4))
_c('id-tc26-gost-3410-12-512-paramSetB', 64,
   0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006f,
   0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006c,
   0x687d1b459dc841457e3e06cf6f5e2517b97c7d614af138bcbf85dc806c4b289f3e965d2db1416d217f8b276fad1ab69c50f78bee1fa3106efb8ccbc7c5140116,
   0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
   0x2,
   0x1a8f7eda389b094c2c071e3647a8940f3c123b697578c213be6dd9e6c8ec7335dcb228fd1edf4a39152cbcaaf8c0398828041055f94ceeec7e21340780fe41bd,
   1,
   dict(p=0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006f,
        a=0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006c,
        b=0x687d1b459dc841457e3e06cf6f5e2517b97c7d614af138bcbf85dc806c4b289f3e965d2db1416d217f8b276fad1ab69c50f78bee1fa3106efb8ccbc7c5140116,
        m=0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
        q=0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
        x=0x2,
        y=0x1a8f7eda389b094c2c071e3647a8940f3c123b697578c213be6dd9e6c8ec7335dcb228fd1edf4a39152cbcaaf8c0398828041055f94ceeec7e21340780fe41bd))
_c('id-tc26-gost-3410-2012-256-paramSetA', 32,
   0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
   0xc2173f1513981673af4892c23035a27ce25e2013bf95aa33b22c656f277e7335,
   0x295f9bae7428ed9ccc20e7c359a9d41a22fccd9108e17bf7ba9337a6f8ae9513,
   0x400000000000000000000000000000000fd8cddfc87b6635c115af556c360c67,
   0x91e38443a5e82c0d880923425712b2bb658b9196932e02c78b2582fe742daa28,
   0x32879423ab1a0375895786c4bb46e9565fde0b5344766740af268adb32322e5c,
   4,
   dict(p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        a=0xc2173f1513981673af4892c23035a27ce25e2013bf95aa33b22c656f277e7335,
        b=0x295f9bae7428ed9ccc20e7c359a9d41a22fccd9108e17bf7ba9337a6f8ae9513,
        e=0x1,
        d=0x605f6b7c183fa81578bc39cfad518132b9df62897009af7e522c32d6dc7bffb,
        m=0x1000000000000000000000000000000003f63377f21ed98d70456bd55b0d8319c,
        q=0x400000000000000000000000000000000fd8cddfc87b6635c115af556c360c67,
        x=0x91e38443a5e82c0d880923425712b2bb658b9196932e02c78b2582fe742daa28,
        y=0x32879423ab1a0375895786c4bb46e9565fde0b5344766740af268adb32322e5c,
        u=0xd,
        v=0x60ca1e32aa475b348488c38fab07649ce7ef8dbe87f22e81f92b2592dba300e7))
_c('id-tc26-gost-3410-2012-512-paramSetC', 64,
   0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
   0xdc9203e514a721875485a529d2c722fb187bc8980eb866644de41c68e143064546e861c0e2c9edd92ade71f46fcf50ff2ad97f951fda9f2a2eb6546f39689bd3,
   0xb4c4ee28cebc6c2c8ac12952cf37f16ac7efb6a9f69f4b57ffda2e4f0de5ade038cbc2fff719d2c18de0284b8bfef3b52b8cc7a5f5bf0a3c8d2319a5312557e1,
   0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc98cdba46506ab004c33a9ff5147502cc8eda9e7a769a12694623cef47f023ed,
   0xe2e31edfc23de7bdebe241ce593ef5de2295b7a9cbaef021d385f7074cea043aa27272a7ae602bf2a7b9033db9ed3610c6fb85487eae97aac5bc7928c1950148,
   0xf5ce40d95b5eb899abbccff5911cb8577939804d6527378b8c108c3d2090ff9be18e2d33e3021ed2ef32d85822423b6304f726aa854bae07d0396e9a9addc40f,
   4,
   dict(p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        a=0xdc9203e514a721875485a529d2c722fb187bc8980eb866644de41c68e143064546e861c0e2c9edd92ade71f46fcf50ff2ad97f951fda9f2a2eb6546f39689bd3,
        b=0xb4c4ee28cebc6c2c8ac12952cf37f16ac7efb6a9f69f4b57ffda2e4f0de5ade038cbc2fff719d2c18de0284b8bfef3b52b8cc7a5f5bf0a3c8d2319a5312557e1,
        e=0x1,
        d=0x9e4f5d8c017d8d9f13a5cf3cdf5bfe4dab402d54198e31ebde28a0621050439ca6b39e0a515c06b304e2ce43e79e369e91a0cfc2bc2a22b4ca302dbb33ee7550,
        m=0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff26336e91941aac0130cea7fd451d40b323b6a79e9da6849a5188f3bd1fc08fb4,
        q=0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc98cdba46506ab004c33a9ff5147502cc8eda9e7a769a12694623cef47f023ed,
        x=0xe2e31edfc23de7bdebe241ce593ef5de2295b7a9cbaef021d385f7074cea043aa27272a7ae602bf2a7b9033db9ed3610c6fb85487eae97aac5bc7928c1950148,
        y=0xf5ce40d95b5eb899abbccff5911cb8577939804d6527378b8c108c3d2090ff9be18e2d33e3021ed2ef32d85822423b6304f726aa854bae07d0396e9a9addc40f,
        u=0x12,
        v=0x469af79d1fb1f5e16b99592b77a01e2a0fdfb0d01794368d9a56117f7b38669522dd4b650cf789eebf068c5d139732f0905622c04b2baae7600303ee73001a3d))
