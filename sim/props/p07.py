"""Parties that protect messages with codes and signatures over a hostile network."""

from math import isqrt

from ..core import below, hx
from ..models import cipher, ec, streebog
from ..world import BufferPool, Entropy, World, cut_sizes

LEVEL = 'exploration'
SCENARIOS = [('codes', 4), ('signed', 3), ('special', 2), ('registry', 2)]
SPECIAL = ['deep'] * 3
QUICK_RUNS = 1400
RULE = ('Each run: senders protect messages with the real HMAC, block-cipher MAC or hash-and-sign; the simulated '
        'network delivers intact copies, duplicates and altered copies (bit flips, truncation, extension, splicing of '
        'two messages, exchanged codes, wrong keys, out-of-range or degenerate signature values, special public '
        'keys); the receiver re-computes piecewise and its decision is compared with the reference decision. One scenario keeps a verifier '
        'for many parties on many curves at work while keys are rotated and old signatures come back. Verifying callers may be hundreds of calls deep.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['network', 'event clock', 'operating-system random source', 'application I/O buffers']
ASSUMPTIONS = ['the reference functions and curve arithmetic in sim/models agree with the standards '
               '(validated on published vectors at set-up)',
               'for public keys that are not points of the curve only "answers without an error" is claimed']


# -- codes -------------------------------------------------------------------
class Code:
    def __init__(self, ctx, pool):
        self.ctx, self.pool = ctx, pool
        self.kind = ctx.pick(('hmac', 'mac'), 'kind')
        if self.kind == 'hmac':
            self.bits = ctx.pick((256, 512), 'bits')
            self.size = self.bits // 8
            self.unit = 64
            self.keylen = ctx.pick((32, 64, 20, 1), 'keylen')
        else:
            self.alg = ctx.pick(('magma', 'kuznechik'), 'alg')
            self.unit = self.size = 8 if self.alg == 'magma' else 16
            self.keylen = 32

    def new(self, key):
        g = self.ctx.gost
        if self.kind == 'hmac':
            o = self.ctx.call('hmac new', g.gosthmac.new, 'HMAC_GOSTR3411_2012_%d' % self.bits, self.pool.wrap(key))
        else:
            o = self.ctx.call('mac new', g.gostcipher.new, self.alg, self.pool.wrap(key), g.gostcipher.MODE_MAC)
        self.pool.settle()
        return o

    def real(self, key, msg):
        ctx = self.ctx
        o = self.new(key)
        at = 0
        for n in cut_sizes(ctx, len(msg), self.unit, 'cut', max_parts=6):
            ctx.call('update', o.update, self.pool.wrap(msg[at:at + n]))
            self.pool.settle()
            at += n
        return bytes(ctx.call('digest', o.digest) if self.kind == 'hmac' else ctx.call('digest', o.digest, self.size))

    def ref(self, key, msg):
        if self.kind == 'hmac':
            return streebog.hmac(self.bits, key, msg)
        return cipher.mac(self.alg, key, msg)


def alter(ctx, msg, code, others):
    """A damaged (message, code) pair."""
    how = ctx.pick((0, 1, 2, 3, 4, 5, 6), 'how')
    if how == 0 and msg:
        i = ctx.int(0, len(msg) - 1, 'at')
        b = bytearray(msg)
        b[i] ^= 1 << ctx.int(0, 7, 'bit')
        return 'flip-message', bytes(b), code
    if how == 1:
        i = ctx.int(0, len(code) - 1, 'at')
        b = bytearray(code)
        b[i] ^= 1 << ctx.int(0, 7, 'bit')
        return 'flip-code', msg, bytes(b)
    if how == 2 and msg:
        return 'truncate', msg[:ctx.int(0, len(msg) - 1, 'to')], code
    if how == 3:
        return 'extend', msg + ctx.pick((b'\x00', b'\x80', b'\x01', b'\x80' + bytes(7), b'\x00' * 8, b'\x01' + bytes(63)), 'ext'), code
    if how == 4 and others:
        m2, c2 = ctx.pick(others, 'other')
        return 'exchange-code', msg, c2
    if how == 5 and others:
        m2, c2 = ctx.pick(others, 'other')
        cut = ctx.int(0, min(len(msg), len(m2)), 'splice')
        return 'splice', msg[:cut] + m2[cut:], code
    b = bytearray(msg or b'x')
    if len(b) > 1:
        i = ctx.int(0, len(b) - 2, 'swap')
        b[i], b[i + 1] = b[i + 1], b[i]
    else:
        b[0] ^= 1
    return 'reorder', bytes(b), code


def codes(ctx):
    world = World(ctx)
    pool = BufferPool(ctx)
    c = Code(ctx, pool)
    key = ctx.key(c.keylen, 'key')
    wrong = ctx.key(c.keylen, 'wrong-key')
    sent = []
    judged = [0]

    def judge(label, msg, code, k):
        real = c.real(k, msg) == code
        want = c.ref(k, msg) == code
        ctx.log('verdict', label, len(msg), real)
        ctx.expect(real == want, 'altered-accepted' if real else 'intact-rejected',
                   lambda: '%s: %s delivery of %d bytes was %s' % (
                       c.kind, label, len(msg), 'accepted' if real else 'rejected'))
        judged[0] += 1

    long = ctx.flag(4, 'long-messages')
    for i in ctx.repeat(1, 4, 'message', 65):
        n = ctx.pick((0, 1, 2), 'len.k')
        n = ctx.small(0, 5 * c.unit, 'len') if n else c.unit * ctx.small(0, 4, 'blocks')
        if long and ctx.flag(50, 'long'):
            n = ctx.pick((256, 512, 1024, 2048, 4096), 'long.n', (3, 3, 3, 2, 1)) + ctx.pick((0, 1, -1, c.unit), 'long.off')
        msg = ctx.data(n, 'msg')
        code = c.real(key, msg)
        ctx.same('wrong-code', '%s of %d bytes' % (c.kind, n), code, c.ref(key, msg))
        sent.append((msg, code))
    for msg, code in sent:
        for _ in ctx.repeat(1, 4, 'delivery', 60):
            delay = ctx.small(0, 50, 'delay')
            f = ctx.pick((0, 1, 2, 3), 'fault', (3, 5, 1, 1))
            if f == 0:
                world.at(delay, judge, 'intact', msg, code, key)
            elif f == 1:
                how, m, cd = alter(ctx, msg, code, [x for x in sent if x[0] != msg])
                ctx.fault('net.' + how)
                world.at(delay, judge, how, m, cd, key)
            elif f == 2:
                ctx.fault('wrong-key')
                world.at(delay, judge, 'wrong-key', msg, code, wrong)
            else:
                ctx.fault('net.drop')
    world.run()


# -- signatures ----------------------------------------------------------------
SMALL = sorted(n for n, c in ec.CURVES.items() if c.size == 32)
LARGE = sorted(n for n, c in ec.CURVES.items() if c.size == 64)


class Party:
    def __init__(self, ctx, curve=None, form=None):
        self.ctx = ctx
        if curve is None:
            big = ctx.flag(5, 'curve.512')
            curve = ec.CURVES[ctx.pick(LARGE if big else SMALL, 'curve')]
        self.c = curve
        self.form = form or ctx.pick(('shipped', 'canonical', 'native'), 'form', (3, 1, 1))
        gs = ctx.gost.gostsignature
        if self.form == 'shipped':
            params = gs.CURVES_R_1323565_1_024_2019[curve.name]
        elif self.form == 'native' and 'e' in curve.native:
            # Edwards form only
            params = {k: curve.native[k] for k in ('p', 'e', 'd', 'm', 'q', 'u', 'v')}
        else:
            params = dict(p=curve.p, a=curve.a, b=curve.b, m=curve.q * curve.cofactor, q=curve.q,
                          x=curve.g[0], y=curve.g[1])
        self.obj = ctx.call('signature new', gs.new, gs.MODE_256 if curve.size == 32 else gs.MODE_512, params)

    def usable(self, pub):
        n = self.c.size
        x, y = int.from_bytes(pub[:n], 'big'), int.from_bytes(pub[n:], 'big')
        return x < self.c.p and y < self.c.p and y != 0 and self.c.on_curve((x, y))

    def verify(self, pool, pub, dig, sig, label):
        ctx = self.ctx
        depth = ctx.pick((0, 100, 200), 'caller.depth', (6, 1, 1))
        if depth:
            ctx.fault('deep-caller')
        got = ctx.call('verify (%s)' % label, below(depth, self.obj.verify), pool.wrap(pub), pool.wrap(dig), pool.wrap(sig))
        pool.settle()
        ctx.expect(isinstance(got, bool), 'verify-not-boolean', lambda: 'verify (%s) returned %r' % (label, got))
        ctx.log('verdict', label, got)
        if not self.usable(pub):
            ctx.probe('off-curve-key')
            return
        want = self.c.verify(pub, dig, sig)
        ctx.expect(got == want, 'altered-accepted' if got else 'intact-rejected',
                   lambda: '%s %s: %s answered %s; key %s digest %s signature %s' % (
                       self.c.name, self.form, label, got, hx(pub, 128), hx(dig, 64), hx(sig, 128)))


def private(ctx, c):
    k = ctx.pick((0, 1, 2, 3, 4), 'd.kind', (8, 1, 1, 1, 3))
    if k == 4:
        return ec.shaped(ctx, c.q, 'd')
    if k == 1:
        return ctx.int(1, 3, 'd.small')
    if k == 2:
        return c.q - ctx.int(1, 3, 'd.big')
    return int.from_bytes(ctx.key(c.size, 'd'), 'big') % c.q or 1


def golden(ctx, m):
    """A value near m divided by the golden ratio: inverting it takes nearly as long as it ever can."""
    return ((isqrt(5 * m * m) - m) // 2 + ctx.int(-300, 300, 'golden')) % m or 1


def digest_for(ctx, c, pool):
    """A digest the way applications get one, or a special value."""
    k = ctx.pick((0, 1, 2, 3, 4, 5, 6), 'dig.kind', (8, 1, 1, 1, 1, 1, 2))
    if k == 0:
        msg = ctx.data(ctx.pick((1024, 2048, 4096, 1000), 'msg.long') if ctx.flag(3, 'long') else ctx.small(0, 200, 'msg.len'), 'msg')
        h = ctx.call('hash new', ctx.gost.gosthash.new, 'streebog%d' % (8 * c.size))
        at = 0
        for n in cut_sizes(ctx, len(msg), 64, 'cut', max_parts=4):
            ctx.call('update', h.update, pool.wrap(msg[at:at + n]))
            pool.settle()
            at += n
        d = bytes(ctx.call('digest', h.digest))
        ctx.same('wrong-digest', 'streebog%d of %d bytes' % (8 * c.size, len(msg)), d,
                 streebog.streebog(8 * c.size, msg))
        return d
    if k == 1:
        return bytes(c.size)
    if k == 2 and c.q < 1 << (8 * c.size):
        return c.q.to_bytes(c.size, 'big')                # zero modulo q
    if k == 3:
        return b'\xff' * c.size
    if k == 6:
        return ec.shaped(ctx, 1 << (8 * c.size), 'dig').to_bytes(c.size, 'big')
    if k == 5:
        return golden(ctx, c.q).to_bytes(c.size, 'big')
    return ctx.int(1, 5, 'dig.small').to_bytes(c.size, 'big')


def signed(ctx):
    pool = BufferPool(ctx)
    with Entropy(ctx):
        me = Party(ctx)
        c = me.c
        d = private(ctx, c)
        pub = ctx.call('public_key_generate', me.obj.public_key_generate, pool.wrap(d.to_bytes(c.size, 'big')))
        pool.settle()
        ctx.same('wrong-public-key', '%s d=%x' % (c.name, d), pub, c.public(d))
        pub = bytes(pub)
        dig = digest_for(ctx, c, pool)
        sig = ctx.call('sign', me.obj.sign, pool.wrap(d.to_bytes(c.size, 'big')), pool.wrap(dig))
        pool.settle()
        sig = bytes(sig)
        ctx.expect(c.verify(pub, dig, sig), 'invalid-signature', lambda: '%s: signature %s of digest %s by key %x' % (
            c.name, hx(sig, 128), hx(dig, 64), d))
        them = me
        if ctx.flag(30, 'other-party'):
            them = Party(ctx, c)
        if ctx.flag(60, 'intact'):
            them.verify(pool, pub, dig, sig, 'intact')
        r, s = int.from_bytes(sig[:c.size], 'big'), int.from_bytes(sig[c.size:], 'big')
        for _ in ctx.repeat(1, 4, 'delivery', 50):
            how = ctx.pick(tuple(range(12)), 'how')
            p2, d2, s2 = pub, dig, sig
            lim = 1 << (8 * c.size)
            if how in (0, 1, 2):
                tgt = bytearray((sig, dig, pub)[how])
                tgt[ctx.int(0, len(tgt) - 1, 'at')] ^= 1 << ctx.int(0, 7, 'bit')
                if how == 0:
                    s2 = bytes(tgt)
                elif how == 1:
                    d2 = bytes(tgt)
                else:
                    p2 = bytes(tgt)
                label = ('flip-signature', 'flip-digest', 'flip-key')[how]
            elif how == 3:
                label = 'swap-halves'
                s2 = sig[c.size:] + sig[:c.size]
            elif how == 4:
                label = 'negated-s'
                s2 = c.pack(r, c.q - s)
            elif how == 5:
                label = 'zero-part'
                s2 = c.pack(0, s) if ctx.flag(50, 'r0') else c.pack(r, 0)
            elif how == 6:
                label = 'part-plus-q'
                a, b = (r + c.q, s) if ctx.flag(50, 'r+q') else (r, s + c.q)
                s2 = c.pack(a % lim, b % lim)
            elif how == 7:
                label = 'part-is-q'
                s2 = c.pack(c.q % lim, s) if ctx.flag(50, 'r=q') else c.pack(r, c.q % lim)
            elif how == 8:
                label = 'wrong-key'
                p2 = c.public((d + ctx.int(1, 5, 'dd')) % c.q or 1)
            elif how == 9:
                label = 'negated-key'
                y = int.from_bytes(pub[c.size:], 'big')
                p2 = pub[:c.size] + (c.p - y).to_bytes(c.size, 'big')
            elif how == 10:
                label = 'digest-shift-by-q'
                e = (int.from_bytes(dig, 'big') + c.q)
                d2 = (e % lim).to_bytes(c.size, 'big')       # same residue when it fits: accepted
            else:
                label = 'all-ones'
                s2 = b'\xff' * (2 * c.size)
            ctx.fault('net.' + label)
            them.verify(pool, p2, d2, s2, label)


def deep(ctx):
    """The largest curves, values that take long to invert, an application that is already deep in calls."""
    pool = BufferPool(ctx)
    me = Party(ctx, ec.CURVES[ctx.pick(LARGE, 'curve')])
    c = me.c
    d = private(ctx, c)
    dig = golden(ctx, c.q).to_bytes(c.size, 'big')
    r, s = c.sign_with(d, dig, int.from_bytes(ctx.key(c.size, 'z'), 'big') % c.q or 5)
    pub = c.public(d)
    me.verify(pool, pub, dig, c.pack(r, s), 'edge-digest')
    bad = pub[:c.size] + (golden(ctx, c.p) * pow(2, -1, c.p) % c.p).to_bytes(c.size, 'big')
    me.verify(pool, bad, dig, c.pack(r, s), 'degenerate-key')


def special(ctx):
    """Signatures and keys with special algebraic structure, crafted from the private key."""
    pool = BufferPool(ctx)
    me = Party(ctx, ec.CURVES[ctx.pick(SMALL, 'curve')])
    c = me.c
    for _ in ctx.repeat(1, 3, 'case', 50):
        how = ctx.pick(tuple(range(10)), 'case.how', (3, 3, 3, 3, 3, 3, 3, 4, 4, 5))
        d = private(ctx, c)
        z = int.from_bytes(ctx.key(c.size, 'z'), 'big') % c.q or 5
        n = c.size
        if how == 0:
            # the sum of the two points is the point at infinity: never acceptable
            q = c.mul(z * d % c.q)
            r = (-2 * q[0]) % c.p % c.q
            if r == 0:
                continue
            e = r * pow(z, -1, c.q) % c.q
            label, pub, dig, sig = 'infinity', c.public(d), e.to_bytes(n, 'big'), c.pack(r, r * d % c.q)
        elif how == 1:
            # the two points are equal: a genuine signature whose check needs a doubling
            r = c.mul(2 * z % c.q)[0] % c.q
            e = -r * d * pow(z, -1, c.q) % c.q
            if r == 0 or e == 0:
                continue
            label, pub, dig, sig = 'doubling', c.public(d), e.to_bytes(n, 'big'), c.pack(r, -r * d % c.q)
        elif how == 2:
            # a key whose point has x = 0, where the curve has one
            c0 = ec.CURVES['id-tc26-gost-3410-2012-256-paramSetD']
            if me.c is not c0:
                me = Party(ctx, c0)
                c = me.c
            d = ctx.pick((1, c.q - 1), 'x0')
            dig = ctx.key(n, 'dig')
            k = z if z > 1 else 2
            r, s = c.sign_with(d, dig, k)
            label, pub, sig = 'zero-x-key', c.public(d), c.pack(r, s)
            if ctx.flag(50, 'forge'):
                label = 'zero-x-key-wrong-digest'
                dig = bytes([dig[0] ^ 1]) + dig[1:]
        elif how == 3:
            # signed for the base point, claimed for a key that is not a point
            dig = ctx.key(n, 'dig')
            r, s = c.sign_with(1, dig, z if z > 1 else 2)
            label, sig = 'degenerate-key', c.pack(r, s)
            pub = ctx.pick((bytes(2 * n), b'\xff' * 2 * n, bytes(n) + c.public(2)[n:], c.public(2)[:n] + bytes(n),
                            bytes(n) + c.public(1)[n:], None), 'badkey')
            if pub is None:
                pub = c.public(2)[:n] + (golden(ctx, c.p) * pow(2, -1, c.p) % c.p).to_bytes(n, 'big')
        elif how == 4:
            # nonce at the ends of its range
            k = ctx.pick((1, 2, 3, c.q - 1, c.q - 2, None), 'k.edge', (1, 1, 1, 1, 1, 4)) or ec.shaped(ctx, c.q, 'k')
            dig = ctx.key(n, 'dig')
            r, s = c.sign_with(d, dig, k)
            if r == 0 or s == 0:
                continue
            label, pub, sig = 'edge-nonce', c.public(d), c.pack(r, s)
        elif how == 5:
            # digest at the ends of its range
            e = ctx.pick((1, 2, c.q - 1, c.q - 2, 0, None), 'e.edge')
            if e is None:
                e = golden(ctx, c.q)
            dig = e.to_bytes(n, 'big')
            r, s = c.sign_with(d, dig, z if z > 1 else 2)
            if r == 0 or s == 0:
                continue
            label, pub, sig = 'edge-digest', c.public(d), c.pack(r, s)
        elif how == 7:
            # the point of the nonce has x at an end of its range, perhaps not below q
            me = Party(ctx, ec.edge_curve(ctx, SMALL), 'canonical')
            c = me.c
            # or the public key does
            d = ctx.pick(c.edge, 'd.edge') if ctx.flag(35, 'key.edge') else private(ctx, c)
            dig = ctx.key(n, 'dig')
            r, s = c.sign_with(d, dig, ctx.pick(c.edge, 'k.edge') if ctx.flag(70, 'point.edge') else z)
            if r == 0:
                continue
            if s == 0:
                continue
            label, pub = 'edge-point', c.public(d)
            if ctx.flag(40, 'unreduced') and c.pt[0] >= c.q:
                label, r = 'edge-point-unreduced', c.pt[0]
            sig = c.pack(r, s)
        elif how == 8:
            # s (or both parts) takes a value that stands out
            k = z if z > 1 else 2
            r = c.mul(k)[0] % c.q
            if r == 0:
                continue
            s = ctx.pick((r, 1, 2, c.q - 1, c.q - r, 1 << 8 * (n - 1), (1 << 128) - 1, r >> 8 or 1, 0), 's.edge',
                         (3, 1, 1, 2, 2, 1, 1, 1, 6)) % c.q or ec.shaped(ctx, c.q, 's')
            e = (s - r * d) * pow(k, -1, c.q) % c.q
            if e == 0 or s == 0:
                continue
            label, pub, dig, sig = 'edge-s', c.public(d), e.to_bytes(n, 'big'), c.pack(r, s)
        else:
            # multipliers of the check at the ends of their range
            z1 = ctx.pick((1, 2, 3, c.q - 1, c.q - 2), 'z1')
            z2 = ctx.pick((1, 2, 3, c.q - 1, c.q - 2), 'z2')
            if how == 9:                 # or of a special shape
                if ctx.flag(70, 'z1.shaped'):
                    z1 = ec.shaped(ctx, c.q, 'z1s')
                if z1 < 4 or ctx.flag(70, 'z2.shaped'):
                    z2 = ec.shaped(ctx, c.q, 'z2s')
            pt = c.mul((z1 + z2 * d) % c.q) if (z1 + z2 * d) % c.q else None
            if pt is None or pt[0] % c.q == 0:
                continue
            r = pt[0] % c.q
            e = -r * pow(z2, -1, c.q) % c.q
            s = z1 * e % c.q
            label, pub, dig, sig = 'edge-multiplier', c.public(d), e.to_bytes(n, 'big'), c.pack(r, s)
        ctx.fault('crafted.' + label)
        me.verify(pool, pub, dig, sig, label)


def registry(ctx):
    """A service that verifies for many parties on many curves, with cheap signatures (small multipliers)."""
    pool = BufferPool(ctx)
    parties = []
    for _ in ctx.repeat(2, 4, 'party', 60):
        p = Party(ctx, ec.CURVES[ctx.pick(SMALL + LARGE, 'curve')])
        p.d = ctx.int(1, 3, 'd')
        parties.append(p)
    past = []
    full = 1
    for _ in ctx.repeat(4, 20, 'delivery', 90):
        p = ctx.pick(parties, 'to')
        c, n = p.c, p.c.size
        how = ctx.pick(('genuine', 'again', 'rotated', 'other-digest', 'other-curve', 'tampered'), 'how', (8, 3, 2, 2, 1, 3))
        if how == 'rotated':
            # the key of this party changes; what was signed before no longer counts
            p.d = ctx.int(1, 3, 'd.new')
        mine = [x for x in past if x[0] is c]
        if how in ('again', 'rotated', 'other-digest') and not mine:
            how = 'genuine'
        if how == 'other-curve' and (not full or not [x for x in past if x[0].size == n]):
            how = 'genuine'
        if how in ('genuine', 'tampered'):
            z1, z2 = ctx.int(1, 4, 'z1'), ctx.int(1, 4, 'z2')
            pt = c.mul((z1 + z2 * p.d) % c.q)
            r = pt[0] % c.q
            e = -r * pow(z2, -1, c.q) % c.q
            if not r or not e:
                continue
            past.append((c, c.public(p.d), e.to_bytes(n, 'big'), c.pack(r, z1 * e % c.q)))
            if how == 'tampered':
                # multipliers stay small
                z1 += ctx.int(1, 3, 'by')
                pub, dig, sig = past[-1][1], past[-1][2], c.pack(r, z1 * e % c.q)
            else:
                pub, dig, sig = past[-1][1:]
        else:
            _, pub, dig, sig = ctx.pick(mine if how != 'other-curve' else [x for x in past if x[0].size == n], 'which')
            if how == 'rotated':
                pub = c.public(p.d)
            elif how == 'other-digest':
                other = ctx.pick(mine, 'digest.of')
                f = ctx.int(1, 3, 'ratio')
                e = int.from_bytes(other[2], 'big')
                # the multipliers of the check are ratios to the digest: keep them small
                dig, sig = (f * e % c.q).to_bytes(n, 'big'), other[3]
                if f > 1:
                    z = int.from_bytes(other[3][n:], 'big')
                    sig = c.pack(int.from_bytes(other[3][:n], 'big') * f % c.q, z)
            else:
                full -= 1
        if how != 'genuine':
            ctx.fault('net.' + how)
        p.verify(pool, pub, dig, sig, how)
