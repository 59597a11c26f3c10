"""One actor per kind of object the library offers.

An actor owns the parameters of a real object and an executable reference for
it, and turns tape decisions into operations.  An operation is data: it can be
run on any real object built the same way (a twin, a clone, from any thread),
it knows the result the reference gives, and it knows its effect on the
reference state.  Scenarios decide when, where and under which faults the
operations run.
"""

from .. import world
from ..core import hx
from ..models import cipher, ec, streebog


class Op:
    __slots__ = ('name', 'run', 'want', 'effect', 'reads', 'check', 'size')

    def __init__(self, name, run, want=None, effect=None, check=None):
        self.name = name
        self.run = run            # (object, give) -> result
        self.want = want          # () -> expected result (bytes, str, None, bool)
        self.effect = effect      # () -> None: advance the reference
        self.reads = effect is None
        self.check = check        # (ctx, result, where) instead of want
        self.size = 0             # bytes processed, where it matters


def plain(data):
    return bytes(data)


def settle_op(ctx, actor, op, result, where=''):
    """Judge a result and advance the reference."""
    if op.check is not None:
        op.check(ctx, result, where)
    else:
        want = op.want()
        if isinstance(want, bytes):
            ctx.same('wrong-result', '%s %s %s' % (actor.label, op.name, where), result, want)
        else:
            ctx.expect(result == want and type(result) is type(want), 'wrong-result',
                       lambda: '%s %s %s: got %r, expected %r' % (
                           actor.label, op.name, where, result, want))
    if op.effect is not None:
        op.effect()


def do(ctx, actor, obj, op, give=plain, where=''):
    r = ctx.call('%s %s' % (actor.label, op.name), op.run, obj, give)
    settle_op(ctx, actor, op, r, where)
    return r


class Actor:
    label = '?'
    secret_names = ()
    cost = 1

    def new(self, g, give):
        raise NotImplementedError

    def gen(self, ctx):
        raise NotImplementedError

    def final(self, ctx):
        """An operation that reveals the object's whole state."""
        return self.gen(ctx)

    def reads(self, ctx):
        """A reading operation, or None."""
        return None


BULK = (256, 512, 1024, 2048, 4096)


def bulk_run(ctx, percent=4, most=4096):
    """In a few runs some pieces are long, of sizes at which an implementation might change its ways."""
    if not ctx.bulk and ctx.flag(percent, 'bulk.run'):
        ctx.bulk, ctx.bulk_max = 30, most


def bulky(ctx):
    """A run in which most pieces are long."""
    ctx.bulk, ctx.bulk_max = 60, 1024


def bulk_len(ctx, unit, whole=False):
    if not ctx.bulk or not ctx.flag(ctx.bulk, 'bulk'):
        return None
    ctx.probe('long piece')
    sizes = [n for n in BULK if n <= ctx.bulk_max]
    n = ctx.pick(sizes, 'bulk.n', (5, 5, 4, 2, 1)[:len(sizes)])
    if whole:
        return n + unit * ctx.pick((0, 1, -1), 'bulk.off', (2, 1, 1))
    return n + ctx.pick((0, 1, -1, unit, -unit, unit + 1), 'bulk.off', (4, 1, 1, 1, 1, 2))


def chunk_len(ctx, unit, label='n'):
    n = bulk_len(ctx, unit)
    if n is not None:
        return n
    k = ctx.pick((0, 1, 2), label + '.k', (4, 3, 2))
    if k == 0:
        return ctx.small(0, 3 * unit, label)
    if k == 1:
        return unit * ctx.int(0, 2, label + '.b')
    return max(0, unit * ctx.int(1, 3, label + '.b') + ctx.int(-1, 1, label + '.e'))


class HashActor(Actor):
    has_copy = True

    def __init__(self, ctx):
        self.bits = ctx.pick((256, 512), 'bits')
        self.name = 'streebog%d' % self.bits
        self.label = self.name
        self.data = b''
        self.ctor = None
        if ctx.flag(25, 'ctor-data'):
            self.ctor = ctx.data(chunk_len(ctx, 64), 'ctor')
            self.data = self.ctor

    def new(self, g, give):
        if self.ctor is None:
            return g.gosthash.new(self.name)
        return g.gosthash.new(self.name, data=give(self.ctor))

    def ref(self, data):
        return streebog.streebog(self.bits, data)

    def fork(self):
        """The reference of a clone."""
        other = object.__new__(type(self))
        other.__dict__.update(self.__dict__)
        return other

    def op_update(self, ctx, n=None):
        d = ctx.data(chunk_len(ctx, 64) if n is None else n, 'msg')

        def effect():
            self.data += d
        return Op('update(%d bytes)' % len(d), lambda o, give: o.update(give(d)),
                  want=lambda: None, effect=effect)

    def op_digest(self, ctx):
        if ctx.flag(30, 'hex'):
            return Op('hexdigest', lambda o, give: o.hexdigest(), want=lambda: self.ref(self.data).hex())
        return Op('digest', lambda o, give: o.digest(), want=lambda: self.ref(self.data))

    def op_copy(self, ctx):
        def check(ctx, r, where):
            ctx.same('wrong-result', '%s digest of a copy %s' % (self.label, where),
                     ctx.call('digest of a copy', r.digest), self.ref(self.data))
        return Op('copy', lambda o, give: o.copy(), check=check)

    def op_reset(self, ctx):
        def effect():
            self.data = b''
        return Op('reset', lambda o, give: o.reset(), want=lambda: None, effect=effect)

    def gen(self, ctx):
        k = ctx.pick((0, 1, 2, 3), 'op', (6, 4, 2, 1))
        if k == 0:
            return self.op_update(ctx)
        if k == 1:
            return self.op_digest(ctx)
        if k == 2:
            return self.op_copy(ctx)
        return self.op_reset(ctx)

    def final(self, ctx):
        return self.op_digest(ctx)

    def reads(self, ctx):
        return self.op_copy(ctx) if ctx.flag(30, 'read.copy') else self.op_digest(ctx)


class HmacActor(HashActor):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.name = 'HMAC_GOSTR3411_2012_%d' % self.bits
        n = ctx.pick((32, 64, -1), 'keylen.kind', (3, 3, 3))
        if n < 0:
            n = ctx.int(1, 64, 'keylen')
        self.key = ctx.key(n, 'key')
        self.label = '%s/%d' % (self.name, n)

    def new(self, g, give):
        if self.ctor is None:
            return g.gosthmac.new(self.name, give(self.key))
        return g.gosthmac.new(self.name, give(self.key), data=give(self.ctor))

    def ref(self, data):
        return streebog.hmac(self.bits, self.key, data)


class MacActor(Actor):
    has_copy = False

    def __init__(self, ctx):
        self.alg = ctx.pick(ctx.algs, 'alg', (3, 2))
        self.bs = 8 if self.alg == 'magma' else 16
        self.key = ctx.key(32, 'key')
        self.label = 'mac-' + self.alg
        self.data = b''
        self.ctor = None
        if ctx.flag(25, 'ctor-data'):
            self.ctor = ctx.data(chunk_len(ctx, self.bs), 'ctor')
            self.data = self.ctor

    def new(self, g, give):
        gc = g.gostcipher
        if self.ctor is None:
            return gc.new(self.alg, give(self.key), gc.MODE_MAC)
        return gc.new(self.alg, give(self.key), gc.MODE_MAC, data=give(self.ctor))

    def op_update(self, ctx, n=None):
        d = ctx.data(chunk_len(ctx, self.bs) if n is None else n, 'msg')

        def effect():
            self.data += d
        return Op('update(%d bytes)' % len(d), lambda o, give: o.update(give(d)),
                  want=lambda: None, effect=effect)

    def op_digest(self, ctx):
        size = self.bs if ctx.flag(60, 'full') else ctx.int(1, self.bs, 'size')
        if ctx.flag(30, 'hex'):
            return Op('hexdigest(%d)' % size, lambda o, give: o.hexdigest(size),
                      want=lambda: cipher.mac(self.alg, self.key, self.data)[:size].hex())
        return Op('digest(%d)' % size, lambda o, give: o.digest(size),
                  want=lambda: cipher.mac(self.alg, self.key, self.data)[:size])

    def gen(self, ctx):
        if ctx.flag(60, 'op'):
            return self.op_update(ctx)
        return self.op_digest(ctx)

    def final(self, ctx):
        return self.op_digest(ctx)

    def reads(self, ctx):
        return self.op_digest(ctx)


MODES = ('ecb', 'cbc', 'cfb', 'ofb', 'ctr')


class CipherActor(Actor):
    """One session in one direction (ECB and CTR: both directions)."""

    def __init__(self, ctx, mode=None):
        self.alg = ctx.pick(ctx.algs, 'alg', (3, 2))
        self.bs = bs = 8 if self.alg == 'magma' else 16
        self.mode = mode or ctx.pick(MODES, 'mode')
        self.key = ctx.key(32, 'key')
        self.pad_mode = 1
        self.iv = None
        self.default_iv = False
        if self.mode in ('ecb', 'cbc'):
            self.pad_mode = ctx.pick((1, 2), 'pad')
        if self.mode != 'ecb':
            self.default_iv = ctx.flag(15, 'iv.default')
            if self.default_iv:
                self.iv = cipher.DEFAULT_IV[(self.alg, self.mode)]
            elif self.mode == 'ctr':
                self.iv = ctx.data(bs // 2, 'iv')
            else:
                self.iv = ctx.data(bs * (ctx.pick((1, 2, 16, 33), 'iv.blocks') if ctx.bulk else
                                         ctx.pick((1, 2, 3, 5), 'iv.blocks', (4, 4, 3, 1))), 'iv')
        self.decrypting = ctx.flag(40, 'decrypting')
        self.label = '%s-%s' % (self.mode, self.alg)
        self.ref = cipher.Session(self.alg, self.mode, self.key, self.iv, self.pad_mode)
        self.finished = False

    def new(self, g, give):
        gc = g.gostcipher
        kw = {}
        if self.mode in ('ecb', 'cbc') and self.pad_mode == 2:
            kw['pad_mode'] = gc.PAD_MODE_2
        if self.mode != 'ecb' and not self.default_iv:
            kw['init_vect'] = give(self.iv)
        mode = {'ecb': gc.MODE_ECB, 'cbc': gc.MODE_CBC, 'cfb': gc.MODE_CFB,
                'ofb': gc.MODE_OFB, 'ctr': gc.MODE_CTR}[self.mode]
        return gc.new(self.alg, give(self.key), mode, **kw)

    def op_crypt(self, ctx, aligned=None, n=None):
        dec = self.decrypting
        if self.mode in ('ecb', 'ctr') and ctx.flag(30, 'other-way'):
            dec = not dec
        if n is None:
            n = bulk_len(ctx, self.bs, self.mode in ('cfb', 'ofb') or (dec and self.mode != 'ctr'))
        if n is None:
            n = self.bs * ctx.small(1 if self.mode in ('ecb', 'cbc') else 0, 4, 'blocks')
            if self.mode == 'ctr':
                n = self.bs * ctx.small(0, 3, 'blocks.whole') if ctx.flag(30, 'whole') else ctx.small(0, 4 * self.bs, 'len')
            elif self.mode == 'cbc' and not dec and ctx.flag(30, 'short'):
                n += ctx.int(1, self.bs - 1, 'short.n')
            elif self.mode == 'ecb' and not dec and ctx.flag(30, 'short'):
                n += ctx.int(1, self.bs - 1, 'short.n')
        d = ctx.data(n, 'text')
        box = {}

        def want():
            import copy
            s = copy.copy(self.ref)
            box['next'] = s
            return s.crypt(dec, d)

        def effect():
            self.ref = box['next']
        run = (lambda o, give: o.decrypt(give(d))) if dec else (lambda o, give: o.encrypt(give(d)))
        op = Op('%s(%d bytes)' % ('decrypt' if dec else 'encrypt', n), run, want, effect)
        op.size = n
        if self.mode == 'ecb':
            op.reads = True
        return op

    def op_attr(self, ctx):
        if self.mode == 'ctr':
            return Op('counter', lambda o, give: o.counter, want=lambda: self.ref.counter_at(0))
        if self.mode == 'ecb':
            return Op('block_size', lambda o, give: o.block_size, want=lambda: self.bs)
        return Op('iv', lambda o, give: o.iv, want=lambda: self.ref.iv())

    def gen(self, ctx):
        if ctx.flag(80, 'op'):
            return self.op_crypt(ctx)
        return self.op_attr(ctx)

    def final(self, ctx):
        # long enough to reveal every block of the feedback register
        if self.mode in ('cbc', 'cfb', 'ofb'):
            return self.op_crypt(ctx, n=len(self.iv) + self.bs)
        return self.op_crypt(ctx, n=2 * self.bs)

    def reads(self, ctx):
        if self.mode == 'ecb':
            return self.op_crypt(ctx)
        return self.op_attr(ctx)


def refused(o, give):
    try:
        return o.random()
    except Exception as e:      # noqa: judged by its class
        if type(e).__name__ == 'GOSTRandomError':
            return 'refused'
        raise


class PrngActor(Actor):
    def __init__(self, ctx, size_s=None):
        self.size_s = size_s or (ctx.pick((48, 40, 32, 63), 'size_s', (3, 3, 3, 4)) if ctx.spent_generators
                                 else ctx.pick((48, 40, 32), 'size_s'))
        self.seed = self.draw_seed(ctx)
        self.size = ctx.pick((64, 256, 1, 300, 1024, 1000), 'rand_size') if ctx.bulk else \
            ctx.pick((64, 32, 1, 65, 128, 100), 'rand_size')
        self.index = 1
        self.label = 'prng/%d/%d' % (self.size_s, self.size)

    def draw_seed(self, ctx):
        s = ctx.key(self.size_s, 'seed')
        return s if any(s) else s[:-1] + b'\x01'

    def new(self, g, give):
        return g.gostrandom.new(self.size, rand_k=give(self.seed), size_s=self.size_s)

    def op_random(self, ctx):
        if self.size_s == 63:        # nothing left to count with: refused from the first call on
            return Op('random', refused, want=lambda: 'refused')
        box = {}

        def want():
            out, box['next'] = streebog.prng_output(self.seed, self.index, self.size)
            return out

        def effect():
            self.index = box['next']
        return Op('random', lambda o, give: o.random(), want, effect)

    def op_reset(self, ctx):
        s = self.draw_seed(ctx)

        def effect():
            self.seed = s
            self.index = 1
        return Op('reset', lambda o, give: o.reset(give(s)), want=lambda: None, effect=effect)

    def gen(self, ctx):
        if ctx.flag(80, 'op'):
            return self.op_random(ctx)
        return self.op_reset(ctx)

    def final(self, ctx):
        return self.op_random(ctx)


class PbkdfActor(Actor):
    def __init__(self, ctx):
        self.password = ctx.key(ctx.pick((8, 64, 1, 20), 'pw.len'), 'pw')
        self.salt = ctx.data(ctx.pick((8, 32, 1, 64, 100), 'salt.len'), 'salt') or b's'
        self.count = ctx.pick((1, 2, 3), 'count')
        self.label = 'pbkdf/%d/%d/%d' % (len(self.password), len(self.salt), self.count)
        self._memo = b''

    def ref(self, n):
        if len(self._memo) < n:
            self._memo = streebog.pbkdf2(self.password, self.salt, self.count, n)
        return self._memo[:n]

    def new(self, g, give):
        return g.gostpbkdf.new(give(self.password), salt=give(self.salt), counter=self.count)

    def op_derive(self, ctx):
        n = ctx.pick((32, 64, 256, 300, 1024), 'dk') if ctx.bulk else ctx.pick((32, 64, 1, 65, 128), 'dk')
        if ctx.flag(30, 'hex'):
            return Op('hexderive(%d)' % n, lambda o, give: o.hexderive(n), want=lambda: self.ref(n).hex())
        return Op('derive(%d)' % n, lambda o, give: o.derive(n), want=lambda: self.ref(n))

    def op_salt(self, ctx):
        return Op('salt', lambda o, give: o.salt, want=lambda: self.salt)

    def gen(self, ctx):
        return self.op_derive(ctx) if ctx.flag(75, 'op') else self.op_salt(ctx)

    def final(self, ctx):
        return self.op_derive(ctx)


class SignActor(Actor):
    cost = 8

    def __init__(self, ctx, curves=None, light=95):
        # light: small scalars throughout (all of them valid ones), so that a call is short enough to be
        # followed point by point; the arithmetic is the same
        self.light = curves is None and ctx.flag(light, 'light')
        names = curves or [n for n, c in sorted(ec.CURVES.items()) if c.size == 32 or self.light]
        self.curve = ec.CURVES[ctx.pick(names, 'curve')]
        if self.light:
            world.small_entropy()
        self.form = ctx.pick(('shipped', 'canonical', 'edwards'), 'form', (4, 2, 2))
        self.d = self.scalar(ctx, 'd')
        self.label = 'sign/' + self.curve.name
        self._pub = None
        self.last = None

    def scalar(self, ctx, label):
        if self.light:
            low = 1 if label == 'd' else 2
            return ctx.int(low, 4 if ctx.alike else 200, label)
        v = int.from_bytes(ctx.key(self.curve.size, label), 'big') % self.curve.q
        # 1 as a nonce is unusable on a curve whose base point has x = 0
        return v or (1 if label == 'd' else 2)

    def params(self, gs):
        shipped = gs.CURVES_R_1323565_1_024_2019.get(self.curve.name, {})    # a simulated run may bring its own
        if self.form == 'shipped':
            return shipped
        if self.form == 'edwards' and shipped.get('u'):
            return {name: shipped[name] for name in ('p', 'e', 'd', 'm', 'q', 'u', 'v')}
        c = self.curve
        return dict(p=c.p, a=c.a, b=c.b, m=c.q * c.cofactor, q=c.q, x=c.g[0], y=c.g[1])

    def new(self, g, give):
        gs = g.gostsignature
        params = self.params(gs)
        return gs.new(gs.MODE_256 if self.curve.size == 32 else gs.MODE_512, params)

    def public(self):
        if self._pub is None:
            self._pub = self.curve.public(self.d)
        return self._pub

    def private(self):
        return self.d.to_bytes(self.curve.size, 'big')

    def digest(self, ctx):
        n = self.curve.size
        if ctx.flag(15, 'digest.zero'):
            return bytes(n)
        return ctx.key(n, 'digest')

    def op_sign(self, ctx):
        k = self.scalar(ctx, 'k')
        dig = self.digest(ctx)
        n = self.curve.size

        def want():
            r, s = self.curve.sign_with(self.d, dig, k)
            out = self.curve.pack(r, s)
            self.last = (dig, out)
            return out
        return Op('sign', lambda o, give: o.sign(give(self.private()), give(dig), give(k.to_bytes(n, 'big'))), want)

    def op_sign_random(self, ctx):
        dig = self.digest(ctx)

        def check(ctx, r, where):
            ctx.expect(isinstance(r, (bytes, bytearray)) and len(r) == 2 * self.curve.size,
                       'wrong-result', 'signature has a wrong form')
            ctx.expect(self.curve.verify(self.public(), dig, bytes(r)), 'wrong-result',
                       lambda: '%s: signature %s is not valid' % (self.label, hx(r)))
            self.last = (dig, bytes(r))
        return Op('sign (own random value)', lambda o, give: o.sign(give(self.private()), give(dig)), check=check)

    def crafted(self, ctx):
        """A digest and signature whose verification multiplies by small numbers only."""
        c = self.curve
        z1, z2 = ctx.int(1, 200, 'z1'), ctx.int(1, 200, 'z2')
        pub = self.public()
        pt = c.mul((z1 + z2 * self.d) % c.q)
        r = 0 if pt is None else pt[0] % c.q
        e = -r * pow(z2, -1, c.q) % c.q
        if not r or not e:
            return None
        if ctx.flag(50, 'tamper'):
            z1 += ctx.int(1, 5, 'tamper.by')
        dig, sig = e.to_bytes(c.size, 'big'), c.pack(r, z1 * e % c.q)
        return Op('verify', lambda o, give: o.verify(give(pub), give(dig), give(sig)),
                  want=lambda: c.verify(pub, dig, sig))

    def op_verify(self, ctx):
        op = self.crafted(ctx) if self.light else None
        if op is not None:
            return op
        if self.last is None:
            dig = self.digest(ctx)
            r, s = self.curve.sign_with(self.d, dig, self.scalar(ctx, 'k'))
            self.last = (dig, self.curve.pack(r, s))
        dig, sig = self.last
        if ctx.flag(50, 'tamper'):
            i = ctx.int(0, 2 * self.curve.size - 1, 'tamper.at')
            b = bytearray(sig)
            b[i] ^= 1 << ctx.int(0, 7, 'tamper.bit')
            sig = bytes(b)
        return Op('verify', lambda o, give: o.verify(give(self.public()), give(dig), give(sig)),
                  want=lambda: self.curve.verify(self.public(), dig, sig))

    def op_public(self, ctx):
        return Op('public_key_generate', lambda o, give: o.public_key_generate(give(self.private())),
                  want=self.public)

    def gen(self, ctx):
        k = ctx.pick((0, 1, 2, 3), 'op')
        return (self.op_sign, self.op_sign_random, self.op_verify, self.op_public)[k](ctx)

    def reads(self, ctx):
        return self.gen(ctx)


KINDS = {'hash': HashActor, 'hmac': HmacActor, 'mac': MacActor, 'cipher': CipherActor,
         'prng': PrngActor, 'pbkdf': PbkdfActor, 'sign': SignActor}


def actor(ctx, kinds=('hash', 'hmac', 'mac', 'cipher', 'prng', 'pbkdf', 'sign'),
          weights=(4, 4, 4, 8, 3, 1, 1)):
    kind = ctx.pick(kinds, 'kind', weights[:len(kinds)])
    a = KINDS[kind](ctx)
    a.kind = kind
    return a
