"""Calls the documentation says are refused, per kind of object.

Each is data: what to call, the documented message, and whether the object is
expected to drop its key (ciphers and MACs refusing their data do).
"""

from ..core import hx


class Bad:
    __slots__ = ('name', 'run', 'text', 'drops', 'builds')

    def __init__(self, name, run, text, drops=False, builds=False):
        self.name = name
        self.run = run            # (gost, object, give)
        self.text = text
        self.drops = drops
        self.builds = builds      # a constructor call: no object is involved


def wrong_type(ctx):
    """Something that is not a byte object."""
    return ctx.pick(('text', '', None, 17, 0, [1, 2, 3], (1,), {'a': 1}, 1.5, memoryview(b'12345678'), object), 'wrong')


def wrong_size(ctx, n, label='size'):
    """A byte object whose size is not n (never empty)."""
    k = ctx.pick((n + 1, n - 1, 2 * n, 1, n + 16, n // 2, n + 64, 200), label)
    if k == n or k <= 0:
        k = n + 1
    return ctx.data(k, label + '.data')


def wrong(ctx, n, empty=True):
    """Wrong type, wrong size or (if that is an error) empty."""
    how = ctx.pick((0, 1, 2), 'wrong.how', (4, 4, 1))
    if how == 0:
        return wrong_type(ctx)
    if how == 2 and empty:
        return b''
    return wrong_size(ctx, n)


def hold(give, v):
    return give(v) if isinstance(v, bytes) else v


def kind_of(v):
    return '%d bytes' % len(v) if isinstance(v, bytes) else type(v).__name__


def hash_bad(ctx, a):
    k = ctx.pick((0, 1, 2), 'bad', (4, 1, 1))
    if k == 0:
        v = wrong_type(ctx)
        return Bad('update(%s)' % kind_of(v), lambda g, o, give: o.update(v), 'invalid data value')
    if k == 1:
        n = ctx.pick(('streebog', 'STREEBOG256', 256, None, '', 'streebog512 '), 'name')
        return Bad('new(%r)' % (n,), lambda g, o, give: g.gosthash.new(n), 'unsupported hash type', builds=True)
    v = wrong_type(ctx)
    return Bad('new(data=%s)' % kind_of(v), lambda g, o, give: g.gosthash.new(a.name, data=v), 'invalid data value',
               builds=True)


def hmac_bad(ctx, a):
    k = ctx.pick((0, 1, 2, 3), 'bad', (4, 1, 2, 1))
    if k == 0:
        v = wrong_type(ctx)
        return Bad('update(%s)' % kind_of(v), lambda g, o, give: o.update(v), 'invalid data value')
    if k == 1:
        n = ctx.pick(('HMAC', 'hmac_gostr3411_2012_256', 256, None, '', 'streebog256'), 'name')
        return Bad('new(%r)' % (n,), lambda g, o, give: g.gosthmac.new(n, give(a.key)), 'unsupported mode', builds=True)
    if k == 2:
        v = ctx.data(ctx.pick((65, 66, 128, 200), 'long'), 'key') if ctx.flag(50, 'toolong') else wrong_type(ctx)
        return Bad('new(key=%s)' % kind_of(v), lambda g, o, give: g.gosthmac.new(a.name, hold(give, v)),
                   'invalid key value', builds=True)
    v = wrong_type(ctx)
    return Bad('new(data=%s)' % kind_of(v), lambda g, o, give: g.gosthmac.new(a.name, give(a.key), data=v),
               'invalid data value', builds=True)


def new_cipher_bad(ctx, a, mode):
    """A refused construction of a cipher or MAC object."""
    gc = ctx.gost.gostcipher
    modes = {'ecb': gc.MODE_ECB, 'cbc': gc.MODE_CBC, 'cfb': gc.MODE_CFB, 'ofb': gc.MODE_OFB, 'ctr': gc.MODE_CTR,
             'mac': gc.MODE_MAC}
    choices = ['mode', 'algorithm', 'key']
    if mode in ('ecb', 'cbc'):
        choices.append('pad')
    if mode in ('cbc', 'cfb', 'ofb', 'ctr'):
        choices.append('iv')
    if mode == 'mac':
        choices.append('data')
    what = ctx.pick(choices, 'new.bad')
    number = modes[mode]
    if what == 'mode':
        m = ctx.pick((0, 99, None, 'ecb', -1), 'm')
        return Bad('new(mode=%r)' % (m,), lambda g, o, give: g.gostcipher.new(a.alg, give(a.key), m),
                   'unsupported cipher mode', builds=True)
    if what == 'algorithm':
        n = ctx.pick(('aes', 'Magma', None, '', 1), 'n')
        return Bad('new(%r)' % (n,), lambda g, o, give: g.gostcipher.new(n, give(a.key), number),
                   'unsupported cipher algorithm', builds=True)
    if what == 'key':
        v = wrong(ctx, 32)
        return Bad('new(key=%s)' % kind_of(v), lambda g, o, give: g.gostcipher.new(a.alg, hold(give, v), number),
                   'invalid key value', builds=True)
    if what == 'pad':
        p = ctx.pick((0, 3, None, 'x', 99), 'p')
        return Bad('new(pad_mode=%r)' % (p,), lambda g, o, give: g.gostcipher.new(a.alg, give(a.key), number, pad_mode=p),
                   'invalid padding mode', builds=True)
    if what == 'iv':
        if mode == 'ctr':
            v = wrong(ctx, a.bs // 2)
        else:
            v = wrong(ctx, a.bs)
            if isinstance(v, bytes) and v and len(v) % a.bs == 0:
                v = v + b'\x01'
        return Bad('new(init_vect=%s)' % kind_of(v), lambda g, o, give: g.gostcipher.new(
            a.alg, give(a.key), number, init_vect=hold(give, v)), 'invalid initialization vector value', builds=True)
    v = wrong_type(ctx)
    return Bad('new(data=%s)' % kind_of(v), lambda g, o, give: g.gostcipher.new(a.alg, give(a.key), number, data=v),
               'invalid text data', builds=True)


def dropping_call(ctx, a):
    """Data of a wrong type, over which a cipher or MAC drops its key."""
    v = wrong_type(ctx)
    if a.kind == 'mac':
        return Bad('update(%s)' % kind_of(v), lambda g, o, give: o.update(v), 'invalid text data', drops=True)
    if ctx.flag(50, 'dec'):
        return Bad('decrypt(%s)' % kind_of(v), lambda g, o, give: o.decrypt(v), 'invalid ciphertext data', drops=True)
    return Bad('encrypt(%s)' % kind_of(v), lambda g, o, give: o.encrypt(v), 'invalid plaintext data', drops=True)


def mac_bad(ctx, a):
    k = ctx.pick((0, 1, 2), 'bad', (3, 3, 2))
    if k == 0:
        return dropping_call(ctx, a)
    if k == 1:
        n = a.bs + ctx.pick((1, 2, 8, 1000), 'over')
        hexed = ctx.flag(50, 'hexed')
        return Bad('digest(%d)' % n, lambda g, o, give: (o.hexdigest if hexed else o.digest)(n),
                   'invalid message authentication code size')
    return new_cipher_bad(ctx, a, 'mac')


def cipher_bad(ctx, a):
    if ctx.flag(60, 'bad'):
        return dropping_call(ctx, a)
    return new_cipher_bad(ctx, a, a.mode)


def prng_bad(ctx, a):
    v = wrong(ctx, a.size_s, empty=False)
    if ctx.flag(60, 'bad'):
        return Bad('reset(%s)' % kind_of(v), lambda g, o, give: o.reset(hold(give, v)), 'invalid seed value')
    return Bad('new(rand_k=%s)' % kind_of(v), lambda g, o, give: g.gostrandom.new(
        a.size, rand_k=hold(give, v), size_s=a.size_s), 'invalid seed value', builds=True)


def pbkdf_bad(ctx, a):
    k = ctx.pick((0, 1, 2), 'bad', (3, 2, 2))
    if k == 0:
        n = (2 ** 32 - 1) * 64 + ctx.pick((1, 2, 1000, 2 ** 40), 'over')
        hexed = ctx.flag(50, 'hexed')
        return Bad('derive(%d)' % n, lambda g, o, give: (o.hexderive if hexed else o.derive)(n),
                   'invalid size of the derived key')
    if k == 1:
        v = ctx.data(ctx.pick((65, 66, 200), 'long'), 'pw') if ctx.flag(40, 'toolong') else wrong_type(ctx)
        return Bad('new(password=%s)' % kind_of(v), lambda g, o, give: g.gostpbkdf.new(
            hold(give, v), salt=give(a.salt), counter=1), 'invalid password value', builds=True)
    v = wrong_type(ctx)
    return Bad('new(salt=%s)' % kind_of(v), lambda g, o, give: g.gostpbkdf.new(
        give(a.password), salt=v, counter=1), 'invalid salt value', builds=True)


def sign_bad(ctx, a):
    n = a.curve.size
    k = ctx.pick(('sign.key', 'sign.digest', 'sign.k', 'verify.key', 'verify.digest', 'verify.sig', 'pub', 'mode',
                  'curve'), 'bad', (3, 3, 3, 3, 3, 3, 3, 1, 1))
    dig = ctx.key(n, 'digest')
    nonce = (12345).to_bytes(n, 'big')
    fake = ctx.key(2 * n, 'fake')
    with_k = ctx.flag(50, 'with-k')
    if k == 'sign.key':
        v = wrong(ctx, n)
        return Bad('sign(key=%s)' % kind_of(v), lambda g, o, give: (
            o.sign(hold(give, v), give(dig), give(nonce)) if with_k else o.sign(hold(give, v), give(dig))),
            'invalid private key value')
    if k == 'sign.digest':
        v = wrong(ctx, n)
        return Bad('sign(digest=%s)' % kind_of(v), lambda g, o, give: (
            o.sign(give(a.private()), hold(give, v), give(nonce)) if with_k else o.sign(give(a.private()), hold(give, v))),
            'invalid digest value')
    if k == 'sign.k':
        v = ctx.pick((bytes(n), a.curve.q.to_bytes(n, 'big'), b'\xff' * n, 'text', None, 17, [1], 'zero s', 'zero r'), 'k',
                     (1, 1, 1, 1, 1, 1, 1, 3, 3))
        if v == 'zero s':
            # a random value that gives s = 0 for this digest
            c = a.curve
            num = ctx.int(2, 200, 'k.small')
            e = -c.mul(num)[0] % c.q * a.d * pow(num, -1, c.q) % c.q
            if e:
                dig, v = e.to_bytes(n, 'big'), num.to_bytes(n, 'big')
        elif v == 'zero r' and a.curve.g[0] % a.curve.q == 0:
            v = (1).to_bytes(n, 'big')       # the base point itself gives r = 0
        return Bad('sign(rand_k=%s)' % kind_of(v), lambda g, o, give: o.sign(give(a.private()), give(dig), hold(give, v)),
                   'invalid random value')
    if k == 'verify.key':
        v = wrong(ctx, 2 * n)
        return Bad('verify(key=%s)' % kind_of(v), lambda g, o, give: o.verify(hold(give, v), give(dig), give(fake)),
                   'invalid public key value')
    if k == 'verify.digest':
        v = wrong(ctx, n)
        return Bad('verify(digest=%s)' % kind_of(v), lambda g, o, give: o.verify(give(a.public()), hold(give, v), give(fake)),
                   'invalid digest value')
    if k == 'verify.sig':
        v = wrong(ctx, 2 * n)
        return Bad('verify(signature=%s)' % kind_of(v), lambda g, o, give: o.verify(give(a.public()), give(dig), hold(give, v)),
                   'invalid signature value')
    if k == 'pub':
        v = wrong(ctx, n) if ctx.flag(70, 'pub.wrong') else bytes(n)
        return Bad('public_key_generate(%s)' % kind_of(v), lambda g, o, give: o.public_key_generate(hold(give, v)),
                   'invalid private key')
    if k == 'mode':
        m = ctx.pick((0, 3, None, 'x', 256), 'm')
        return Bad('new(mode=%r)' % (m,), lambda g, o, give: g.gostsignature.new(
            m, g.gostsignature.CURVES_R_1323565_1_024_2019[a.curve.name]), 'unsupported signature mode', builds=True)

    how = ctx.pick(('x', 'm', 'q', 'empty'), 'curve')

    def build(g, o, give):
        gs = g.gostsignature
        c = a.curve
        params = dict(p=c.p, a=c.a, b=c.b, m=c.q * c.cofactor, q=c.q, x=c.g[0], y=c.g[1])
        if how == 'x':
            params['x'] += 1
        elif how == 'm':
            params['m'] = params['p']
        elif how == 'q':
            params['q'] = 7
        else:
            params = {}
        return gs.new(gs.MODE_256 if c.size == 32 else gs.MODE_512, params)
    return Bad('new(curve %s)' % how, build, 'invalid parameters of the elliptic curve', builds=True)


MAKERS = {'hash': hash_bad, 'hmac': hmac_bad, 'mac': mac_bad, 'cipher': cipher_bad, 'prng': prng_bad,
          'pbkdf': pbkdf_bad, 'sign': sign_bad}
CLASSES = {'hash': ('gosthash', 'GOSTHashError'), 'hmac': ('gosthmac', 'GOSTHMACError'),
           'mac': ('gostcipher', 'GOSTCipherError'), 'cipher': ('gostcipher', 'GOSTCipherError'),
           'prng': ('gostrandom', 'GOSTRandomError'), 'pbkdf': ('gostpbkdf', 'GOSTPBKDFError'),
           'sign': ('gostsignature', 'GOSTSignatureError')}


def bad_call(ctx, a):
    return MAKERS[a.kind](ctx, a)


def judge(ctx, a, bad, out, err):
    """The call must have been refused exactly as documented."""
    mod, name = CLASSES[a.kind]
    cls = getattr(getattr(ctx.gost, mod), name)
    if err is None:
        shown = hx(out) if isinstance(out, (bytes, bytearray)) else repr(out)
        ctx.expect(False, 'accepted', '%s: %s was accepted and gave %s' % (a.label, bad.name, shown))
    want = '%s: %s' % (name, bad.text)
    ctx.expect(type(err) is cls and str(err) == want, 'undocumented-error',
               lambda: '%s: %s raised %s: %s, expected %s' % (a.label, bad.name, type(err).__name__, err, want))
