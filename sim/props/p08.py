"""Signers fed by a hostile, failing or unlucky random source."""

import errno

from ..core import Injected, InjectedMemoryError, InjectedOSError, hx
from ..models import ec
from ..sched import step_budget
from ..world import BufferPool, Entropy
from .kit import SignActor

LEVEL = 'exploration'
SCENARIOS = [('source', 6), ('explicit', 3), ('keys', 2)]
SPECIAL = ['stubborn'] * 12 + ['many_signatures'] * 4
QUICK_RUNS = 2000
RULE = ('Each run: 1-2 signers on standard (or re-based) curves sign decided digests with edge-valued private keys '
        'while the simulated random source delivers decided values: zero, out of range, repeated, values leading to a '
        'zero r or a zero s, failures, then good ones; a nonce is recovered from every signature with the private key.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['operating-system random source', 'application I/O buffers', 'call-count clock']
ASSUMPTIONS = ['the reference curve arithmetic in sim/models agrees with the standard (validated on published vectors)',
               'a call that makes more than 4 million nested calls per random value drawn is a hang']
CALLS = 4000000

SMALL = [n for n, c in sorted(ec.CURVES.items()) if c.size == 32]
LARGE = [n for n, c in sorted(ec.CURVES.items()) if c.size == 64]
D = 'id-tc26-gost-3410-2012-256-paramSetD'


def make(ctx):
    big = ctx.flag(8, 'big')
    if big:
        a = SignActor(ctx, LARGE)
    elif ctx.flag(30, 'rebased'):
        a = SignActor(ctx, [D])
        if ctx.flag(50, 'edge'):
            a.curve = ec.edge_curve(ctx, SMALL)
        else:
            # r = 0 for a nonce anywhere in the range
            a.curve = ec.Rebased(ec.CURVES[D], ec.CURVES[D].g, ctx.int(2, 1 << 200, 'rebase'))
        a.form = 'canonical'
        a.label = 'sign/' + a.curve.name
    else:
        a = SignActor(ctx, SMALL)
    return a


def unlucky(c):
    """Nonces in range that give r = 0 on this curve."""
    if c.name == D:
        return [1, c.q - 1]
    if isinstance(c, ec.Rebased) and c.pt[0] % c.q == 0:
        return c.edge
    return []


def edges(c):
    return c.edge if isinstance(c, ec.Rebased) else [1, c.q - 1]


def usable(c, d, digest, k):
    if not 0 < k < c.q:
        return False
    r, s = c.sign_with(d, digest, k)
    return r != 0 and s != 0


def private(ctx, c):
    """(integer, bytes) of a private key, often an edge of the range."""
    top = 1 << (8 * c.size)
    edges = [1, 2, c.q - 1, c.q // 2, c.q + 1, c.q + 2, top - 1, 3 * c.q - 1, 2 * c.q + 1]
    edges = [e for e in edges if e < top] + (c.edge * 4 if isinstance(c, ec.Rebased) else [])
    if ctx.flag(40, 'd.edge'):
        v = ctx.pick(edges, 'd.which')
    elif ctx.flag(55, 'd.shaped'):
        v = ec.shaped(ctx, top, 'd')
    else:
        v = int.from_bytes(ctx.key(c.size, 'd'), 'big')
    if v % c.q == 0:
        v = 5
    return v


def digest_of(ctx, c):
    n = c.size
    how = ctx.pick((0, 1, 2, 3, 4, 5), 'dig', (6, 2, 2, 1, 1, 3))
    if how == 0:
        return ctx.key(n, 'dig.v')
    if how == 1:
        return bytes(n)
    if how == 2:
        return c.q.to_bytes(n, 'big')
    if how == 3:
        return b'\xff' * n
    if how == 5:
        return ec.shaped(ctx, 1 << (8 * n), 'dig.s').to_bytes(n, 'big')
    return (c.q - 1).to_bytes(n, 'big')


def crafted_s_zero(c, digest, k):
    """Given k and the key, no digest may be chosen freely; given k and digest, the key is: s = 0."""
    return crafted_s(c, digest, k, 0)


def crafted_s(c, digest, k, s):
    """The private key with which this digest and random value give s."""
    r = c.mul(k)[0] % c.q
    return (s - k * c.e_of(digest)) * pow(r, -1, c.q) % c.q if r else 0


def feed(ctx, src, c, d, zero_s):
    """Script the source; returns a description."""
    n = c.size
    top = 1 << (8 * n)
    names = []
    for _ in ctx.repeat(0, 6, 'draw', 60):
        kinds = ['zero', 'q', 'high', 'small', 'repeat', 'q-1', 'error', 'memory', 'shaped']
        weights = [4, 2, 3, 2, 2, 2, 1, 1, 4]
        if unlucky(c):
            kinds.append('zero-r')
            weights.append(8)
        if isinstance(c, ec.Rebased):
            kinds.append('edge')
            weights.append(8)
        if zero_s is not None:
            kinds.append(zero_s[0])
            weights.append(10)
        k = ctx.pick(kinds, 'draw.kind', weights)
        if k == 'zero':
            v = 0
        elif k == 'q':
            v = min(c.q * ctx.int(1, 3, 'times') + ctx.int(0, 2, 'plus'), top - 1)
        elif k == 'high':
            v = ctx.int(c.q, top - 1, 'high') if ctx.flag(50, 'high.any') else top - 1
        elif k == 'small':
            v = ctx.int(1, 3, 'small')
        elif k == 'shaped':
            v = ec.shaped(ctx, c.q, 'shaped')
        elif k == 'q-1':
            v = c.q - 1
        elif k == 'zero-r':
            v = ctx.pick(unlucky(c), 'zr')
        elif k == 'edge':
            v = ctx.pick(c.edge, 'edge.k')
        elif k in ('zero-s', 'shaped-s'):
            v = zero_s[1]
        elif k == 'repeat':
            v = next((int.from_bytes(x, 'big') for x in reversed(src.draws) if x), 7)
        else:
            exc = (InjectedOSError(errno.EIO, 'random source') if k == 'error' else InjectedMemoryError())

            def bad(size, exc=exc, k=k):
                ctx.fault('entropy.' + k)
                raise exc
            src.script.append(bad)
            names.append(k)
            continue

        def give(size, v=v, k=k):
            ctx.fault('entropy.' + k)
            b = v.to_bytes(n, 'big')
            return b[-size:] if size <= n else bytes(size - n) + b
        src.script.append(give)
        names.append(k)
    return names


def run(ctx, label, fn, calls):
    if calls:
        return step_budget(ctx, label, fn, calls)
    return ctx.attempt(label, fn)


def source(ctx):
    pool = BufferPool(ctx)
    signers = []
    with Entropy(ctx) as src:
        for _ in ctx.repeat(1, 2, 'signer', 25):
            a = make(ctx)
            signers.append((a, ctx.call('new', a.new, ctx.gost, pool.wrap)))
        for _ in ctx.repeat(1, 3, 'signature', 55):
            a, obj = ctx.pick(signers, 'who')
            c = a.curve
            dig = digest_of(ctx, c)
            zero_s = None
            if ctx.flag(25, 'craft'):
                k0 = ctx.int(1, 1 << 128, 'craft.k')
                shape = ec.shaped(ctx, c.q, 'craft.s') if ctx.flag(40, 'craft.shape') else 0
                d = crafted_s(c, dig, k0, shape)
                zero_s = ('shaped-s' if shape else 'zero-s', k0)
                if d == 0:
                    d, zero_s = 5, None
            else:
                d = private(ctx, c)
            src.script = []
            names = feed(ctx, src, c, d, zero_s)
            ctx.log('sign', a.label, names)
            first = len(src.draws)
            src.limit = first + len(names) + 64
            key = pool.wrap(d.to_bytes(c.size, 'big'))
            msg = pool.wrap(dig)
            watch = any(x in ('zero', 'zero-r', 'zero-s', 'q') for x in names)
            out, err = run(ctx, 'sign', lambda: obj.sign(key, msg), CALLS * (len(names) + 1) if watch else 0)
            pool.settle()
            drawn = src.draws[first:]
            left = len(src.script)
            src.script = []
            failed = None in drawn
            if err is not None:
                ctx.expect(failed, 'unexpected-exception', lambda: 'signing with %s from the source raised %s: %s' % (
                    names, type(err).__name__, err))
                ctx.log('refused', type(err).__name__)
                continue
            ctx.expect(not failed, 'signature-despite-failure',
                       'the random source failed during the call, but a signature was returned')
            ctx.expect(drawn, 'stale-nonce', 'a signature was made without drawing randomness in that call')
            check(ctx, a, obj, pool, d, dig, out, [int.from_bytes(x, 'big') for x in drawn], names)
            ctx.log('signed', hx(out, 8), left)


def check(ctx, a, obj, pool, d, dig, out, nonces, names):
    c = a.curve
    ctx.expect(isinstance(out, (bytes, bytearray)) and len(out) == 2 * c.size, 'wrong-result',
               lambda: 'signature is %r' % (out,))
    out = bytes(out)
    r, s = int.from_bytes(out[:c.size], 'big'), int.from_bytes(out[c.size:], 'big')
    ctx.expect(0 < r < c.q and 0 < s < c.q, 'degenerate-signature',
               lambda: 'signature (r=%x, s=%x) after draws %s' % (r, s, names))
    pub = c.public(d)
    ctx.expect(c.verify(pub, dig, out), 'invalid-signature',
               lambda: '%s: signature %s of digest %s under key %x is not valid' % (a.label, out.hex(), dig.hex(), d))
    k = c.nonce_of(d, dig, out)
    # s determines k only up to the sign of r's preimage; both give the same r
    ctx.expect(any(0 < x < c.q and x == k for x in nonces), 'foreign-nonce',
               lambda: 'the nonce %x is not one of the usable values drawn in this call (%s)' % (k, names))
    if ctx.flag(20, 'verify'):
        ok = ctx.call('verify', obj.verify, pool.wrap(pub), pool.wrap(dig), pool.wrap(out))
        pool.settle()
        ctx.expect(ok is True, 'own-signature-rejected', lambda: '%s rejects its own signature' % a.label)


def explicit(ctx):
    """Caller-supplied random values, good and forbidden, between ordinary signatures."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        a = make(ctx)
        c = a.curve
        n = c.size
        top = 1 << (8 * n)
        obj = ctx.call('new', a.new, ctx.gost, pool.wrap)
        for _ in ctx.repeat(1, 5, 'signature', 70):
            dig = digest_of(ctx, c)
            d = private(ctx, c)
            how = ctx.pick((0, 1, 2, 3, 4, 5, 6, 7, 8), 'k.how', (4, 3, 2, 2, 2, 4, 4, 3, 6))
            width = n + ctx.pick((0, 1, 2, n, -1), 'k.width', (16, 1, 1, 1, 1))
            if how == 0:
                k = int.from_bytes(ctx.key(n, 'k'), 'big') % c.q or 9
            elif how == 1:
                k = ctx.pick([1, 2, 3, c.q - 1, c.q - 2, c.q // 2] + edges(c), 'k.edge')
            elif how == 8:
                k = ec.shaped(ctx, c.q, 'k.shaped')
            elif how == 2:
                k = 0
            elif how == 3:
                k = min(c.q + ctx.int(0, 3, 'k.over'), top - 1)
            elif how == 4:
                k = top - 1
            elif how == 5:
                k = ctx.pick(unlucky(c), 'k.zr') if unlucky(c) else 0
            elif how == 6:
                k = ctx.int(1, 1 << 128, 'craft.k')
                d = crafted_s(c, dig, k, ec.shaped(ctx, c.q, 'craft.s') if ctx.flag(50, 'craft.shape') else 0) or d
            else:
                # too wide: out of range, whatever its last bytes are
                width = n + ctx.pick((1, 2, n), 'k.extra')
                k = ctx.pick((0, 1, 7, c.q // 3, c.q - 1, c.q + 1), 'k.low')
                k += ctx.pick((1, 255), 'k.high') << (8 * (width - 1))
            good = usable(c, d, dig, k)
            width = max(width, (k.bit_length() + 7) // 8)
            kb = k.to_bytes(width, 'big')
            ctx.log('sign', a.label, how, good, width - n)
            if not good:
                ctx.fault('forbidden-nonce.%d' % how)
            first = len(src.draws)
            src.limit = first
            out, err = run(ctx, 'sign with a given random value', lambda: obj.sign(
                pool.wrap(d.to_bytes(n, 'big')), pool.wrap(dig), pool.wrap(kb)), 0 if good else CALLS)
            pool.settle()
            if good and err is not None and width != n:
                documented(ctx, err, 'invalid random value')       # a value of another length may be refused
            elif good:
                ctx.expect(err is None, 'unexpected-exception', lambda: 'a usable random value was refused: %r' % (err,))
                ctx.same('wrong-signature', a.label, out, c.pack(*c.sign_with(d, dig, k)))
            else:
                ctx.expect(err is not None, 'forbidden-nonce-used',
                           lambda: 'the random value %x was used: signature %s' % (k, hx(out)))
                documented(ctx, err, 'invalid random value')
        src.limit = None


def documented(ctx, err, text):
    cls = ctx.gost.gostsignature.GOSTSignatureError
    ctx.expect(type(err) is cls and str(err) == 'GOSTSignatureError: ' + text, 'undocumented-error',
               lambda: 'expected %s, got %s: %s' % (text, type(err).__name__, err))


def keys(ctx):
    """Public keys for every private key, and refusal of the zero key, also while the source fails."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        a = make(ctx)
        c = a.curve
        n = c.size
        obj = ctx.call('new', a.new, ctx.gost, pool.wrap)
        for _ in ctx.repeat(1, 5, 'key', 70):
            if ctx.flag(35, 'zero'):
                mult = [m for m in range(0, 4) if m * c.q < 1 << (8 * n)]
                v = ctx.pick(mult, 'zero.mult') * c.q
                ctx.fault('zero-private-key')
                ctx.log('zero key', v // c.q)
                kb = v.to_bytes(n, 'big')
                if ctx.flag(50, 'zero.sign'):
                    kw = {}
                    if ctx.flag(50, 'zero.k'):
                        kw['rand_k'] = pool.wrap((7).to_bytes(n, 'big'))
                    src.limit = len(src.draws) + 64
                    out, err = step_budget(ctx, 'sign', lambda: obj.sign(
                        pool.wrap(kb), pool.wrap(digest_of(ctx, c)), **kw), CALLS)
                    text = 'invalid private key value'
                else:
                    out, err = step_budget(ctx, 'public_key_generate',
                                           lambda: obj.public_key_generate(pool.wrap(kb)), CALLS)
                    text = 'invalid private key'
                pool.settle()
                ctx.expect(err is not None, 'zero-key-used', lambda: 'a zero private key gave %s' % hx(out))
                documented(ctx, err, text)
                continue
            v = private(ctx, c)
            ctx.log('key', a.label)
            if ctx.flag(40, 'source-down'):
                def down(size):
                    raise InjectedOSError(errno.EIO, 'random source')
                ctx.fault('entropy.down')
                src.script = [down] * 4
            src.limit = len(src.draws) + 64
            out, err = ctx.attempt('public_key_generate', obj.public_key_generate, pool.wrap(v.to_bytes(n, 'big')))
            pool.settle()
            if err is not None:
                ctx.expect(isinstance(err, Injected) and None in src.draws, 'unexpected-exception',
                           lambda: 'key generation raised %s: %s' % (type(err).__name__, err))
            else:
                ctx.same('wrong-public-key', 'public key of %x' % v, out, c.public(v % c.q))
            src.script = []


def stubborn(ctx):
    """The source delivers unusable values hundreds of times in a row before a usable one."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        kind = ctx.pick(('zero', 'q', 'top', 'zero-r', 'zero-s'), 'kind')
        a = SignActor(ctx, [D] if kind == 'zero-r' else SMALL if ctx.flag(80, 'small') else LARGE)
        c = a.curve
        n = c.size
        obj = ctx.call('new', a.new, ctx.gost, pool.wrap)
        dig = digest_of(ctx, c)
        d = private(ctx, c)
        bad = {'zero': 0, 'q': c.q, 'top': (1 << (8 * n)) - 1, 'zero-r': 1, 'zero-s': 0}[kind]
        if kind == 'zero-s':
            bad = ctx.int(1, 3, 'k')
            if c.mul(bad)[0] % c.q == 0:
                bad = 5
            d = crafted_s_zero(c, dig, bad)
            if d == 0:
                return
        times = ctx.pick((30, 70, 150, 300, 1100), 'times') if kind != 'zero-s' or n == 32 else 30
        src.script = [lambda size: bad.to_bytes(n, 'big')[-size:]] * times
        good = ctx.int(1, 40, 'good') * 2 + 5
        src.script.append(lambda size: good.to_bytes(n, 'big')[-size:])
        src.limit = times + 64
        ctx.fault('entropy.' + kind, times)
        ctx.log('stubborn', a.label, kind, times)
        out, err = ctx.attempt('sign', obj.sign, pool.wrap(d.to_bytes(n, 'big')), pool.wrap(dig))
        pool.settle()
        ctx.expect(err is None, 'unexpected-exception',
                   lambda: 'after %d unusable values (%s) and then a usable one: %s: %s' % (
                       times, kind, type(err).__name__, err))
        check(ctx, a, obj, pool, d, dig, out, [int.from_bytes(x, 'big') for x in src.draws], [kind])


def many_signatures(ctx):
    """One object signs hundreds of times; every nonce is its own draw."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        a = SignActor(ctx, SMALL)
        c = a.curve
        obj = ctx.call('new', a.new, ctx.gost, pool.wrap)
        d = private(ctx, c)
        dig = digest_of(ctx, c)
        kb = d.to_bytes(c.size, 'big')
        ctx.fault('many-calls')
        for i in range(ctx.pick((40, 270, 530), 'times')):
            first = len(src.draws)
            k = 3 + i
            src.script = [lambda size: k.to_bytes(size, 'big')]
            out = ctx.call('sign', obj.sign, kb, dig)
            ctx.expect(len(src.draws) > first, 'stale-nonce', 'a signature was made without drawing randomness')
            got = [int.from_bytes(x, 'big') for x in src.draws[first:]]
            ctx.same('foreign-nonce', '%s signature number %d with nonces %s' % (a.label, i, got), out,
                     next((c.pack(*c.sign_with(d, dig, x)) for x in got if usable(c, d, dig, x)), b''))
        ctx.log('signed', a.label, i)
