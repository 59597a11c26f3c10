"""What is left of the secrets after clear."""

import copy as _copy
import hashlib

from ..core import InjectedInterrupt, InjectedMemoryError, InjectedOSError, InjectedTimeout, hx
from ..loader import modules
from ..models import cipher, streebog
from ..scan import Needles
from ..sched import choose_point, interrupt, profile, refine
from ..world import BufferPool, Entropy
from .bad import bad_call, dropping_call
from .kit import KINDS, SignActor, actor, bulk_run, bulky, do

LEVEL = 'exploration'
SCENARIOS = [('lives', 5), ('signing', 1)]
SPECIAL = ['long_lives'] * 40
QUICK_RUNS = 3400
RULE = ('Each run: an object that holds a secret lives a decided life (calls, refused calls, calls interrupted at a '
        'decided point, clones, other objects beside it), in parallel with a twin that differs only in the secret; '
        'it is cleared (once, twice, or with an interrupted first attempt).  Everything reachable from it and from '
        'the package is then searched for the secret and for values derived from it, and whatever both still produce '
        'must be the same; clones and the other objects must go on working.  A signature object is searched for the '
        'private keys and random values of every call it made, once the call has returned, been refused or been '
        'interrupted.')
REAL = ['gostcrypto (whole package, unmodified working tree, imported afresh in every run)',
        "Python's copy module (interruptible too)"]
STUB = ['asynchronous interrupts (raised at a traced line or expression)', 'operating-system random source',
        'application I/O buffers', 'memory below the interpreter (freed memory is not searched)']
ASSUMPTIONS = ['exceptions from outside arrive between Python expressions and not inside destructors',
               'a feedback register holds what was already published, except that of OFB, which is not claimed',
               'freed memory is outside what the library can control']

EXCS = (InjectedInterrupt, InjectedMemoryError, InjectedTimeout)


def xor(a, b):
    return bytes(x ^ b for x in a)


def needles(a, n):
    """What must be gone: the secret of this actor and what is computed from it alone or with its data."""
    if a.kind in ('cipher', 'mac'):
        n.add('key', a.key)
        words = cipher.ALG[a.alg](a.key).secrets()
        if a.alg == 'magma':
            n.add_words('round key', words)
        else:
            for w in words:
                n.add('round key', w)
        if a.kind == 'mac':
            for k in cipher.mac_subkeys(a.alg, a.key):
                n.add('subkey', k)
            c = cipher.ALG[a.alg](a.key)
            n.add('subkey source', c.encrypt(bytes(a.bs)))
            if len(set(a.key)) > 2:
                state = bytes(a.bs)
                for i in range(len(a.data) // a.bs):
                    b = a.data[i * a.bs:(i + 1) * a.bs]
                    state = c.encrypt(bytes(x ^ y for x, y in zip(state, b)))
                    n.add('chaining value', state)
        return
    if a.kind == 'prng':
        n.add('seed', a.seed)
        block = a.seed + (1).to_bytes(63 - len(a.seed), 'big') + b'\x01'
        for v in streebog.inner_values(512, block):
            n.add_ends('intermediate value of the seed block', v)
        return
    key = a.key if a.kind == 'hmac' else a.password
    bits = a.bits if a.kind == 'hmac' else 512
    n.add('key' if a.kind == 'hmac' else 'password', key)
    block = key + bytes(64 - len(key))
    for pad, what in ((0x36, 'inner'), (0x5c, 'outer')):
        p = xor(block, pad)
        n.add(what + ' pad block', p)
        n.add(what + ' hash state', streebog.chain(bits, p)[0])
        for v in streebog.inner_values(bits, p, follow=True):
            n.add_ends('intermediate value of the %s pad block' % what, v)
    if a.kind == 'hmac':
        h, s = streebog.chain(bits, xor(block, 0x36) + a.data)
        n.add('inner hash state', h)
        n.add('inner checksum', s)
    elif a._memo:
        n.add('derived key', a._memo)


def other_secret(ctx, a):
    """The same actor with another secret."""
    b = _copy.copy(a)
    if a.kind in ('cipher', 'mac', 'hmac'):
        b.key = b2(ctx, len(a.key), a.key)
        if a.kind == 'cipher':
            b.ref = cipher.Session(a.alg, a.mode, b.key, a.iv, a.pad_mode)
    elif a.kind == 'prng':
        b.seed = b2(ctx, len(a.seed), a.seed)
    else:
        b.password = b2(ctx, len(a.password), a.password)
        b._memo = b''
    return b


def b2(ctx, n, first):
    k = ctx.key(n, 'other')
    return k if k != first and any(k) else bytes(x ^ 0x5b for x in first[:-1]) + bytes([first[-1] ^ 0x11])


class Pair:
    """The object and its twin with another secret, living the same life."""

    def __init__(self, a, b, obj, twin):
        self.a, self.b, self.obj, self.twin = a, b, obj, twin
        self.scout = None            # a third, to learn the points of calls
        self.same = True             # the twin really lived the same life
        self.torn = False
        self.published = True        # CBC/CFB/OFB: both registers hold the same bytes


def live(ctx, p, pool, nd):
    """One event in the life of the pair."""
    a = p.a
    what = ctx.pick((0, 1, 2), 'what', (6, 2, 3))
    if what == 1:
        bad = bad_call(ctx, a)
        if bad.drops:
            what = 0                 # what follows is no longer comparable; P15 covers it
        else:
            ctx.log('refused', bad.name)
            ctx.fault('refused.' + a.kind)
            ctx.attempt(bad.name, bad.run, ctx.gost, p.obj, pool.wrap)
            pool.settle()
            bad2 = bad
            if not bad.builds:
                ctx.attempt(bad2.name, bad2.run, ctx.gost, p.twin, bytes)
            return
    if what == 0 or p.torn:
        op = a.gen(ctx)
        ctx.log('do', op.name)
        if p.torn:
            ctx.attempt(op.name, op.run, p.obj, pool.wrap)
            ctx.attempt(op.name, op.run, p.twin, bytes)
            if op.effect is not None and op.want is not None:
                op.want()
                op.effect()
        else:
            do(ctx, a, p.obj, op, pool.wrap)
            ctx.attempt(op.name, op.run, p.twin, bytes)
            ctx.attempt(op.name, op.run, p.scout, bytes)
        pool.settle()
    else:
        op = a.gen(ctx)
        seq, nlocs = profile(ctx, lambda: op.run(p.scout, bytes))
        at = choose_point(ctx, seq, nlocs)
        if at is None:
            at = 1 << 60
        exc = ctx.pick(EXCS, 'exc')
        f1, _, e1 = interrupt(ctx, lambda: op.run(p.obj, bytes), at, exc())
        f2, _, e2 = interrupt(ctx, lambda: op.run(p.twin, bytes), at, exc())
        ctx.log('cut', op.name, f1)
        ctx.allow_unraisable = True
        if f1 != f2 or (e1 is None) != (e2 is None):
            p.same = False
        if op.effect is not None and op.want is not None:
            op.want()
            op.effect()
        if not op.reads and f1:
            p.torn = True
    if a.kind == 'cipher' and not op.reads and a.mode in ('cbc', 'cfb', 'ofb'):
        # a decrypting CBC or CFB session shifts its input in, which is the same for both
        if a.mode == 'ofb' or not a.decrypting:
            p.published = False
    needles(a, nd)                   # reseeding brings new secrets; the old ones count too


def leftover(ctx, p, nd, where):
    found = nd.find(p.obj, *modules())
    ctx.expect(found is None, 'secret-left', lambda: '%s: %s is still reachable %s' % (p.a.label, found, where))


def show(r):
    v, e = r
    if e is not None:
        return ('error', type(e).__name__, str(e))
    if isinstance(v, (bytes, bytearray)):
        return ('bytes', bytes(v))
    return ('value', v)


def after_clear(ctx, p, pool, nd):
    """Both twins produce the same, whatever is asked."""
    a = p.a
    comparable = p.same and p.published
    if a.kind == 'cipher' and a.mode in ('cbc', 'cfb', 'ofb') and p.torn:
        comparable = False
    if comparable:
        ctx.probe('compared')
    for _ in ctx.repeat(1, 4, 'after', 60):
        if a.kind == 'prng':
            run, name = (lambda o: o.random()), 'random'
        elif a.kind == 'hmac':
            name = ctx.pick(('digest', 'copy', 'update', 'reset'), 'after.op')
            d = ctx.data(ctx.small(0, 130, 'after.n'), 'after.data')
            run = {'digest': lambda o: o.digest(), 'copy': lambda o: o.copy().digest(),
                   'update': lambda o, d=d: o.update(d), 'reset': lambda o: o.reset()}[name]
        else:
            if a.kind == 'cipher' and ctx.flag(30, 'turn') and a.mode != 'ofb':
                a.decrypting = not a.decrypting
            op = a.gen(ctx)
            run, name = (lambda o, op=op: op.run(o, bytes)), op.name
        ctx.log('after clear', name)
        r1 = ctx.attempt(name, run, p.obj)
        r2 = ctx.attempt(name, run, p.twin)
        if comparable:
            s1, s2 = show(r1), show(r2)
            ctx.expect(s1 == s2, 'depends-on-secret', lambda: '%s: %s after clear gives %s, and %s under another '
                       'secret' % (a.label, name, hx(s1[1]) if s1[0] == 'bytes' else s1,
                                   hx(s2[1]) if s2[0] == 'bytes' else s2))
        r1 = r2 = None
    leftover(ctx, p, nd, 'after clear and further calls')


def clear(ctx, p):
    how = ctx.pick((0, 1, 2, 3), 'clear.how', (5, 2, 4, 3))
    if how == 3 and p.a.kind in ('cipher', 'mac'):
        # it is told to drop its key by data of a wrong type instead
        bad = dropping_call(ctx, p.a)
        ctx.log('drop', bad.name)
        ctx.fault('drop.' + p.a.kind)
        ctx.attempt(bad.name, bad.run, ctx.gost, p.obj, bytes)
        ctx.attempt(bad.name, bad.run, ctx.gost, p.twin, bytes)
        return
    if how == 1:
        ctx.log('clear twice')
        ctx.call('clear', p.obj.clear)
        ctx.call('clear', p.twin.clear)
    elif how == 2:
        seq, nlocs = profile(ctx, p.scout.clear)
        at = choose_point(ctx, seq, nlocs)
        exc = ctx.pick(EXCS, 'exc')
        f, _, _ = interrupt(ctx, p.obj.clear, 1 << 60 if at is None else at, exc())
        ctx.allow_unraisable = True
        ctx.log('clear interrupted, then again', f)
        interrupt(ctx, p.twin.clear, 1 << 60 if at is None else at, exc())
    else:
        ctx.log('clear')
    ctx.call('clear', p.obj.clear)
    ctx.call('clear', p.twin.clear)


def lives(ctx):
    pool = BufferPool(ctx)
    bulk_run(ctx, 4, 1024)
    fine = refine(ctx, 15)
    with Entropy(ctx):
        a = actor(ctx, ('hmac', 'mac', 'cipher', 'prng', 'pbkdf'), (2, 6, 9, 2, 0) if fine else (8, 12, 20, 6, 2))
        if a.kind == 'pbkdf':
            a.count = 1 + a.count % 2
        name = {'prng': 'seed', 'pbkdf': 'password'}.get(a.kind, 'key')
        if not any(getattr(a, name)):
            # a cleared object works with zeros: a secret of zeros could not be told from none
            setattr(a, name, hashlib.shake_128(b'not zero').digest(len(getattr(a, name))))
            if a.kind == 'cipher':
                a.ref = cipher.Session(a.alg, a.mode, a.key, a.iv, a.pad_mode)
        b = other_secret(ctx, a)
        ctx.log('new', a.label)
        p = Pair(a, b, ctx.call('new', a.new, ctx.gost, pool.wrap), ctx.call('new', b.new, ctx.gost, bytes))
        pool.settle()
        p.scout = ctx.call('new', a.new, ctx.gost, bytes)
        nd = Needles()
        needles(a, nd)
        others = []
        for _ in ctx.repeat(0, 6, 'event', 75):
            k = ctx.pick((0, 1, 2), 'event.kind', (8, 2, 1))
            if k == 0:
                live(ctx, p, pool, nd)
            elif k == 1 and a.kind == 'hmac' and not p.torn:
                ctx.log('clone')
                others.append((a.fork(), ctx.call('copy', p.obj.copy)))
            elif k == 2 and len(others) < 3:
                o = actor(ctx, tuple(KINDS), (3, 3, 3, 5, 3, 1, 0))
                # sometimes one made from the very same secret
                if o.kind == a.kind and a.kind in ('mac', 'hmac') and ctx.flag(50, 'same-secret'):
                    o.key = a.key
                others.append((o, ctx.call('new', o.new, ctx.gost, pool.wrap)))
                pool.settle()
        if ctx.flag(12, 'just-drop'):
            # never cleared: the library must not remember what a dropped object knew
            ctx.log('dropped uncleared')
            p.obj = p.twin = p.scout = None
            leftover(ctx, p, nd, 'from the package')
            return
        clear(ctx, p)
        p.scout = None
        # clones hold the secret rightfully, but it must not be reachable from the cleared object
        leftover(ctx, p, nd, 'after clear')
        for o, obj in others:
            if ctx.flag(50, 'use'):
                do(ctx, o, obj, o.gen(ctx), pool.wrap, 'beside a cleared object')
                pool.settle()
        after_clear(ctx, p, pool, nd)
        if ctx.flag(40, 'destroy'):
            ctx.log('destroy')
            if ctx.flag(50, 'clear-again'):
                ctx.call('clear', p.obj.clear)
            p.obj = None
            leftover(ctx, p, nd, 'from the package')
        for o, obj in others:
            do(ctx, o, obj, o.final(ctx), pool.wrap, 'after another object was cleared')
            pool.settle()


def dead(n):
    raise InjectedOSError('no randomness')


def signing(ctx):
    """A signature object holds no private key or random value between calls."""
    pool = BufferPool(ctx)
    refine(ctx, 15)
    with Entropy(ctx) as ent:
        a = SignActor(ctx, light=100)      # small random values keep a call short; the keys have full size
        a.kind = 'sign'
        c, size = a.curve, a.curve.size
        ctx.log('new', a.label, a.form)
        obj = ctx.call('new', a.new, ctx.gost, pool.wrap)
        nd = Needles()
        for _ in ctx.repeat(1, 6, 'call', 70):
            d = int.from_bytes(ctx.key(size, 'd'), 'big') % c.q or 1
            dig = ctx.key(size, 'digest')
            key = d.to_bytes(size, 'big')
            nd.add('private key', key)
            nd.add('private key', key[::-1])
            what = ctx.pick(('given', 'own', 'public', 'refused', 'long'), 'what', (8, 4, 1, 3, 1))
            ent.small = what != 'long' or ctx.flag(50, 'given')
            if what == 'refused':
                a.d = d
                bad = bad_call(ctx, a)
                ctx.log('refused', bad.name)
                ctx.fault('refused.sign')
                out, err = ctx.attempt(bad.name, bad.run, ctx.gost, obj, pool.wrap)
                out = err = None
                pool.settle()
            else:
                if what == 'given' or (what == 'long' and ent.small):
                    k = ctx.int(2, 200, 'k')
                    if what == 'long':
                        k = int.from_bytes(ctx.key(size, 'k'), 'big') % c.q or 2
                        nd.add('random value', k.to_bytes(size, 'big'))
                    r = c.mul(k)[0] % c.q
                    for v in (r * d % c.q, r * d, k * int.from_bytes(dig, 'big') % c.q, pow(k, -1, c.q)):
                        nd.add_ends('product of the secrets', v.to_bytes(2 * size, 'big').lstrip(b'\0'))
                        nd.add_ends('product of the secrets', v.to_bytes(2 * size, 'little').rstrip(b'\0'))
                    run = lambda o: o.sign(pool.wrap(key), pool.wrap(dig), pool.wrap(k.to_bytes(size, 'big')))
                elif what == 'public':
                    run = lambda o: o.public_key_generate(pool.wrap(key))
                else:
                    run = lambda o: o.sign(pool.wrap(key), pool.wrap(dig))
                how = ctx.pick(('return', 'cut', 'random'), 'how', (3, 5, 1))
                ctx.log(what, how)
                if how == 'cut':
                    at = 1 + ctx.int(0, 40, 'at.head')
                    if what in ('given', 'own') and ctx.flag(60, 'deep'):
                        seq, nlocs = profile(ctx, lambda: run(ctx.call('new', a.new, ctx.gost, bytes)))
                        at = choose_point(ctx, seq, nlocs) or 0
                    ctx.allow_unraisable = True
                    out = interrupt(ctx, lambda: run(obj), at, ctx.pick(EXCS, 'exc')())
                else:
                    if how == 'random':
                        ent.script.append(dead)
                        ctx.fault('entropy.error')
                    out = ctx.attempt(what, run, obj)
                    del ent.script[:]
                out = run = None
                pool.settle()
                if what == 'long':
                    for v in ent.draws:
                        if v:
                            nd.add('random value', v)
            found = nd.find(obj, *modules())
            ctx.expect(found is None, 'secret-left', lambda: '%s: %s is still reachable after a call' % (a.label, found))
        op = a.op_sign(ctx)
        do(ctx, a, obj, op, pool.wrap, 'at the end')


def long_lives(ctx):
    bulky(ctx)
    lives(ctx)
