"""Populations of pseudo-random generators under reseeding, exhaustion and a failing source."""

import errno
import hashlib

from ..core import InjectedMemoryError, InjectedOSError, hx
from .. import leap, stubs
from ..models import streebog
from ..world import BufferPool, Entropy

LEVEL = 'exploration'
SCENARIOS = [('population', 8), ('exhaust', 3), ('far', 1), ('distant', 1)]
SPECIAL = ['marathon', 'marathon'] + ['endurance'] * 6
QUICK_RUNS = 1500
RULE = ('Each run: 1-3 generators of decided seed and output sizes live through decided histories of outputs, explicit '
        'and system reseeding (source good, zero or failing), rejected reseeds, clearing and counter exhaustion; every '
        'output is compared with the consecutive piece of the reference sequence. Fixed extra runs make hundreds of calls, '
        'two of them - with a stand-in hash - 65999 outputs.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['hash function (in the two runs of more than 2**16 outputs only)', 'operating-system random source', 'application I/O buffers']
ASSUMPTIONS = ['the reference sequence in sim/models agrees with the standard (validated on published vectors)',
               'counter exhaustion is reached with short counters (seed sizes 61 to 63 of 64 bytes), and in long ones by '
               'setting the counter forward in the object (sim/leap.py), after a trial has shown that the object then '
               'continues as the reference does']


class Gen:
    """The reference: a seed, a position, a piece size."""

    def __init__(self, size, size_s, name):
        self.size, self.size_s, self.name = size, size_s, name
        self.limit = (1 << (8 * (63 - size_s))) - 1
        self.seed = None
        self.used = 0
        self.dead = False
        self.obj = None

    def start(self, seed):
        self.seed, self.used, self.dead = seed, 0, False

    def blocks(self):
        return -(-self.size // 64)


def error(ctx, gen, err, texts):
    cls = ctx.gost.gostrandom.GOSTRandomError
    ctx.expect(type(err) is cls and str(err) in ['GOSTRandomError: ' + t for t in texts], 'undocumented-error',
               lambda: '%s: expected %s, got %s: %s' % (gen.name, texts, type(err).__name__, err))


EXCEEDED = 'exceeded the limit value of the counter'
ZERO = 'the seed value is zero'


def output(ctx, gen):
    out, err = ctx.attempt('random', gen.obj.random)
    where = '%s (seed size %d, %d bytes, position %d)' % (gen.name, gen.size_s, gen.size, gen.used)
    if not any(gen.seed):
        ctx.expect(err is not None, 'output-from-zero-seed', lambda: '%s gave %s' % (where, hx(out)))
        error(ctx, gen, err, [ZERO])
        ctx.log('refused', gen.name)
        ctx.probe('zero-seed-refused')
        return
    if gen.dead or gen.used + gen.blocks() > gen.limit:
        ctx.expect(err is not None, 'output-past-limit', lambda: '%s gave %s' % (where, hx(out)))
        error(ctx, gen, err, [EXCEEDED, ZERO] if gen.dead else [EXCEEDED])
        gen.dead = True
        ctx.log('exhausted', gen.name)
        ctx.probe('exhausted')
        return
    ctx.expect(err is None, 'unexpected-exception', lambda: '%s raised %s: %s' % (where, type(err).__name__, err))
    want, nxt = streebog.prng_output(gen.seed, gen.used + 1, gen.size)
    ctx.same('wrong-output', where, out, want)
    gen.used = nxt - 1
    ctx.log('output', gen.name, gen.used)
    return out


def seed_value(ctx, size_s):
    how = ctx.pick((0, 1, 2, 3), 'seed.how', (7, 1, 1, 1))
    if how == 0:
        return ctx.key(size_s, 'seed')
    if how == 1:
        return bytes(size_s - 1) + b'\x01'
    if how == 2:
        return b'\x01' + bytes(size_s - 1)
    return bytes(size_s)


def script(ctx, src):
    """Decide what the random source does next; 'good' leaves it alone."""
    how = ctx.pick(('good', 'zero', 'error', 'memory'), 'source', (6, 2, 2, 1))
    src.script = []
    if how == 'good':
        return how
    ctx.fault('entropy.' + how)

    def item(n):
        if how == 'zero':
            return bytes(n)
        raise InjectedOSError(errno.EIO, 'random source') if how == 'error' else InjectedMemoryError()
    src.script = [item] * (1 if how == 'zero' else 8)
    return how


def create(ctx, src, pool, gen):
    kw = {}
    g = ctx.gost.gostrandom
    if gen.size_s != 48 or ctx.flag(50, 'size_s.given'):
        kw['size_s'] = gen.size_s
    how = ctx.pick((0, 1, 2), 'create', (6, 3, 1))
    if how == 0:
        seed = seed_value(ctx, gen.size_s)
        gen.obj = ctx.call('new', g.new, gen.size, rand_k=pool.wrap(seed), **kw)
        pool.settle()
        gen.start(seed)
    else:
        if how == 2:
            bad = ctx.data(gen.size_s + ctx.pick((1, -1, 16), 'bad.len'), 'bad')
            out, err = ctx.attempt('new', g.new, gen.size, rand_k=pool.wrap(bad), **kw)
            pool.settle()
            ctx.fault('rejected-seed')
            ctx.expect(err is not None, 'bad-seed-accepted', 'a seed of %d bytes for size %d' % (len(bad), gen.size_s))
            error(ctx, gen, err, ['invalid seed value'])
        what = script(ctx, src)
        first = len(src.draws)
        obj, err = ctx.attempt('new', g.new, gen.size, **kw)
        src.script = []
        if what in ('error', 'memory'):
            ctx.expect(err is not None, 'generator-without-entropy', 'the source failed but a generator was created')
            ctx.log('creation failed', gen.name)
            return False
        ctx.expect(err is None, 'unexpected-exception', lambda: 'new raised %s: %s' % (type(err).__name__, err))
        gen.obj = obj
        gen.start(b''.join(src.draws[first:])[:gen.size_s])
        ctx.expect(len(gen.seed) == gen.size_s, 'stale-seed', 'no fresh seed of %d bytes was drawn' % gen.size_s)
    ctx.log('new', gen.name, gen.size, gen.size_s, how)
    return True


def reseed(ctx, src, pool, gen):
    how = ctx.pick((0, 1, 2), 'reseed', (4, 3, 3))
    if how == 0:
        seed = seed_value(ctx, gen.size_s)
        if ctx.flag(20, 'same') and any(gen.seed):
            seed = gen.seed
        ctx.fault('reseed')
        r = ctx.call('reset', gen.obj.reset, pool.wrap(seed))
        pool.settle()
        gen.start(seed)
    elif how == 1:
        what = script(ctx, src)
        first = len(src.draws)
        r, err = ctx.attempt('reset', gen.obj.reset)
        src.script = []
        if what in ('error', 'memory'):
            ctx.expect(err is not None, 'reseed-without-entropy', 'the source failed but reset() returned')
            ctx.log('reseed failed', gen.name)
            return
        ctx.expect(err is None, 'unexpected-exception', lambda: 'reset raised %s: %s' % (type(err).__name__, err))
        ctx.fault('system-reseed')
        seed = b''.join(src.draws[first:])[:gen.size_s]
        ctx.expect(len(seed) == gen.size_s, 'stale-seed', 'no fresh seed of %d bytes was drawn' % gen.size_s)
        gen.start(seed)
    else:
        bad = ctx.pick((ctx.data(gen.size_s + 1, 'b1'), ctx.data(gen.size_s - 1, 'b2'), 'x' * gen.size_s, 12345,
                        None, b'\x01', [1] * gen.size_s), 'bad')
        if bad == b'':
            bad = b'\x01' * (gen.size_s + 1)
        ctx.fault('rejected-seed')
        r, err = ctx.attempt('reset', gen.obj.reset, pool.wrap(bad) if isinstance(bad, bytes) else bad)
        pool.settle()
        ctx.expect(err is not None, 'bad-seed-accepted', lambda: 'reset(%r) was accepted' % (bad,))
        error(ctx, gen, err, ['invalid seed value'])
    ctx.log('reseed', gen.name, how)


def step(ctx, src, pool, gen):
    what = ctx.pick((0, 1, 2), 'what', (12, 4, 1))
    if what == 0:
        return output(ctx, gen)
    if what == 1:
        return reseed(ctx, src, pool, gen)
    ctx.fault('clear')
    ctx.log('clear', gen.name)
    ctx.call('clear', gen.obj.clear)
    gen.start(bytes(gen.size_s))


def population(ctx):
    pool = BufferPool(ctx)
    gens = []
    with Entropy(ctx) as src:
        for i in ctx.repeat(1, 3, 'generator', 45):
            size = ctx.pick((512, 1000, 1024, 4096), 'size.long') if ctx.flag(3, 'long') else \
                ctx.pick((64, 32, 1, 63, 65, 128, 200, 256), 'size')
            size_s = ctx.pick((48, 40, 32), 'size_s')
            gen = Gen(size, size_s, 'g%d' % i)
            if create(ctx, src, pool, gen):
                gens.append(gen)
        if not gens:
            return
        for _ in ctx.repeat(2, 16, 'step', 88):
            gen = ctx.pick(gens, 'who')
            if ctx.flag(4, 'destroy') and len(gens) > 1:
                ctx.fault('destroy')
                gens.remove(gen)
                gen.obj = None
                continue
            step(ctx, src, pool, gen)
        for gen in gens:
            output(ctx, gen)


def exhaust(ctx):
    """Short counters are run to their end and beyond, and revived by reseeding."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        size_s = ctx.pick((63, 62), 'size_s', (1, 5))
        per = ctx.pick((1, 51, 64, 85, 100, 127, 128, 254, 255, 256), 'per')
        size = 64 * per - (ctx.int(0, 63, 'cut') if ctx.flag(50, 'partial') else 0)
        gen = Gen(size, size_s, 'short')
        if not create(ctx, src, pool, gen):
            return
        other = Gen(64, 48, 'other')
        if not create(ctx, src, pool, other):
            other = None
        calls = gen.limit // per
        at = max(0, calls - ctx.small(0, 2, 'early'))
        if ctx.flag(15, 'midway'):
            at = ctx.int(0, at, 'mid')
        for _ in range(at):
            if not any(gen.seed):
                break
            output(ctx, gen)
        for _ in ctx.repeat(2, 8, 'after', 85):
            if other is not None and ctx.flag(15, 'other'):
                output(ctx, other)
            elif ctx.flag(75, 'again'):
                output(ctx, gen)
            else:
                step(ctx, src, pool, gen)
        if other is not None:
            output(ctx, other)


def far(ctx):
    """Past the first carry of the counter."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        gen = Gen(64 * ctx.pick((60, 86, 130), 'per') + ctx.pick((0, 1, 63), 'tail'),
                  ctx.pick((48, 40, 32, 61), 'size_s'), 'far')
        seed = ctx.key(gen.size_s, 'seed')
        if ctx.flag(30, 'ones'):
            seed = b'\xff' * gen.size_s
        if not any(seed):
            seed = b'\x01' * gen.size_s
        gen.obj = ctx.call('new', ctx.gost.gostrandom.new, gen.size, rand_k=pool.wrap(seed), size_s=gen.size_s)
        pool.settle()
        gen.start(seed)
        while gen.used < 270:
            output(ctx, gen)
        for _ in ctx.repeat(0, 2, 'step', 60):
            step(ctx, src, pool, gen)


def distant(ctx):
    """A generator set forward to shortly before a carry, or before the end of its counter."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        gen = Gen(64 * ctx.pick((1, 2, 0), 'per') + ctx.pick((0, 1, 63), 'tail'),
                  ctx.pick((48, 40, 32, 60), 'size_s'), 'distant')
        seed = ctx.key(gen.size_s, 'seed')
        if ctx.flag(30, 'ones'):
            seed = b'\xff' * gen.size_s
        if not any(seed) or gen.size == 0:
            return
        width = 63 - gen.size_s
        gen.obj = ctx.call('new', ctx.gost.gostrandom.new, gen.size, rand_k=pool.wrap(seed), size_s=gen.size_s)
        pool.settle()
        gen.start(seed)
        for _ in ctx.repeat(0, 2, 'before', 50):
            output(ctx, gen)

        def state():
            return int.from_bytes(gen.seed + gen.used.to_bytes(width, 'big'), 'big')
        spot = leap.find(gen.obj, state(), 63)
        ok = spot is not None
        if ok:
            gen.used = 0x10
            spot.set(state())
            rest = leap.rest(gen.obj, spot)
            want, nxt = streebog.prng_output(seed, 0x11, gen.size)
            out, err = ctx.attempt('trial', gen.obj.random)
            gen.used = nxt - 1
            ok = err is None and bytes(out) == want and leap.rest(gen.obj, spot) == rest
            spot = leap.find(gen.obj, state(), 63)
            ok = ok and spot is not None
        if not ok:
            ctx.probe('counter kept otherwise, no leap')
            return
        ctx.probe('leap')
        for _ in ctx.repeat(1, 3, 'leap', 40):
            gen.used = leap.edge(ctx, 1, width + 1) if not ctx.flag(25, 'to.end') else gen.limit - ctx.int(0, 4, 'left')
            spot.set(state())
            ctx.fault('leap')
            ctx.log('leap', gen.used)
            for _ in ctx.repeat(1, 5, 'output', 75):
                output(ctx, gen)
            if gen.dead:
                break
            spot = leap.find(gen.obj, state(), 63)
            if spot is None:
                break
        for _ in ctx.repeat(0, 3, 'step', 60):
            step(ctx, src, pool, gen)


def endurance(ctx):
    """Hundreds of outputs, reseeds and refused reseeds on one generator."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        gen = Gen(ctx.pick((64, 1, 63, 65), 'size'), ctx.pick((48, 40, 32), 'size_s'), 'many')
        seed = ctx.key(gen.size_s, 'seed')
        if not any(seed):
            seed = b'\x02' * gen.size_s
        gen.obj = ctx.call('new', ctx.gost.gostrandom.new, gen.size, rand_k=pool.wrap(seed), size_s=gen.size_s)
        pool.settle()
        gen.start(seed)
        ctx.fault('many-calls')
        what = ctx.pick(('reseed', 'same-reseed', 'system', 'output', 'refused'), 'what')
        for i in range(300):
            if what == 'reseed':
                seed = hashlib.shake_128(b'%d' % i).digest(gen.size_s)
                ctx.call('reset', gen.obj.reset, seed)
                gen.start(seed)
            elif what == 'same-reseed':
                ctx.call('reset', gen.obj.reset, seed)
                gen.start(seed)
            elif what == 'system':
                first = len(src.draws)
                ctx.call('reset', gen.obj.reset)
                seed = b''.join(src.draws[first:])[:gen.size_s]
                ctx.expect(len(seed) == gen.size_s, 'stale-seed', 'reseed %d drew no fresh seed' % i)
                gen.start(seed)
            elif what == 'refused':
                out, err = ctx.attempt('reset', gen.obj.reset, b'\x01' * (gen.size_s + 1 + i))
                error(ctx, gen, err, ['invalid seed value'])
            if what in ('output', 'refused') or i % 10 == 9:
                output(ctx, gen)
        output(ctx, gen)


def marathon(ctx):
    """More than 2**16 outputs (with the stand-in hash)."""
    size = ctx.pick((64, 40), 'size')
    seed = ctx.key(48, 'seed')
    if not any(seed):
        seed = b'\x03' * 48

    def want(i):
        return stubs.h(512, seed + i.to_bytes(15, 'big'))[64 - size:]

    def probe():
        obj = ctx.gost.gostrandom.new(size, rand_k=seed, size_s=48)
        return all(bytes(obj.random()) == want(i) for i in (1, 2, 3))
    with Entropy(ctx):
        if not stubs.effective(ctx, probe):
            return
        obj = ctx.call('new', ctx.gost.gostrandom.new, size, rand_k=seed, size_s=48)
        ctx.fault('many-calls')
        for i in range(1, 66000):
            out = obj.random()
            if out != want(i):
                ctx.same('wrong-output', 'output %d' % i, out, want(i))
        ctx.log('outputs', 65999)
