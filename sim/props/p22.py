"""Every call ends, after an amount of work in proportion to its own data."""

import sys

from ..core import Injected, SimAbort, SimHang, Violation
from ..loader import repo_codes
from ..models import ec
from ..world import Entropy, small_entropy
from .bad import bad_call
from .kit import actor
from .p21 import USES, HashUse, PrngUse, fresh_bytes

LEVEL = 'exploration'
SCENARIOS = [('history', 4), ('scaling', 3), ('values', 4)]
SPECIAL = ['corners'] * 32
QUICK_RUNS = 900
RULE = ('Each run counts the steps (calls, branches) the package itself executes. history: a decided mixture of '
        'one to four kinds of use (as for P21: pieces, clones, refused and interrupted calls, dropped objects) goes on '
        'in equally long phases; work that grows steadily through five and then through forty phases is a violation. '
        'scaling: one call on 1, 2, 4 and 8 times the data (or counts); more than proportional growth that goes on up '
        'to 64 times the data is a violation. values: calls on extreme values (zeros, ones, ends of ranges, degenerate '
        'points, short and long keys, unlucky random sources) and refused calls may cost no more than a multiple of what '
        'ordinary values cost; any call that exceeds forty times that is stopped and counts as endless. '
        'Fixed extra runs take one argument of a signature call through all its extreme values.')
REAL = ['gostcrypto (whole package, unmodified working tree, imported afresh in every run)']
STUB = ['asynchronous interrupts', 'operating-system random source', 'the clock: work is counted, not timed']
ASSUMPTIONS = ['work inside interpreter built-ins (copying bytes, big integers) is not counted',
               'growth that stops within 40 phases is a warm-up']
PHASES = 5
LONG = 40
SLACK = 10000                         # steps that may be spent once (tables, warm-up)
TOOL = 3


class Meter:
    """Counts what the package executes (calls and branches taken); stops what goes on beyond the limit."""

    def __init__(self):
        self.count = 0
        self.limit = 1 << 60

    def __enter__(self):
        mon = sys.monitoring
        ev = mon.events

        def tick(code, *args):
            self.count += 1
            if self.count > self.limit:
                self.limit = 1 << 60
                raise SimHang('a call went on for %d steps' % self.count)
        mon.use_tool_id(TOOL, 'sim')
        for e in (ev.BRANCH, ev.PY_START):
            mon.register_callback(TOOL, e, tick)
        for code in repo_codes():
            mon.set_local_events(TOOL, code, ev.BRANCH | ev.PY_START)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        for code in repo_codes():
            mon.set_local_events(TOOL, code, 0)
        for e in (mon.events.BRANCH, mon.events.PY_START):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        return False

    def of(self, fn, most=1 << 60):
        """Steps of one call, whatever comes of it."""
        start = self.count
        self.limit = start + most
        try:
            fn()
        except (Violation, SimAbort, SimHang):
            raise
        except Injected:
            raise
        except BaseException as e:        # noqa: refused is fine here
            e.__traceback__ = None
            e.__context__ = None
        finally:
            self.limit = 1 << 60
        return self.count - start


# -- however long it is used ------------------------------------------------------

def history(ctx):
    ctx.allow_unraisable = True
    with Entropy(ctx) as src, Meter() as meter:
        small_entropy()
        PrngUse.source = src
        uses = []
        for _ in ctx.repeat(1, 3, 'use', 30):
            u = ctx.pick(USES, 'kind', (5, 8, 3, 3, 3))(ctx, len(uses))
            ctx.log('use', u.label)
            if isinstance(u, HashUse):
                u.restart = ctx.flag(30, 'restart')
            uses.append(u)
        budget = 400 if ctx.tier == 'quick' else 1500
        rounds = max(16, min(100, int(budget / sum(u.weight for u in uses))))
        ctx.log('rounds', rounds)
        costs = []
        done = [0]

        def phase():
            start = meter.count
            if costs:
                meter.limit = start + 100 * max(costs) + SLACK
            for _ in range(rounds):
                done[0] += 1
                for u in uses:
                    u.round(done[0])
                    ctx.steps += len(u.acts)
            meter.limit = 1 << 60
            costs.append(meter.count - start)
            ctx.sim_time += rounds
        phase()                           # warm-up
        costs.clear()
        for _ in range(PHASES):
            phase()
        ctx.log('costs', *costs)
        least = max(rounds // 3, costs[0] // 1000)
        grown = [b - a for a, b in zip(costs, costs[1:])]
        if min(grown) >= max(least, max(grown) // 4):
            ctx.probe('growth followed up')
            while len(costs) < LONG:
                phase()
                if len(costs) % 5 == 0:
                    means = [sum(costs[k:k + 5]) / 5 for k in range(0, len(costs), 5)]
                    if means[-1] - means[-2] < least:
                        return
            if means[-1] - means[len(means) // 2] >= 0.4 * (means[-1] - means[0]):
                raise Violation('slowing', 'each %d rounds of %s took more steps than the ones before: %s' % (
                    rounds, '; '.join(u.label for u in uses), ', '.join(map(str, costs))))
        kinds = {a if isinstance(a, str) else a[0] for u in uses for a in u.acts}
        if 'renew' in kinds:
            ctx.fault('objects-dropped')
        if any(k.endswith('refused') for k in kinds):
            ctx.fault('refused-calls')


# -- proportion ---------------------------------------------------------------------

def scalable(ctx):
    """(label, how many units at first, run(units, content number))."""
    g = ctx.gost
    kind = ctx.pick(('hash', 'hash.pieces', 'hmac', 'cipher', 'cipher.pieces', 'mac', 'mac.pieces', 'prng', 'prng.calls',
                     'pbkdf.count', 'pbkdf.length', 'copies'), 'scale')
    if kind in ('hash', 'hash.pieces', 'hmac', 'copies'):
        bits = ctx.pick((256, 512), 'bits')
        off = ctx.pick((0, 1, 63), 'off')
        size = ctx.pick((64, 1, 65, 16), 'piece')

        def run(m, no):
            if kind == 'hmac':
                o = g.gosthmac.new('HMAC_GOSTR3411_2012_%d' % bits, fresh_bytes(32, 'key', no))
            else:
                o = g.gosthash.new('streebog%d' % bits)
            if kind in ('hash', 'hmac'):
                o.update(fresh_bytes(64 * m + off, 'data', no))
            elif kind == 'hash.pieces':
                for i in range(m):
                    o.update(fresh_bytes(size, 'data', no, i))
            else:
                for i in range(m):
                    o = o.copy()
                    o.update(fresh_bytes(size, 'data', no, i))
            o.digest()
        return '%s%d' % (kind, bits), 4 if kind != 'copies' else 8, run
    if kind in ('cipher', 'cipher.pieces', 'mac', 'mac.pieces'):
        gc = g.gostcipher
        alg = ctx.pick(('magma', 'kuznechik'), 'alg')
        bs = 8 if alg == 'magma' else 16
        mode = 'mac' if kind.startswith('mac') else ctx.pick(('ecb', 'cbc', 'cfb', 'ofb', 'ctr'), 'mode')
        back = ctx.flag(50, 'decrypt')
        ivs = ctx.pick((1, 2, 5), 'iv')
        tail = ctx.pick((0, 1, bs - 1), 'tail') if kind in ('cipher', 'mac') else 0
        if back and mode in ('ecb', 'cbc'):
            tail = 0

        def run(m, no):
            kw = {}
            if mode in ('cbc', 'cfb', 'ofb'):
                kw['init_vect'] = fresh_bytes(bs * ivs, 'iv', no)
            elif mode == 'ctr':
                kw['init_vect'] = fresh_bytes(bs // 2, 'iv', no)
            o = gc.new(alg, fresh_bytes(32, 'key', no), getattr(gc, 'MODE_' + mode.upper()), **kw)
            if mode == 'mac':
                feed = o.update
            else:
                feed = o.decrypt if back else o.encrypt
            if kind in ('cipher', 'mac'):
                feed(fresh_bytes(bs * m + tail, 'data', no))
            else:
                for i in range(m):
                    feed(fresh_bytes(bs, 'data', no, i))
            if mode == 'mac':
                o.digest(bs)
        return '%s %s-%s' % (kind, mode, alg), 8, run
    if kind in ('prng', 'prng.calls'):
        def run(m, no):
            o = g.gostrandom.new(64 * m if kind == 'prng' else 32, rand_k=fresh_bytes(48, 'seed', no), size_s=48)
            for _ in range(1 if kind == 'prng' else m):
                o.random()
        return kind, 4, run

    def run(m, no):
        o = g.gostpbkdf.new(fresh_bytes(9, 'pw', no), salt=fresh_bytes(16, 'salt', no),
                            counter=m if kind == 'pbkdf.count' else 2)
        o.derive(64 if kind == 'pbkdf.count' else 64 * m)
    return kind, 2, run


def scaling(ctx):
    with Entropy(ctx), Meter() as meter:
        label, first, run = scalable(ctx)
        ctx.log('scaling', label)
        meter.of(lambda: run(first, 'warm-up'))
        costs = [meter.of(lambda: run(first, 0))]
        m = first
        while True:
            m *= 2
            costs.append(meter.of(lambda: run(m, m), 40 * costs[-1] + SLACK))
            ctx.steps += 1
            ctx.sim_time += m
            if len(costs) < 4:
                continue
            steps = [b - a for a, b in zip(costs, costs[1:])]
            # twice the data: twice the additional work
            if any(b < 2.5 * a for a, b in zip(steps, steps[1:])) or costs[-1] < SLACK:
                break
            ctx.probe('growth followed up')
            if len(costs) > 6 or len(costs) > 4 and costs[-1] > 4000000:
                raise Violation('out-of-proportion', '%s: from %d units on, doubled each time, the steps were %s' % (
                    label, first, ', '.join(map(str, costs))))
        ctx.log('costs', *costs)
        ctx.probe('scaling.' + label.split()[0])


# -- whatever the values ----------------------------------------------------------------

def ends(c):
    n, q = c.size, c.q
    return [(v % (1 << 8 * n)).to_bytes(n, 'big') for v in (
        0, 1, 2, 3, q - 1, q - 2, q, q + 1, q // 2, (1 << 8 * n) - 1, c.p - 1, c.p, c.p + 1, 1 << 8 * n - 1,
        (1 << 8 * n - 8) - 1)]


def corners(ctx):
    """One argument of a signature call takes all its extreme values in turn, the others are ordinary."""
    with Entropy(ctx) as src, Meter() as meter:
        c = ec.CURVES[ctx.pick(sorted(x for x in ec.CURVES if ec.CURVES[x].size == 32 or x.endswith('SetA')), 'curve')]
        n, q = c.size, c.q
        gs = ctx.gost.gostsignature
        o = gs.new(gs.MODE_256 if n == 32 else gs.MODE_512, gs.CURVES_R_1323565_1_024_2019[c.name])
        d, e, k = (int.from_bytes(fresh_bytes(n, 'v', x, ctx.int(0, 1 << 20, 'seed')), 'big') % q for x in 'dek')
        names = ('key', 'digest', 'nonce'), ('key', 'digest'), ('key',), ('x', 'y', 'digest', 'r', 's')
        calls = (o.sign, o.sign, o.public_key_generate, lambda x, y, dig, r, s: o.verify(x + y, dig, r + s))
        pub = c.public(d)
        plain = {'key': d.to_bytes(n, 'big'), 'digest': e.to_bytes(n, 'big'), 'nonce': k.to_bytes(n, 'big'),
                 'x': pub[:n], 'y': pub[n:], 'r': k.to_bytes(n, 'big'), 's': d.to_bytes(n, 'big')}
        which = ctx.pick((0, 1, 2, 3), 'call', (3, 1, 1, 6))
        place = ctx.pick(names[which], 'place')
        ctx.log('corners', c.name, which, place)
        usual = max(meter.of(lambda: calls[w](*[plain[x] for x in names[w]])) for w in (0, 3))
        for v in ends(c):
            args = [v if x == place else plain[x] for x in names[which]]
            for _ in range(3):
                cost = meter.of(lambda: calls[which](*args), 40 * usual + SLACK)
                ctx.steps += 1
                ctx.sim_time += 1
                if cost <= 4 * usual + SLACK:
                    break
            else:
                raise Violation('slow-values', '%s, %s(%s): %d steps, on ordinary values at most %d' % (
                    c.name, ('sign', 'sign', 'public_key_generate', 'verify')[which],
                    ', '.join('%s %s' % (x, y.hex()) for x, y in zip(names[which], args)), cost, usual))
            ctx.fault('extreme-value')
            ctx.log('cost', cost)


def sign_values(ctx, src):
    c = ec.CURVES[ctx.pick(sorted(ec.CURVES), 'curve')]
    n, q = c.size, c.q
    gs = ctx.gost.gostsignature
    o = gs.new(gs.MODE_256 if n == 32 else gs.MODE_512, gs.CURVES_R_1323565_1_024_2019[c.name])
    d, e, k = (int.from_bytes(fresh_bytes(n, 'v', x, ctx.int(0, 1 << 20, 'seed')), 'big') % q for x in 'dek')

    def num(label):
        return ctx.pick(ends(c), label)

    def b(v):
        return v.to_bytes(n, 'big')
    typical = [lambda: o.sign(b(d), b(e), b(k)),
               lambda: o.verify(c.public(d), b(e), b(k) + b(d))]
    kind = ctx.pick(('sign', 'sign.own', 'public', 'verify', 'verify.key', 'verify.matched'), 'what', (4, 1, 2, 4, 3, 2))
    if kind == 'sign':
        v = [num(x) if ctx.flag(50, x + '?') else b(y) for x, y in (('key', d), ('digest', e), ('nonce', k))]
        return c.name, typical, lambda: o.sign(*v), 'sign(%s)' % ', '.join(x.hex() for x in v)
    if kind == 'sign.own':
        v = [num('key'), num('digest')]
        # unlucky draws: zero and too large values, which are drawn again
        for _ in range(ctx.small(0, 4, 'unlucky')):
            src.script.append(ctx.pick((bytes(n), b'\xff' * n), 'draw'))
        return c.name, typical, lambda: o.sign(*v), 'sign(%s)' % ', '.join(x.hex() for x in v)
    if kind == 'public':
        v = num('key')
        return c.name, typical, lambda: o.public_key_generate(v), 'public_key_generate(%s)' % v.hex()
    if kind == 'verify':
        v = [num('r') if ctx.flag(60, 'r?') else b(k), num('s') if ctx.flag(60, 's?') else b(d)]
        dig = num('digest') if ctx.flag(60, 'digest?') else b(e)
        pub = c.public(d)
    elif kind == 'verify.key':
        v = [b(k), b(d)]
        dig = num('digest') if ctx.flag(30, 'digest?') else b(e)
        pub = ctx.pick((bytes(2 * n), b'\xff' * (2 * n), c.public(1), c.public(q - 1), c.public(2), num('x') + num('y'),
                        num('x') + c.public(1)[n:], c.public(1)[:n] + num('y')), 'pub')
    else:
        # r = e or s = e: multipliers one and minus one
        v = [b(e) if ctx.flag(50, 'r=e') else b(k), b(e) if ctx.flag(50, 's=e') else b(d)]
        dig = b(e)
        pub = c.public(ctx.pick((1, 2, q - 1, d), 'key'))
    return c.name, typical, lambda: o.verify(pub, dig, v[0] + v[1]), 'verify(%s, %s, %s)' % (
        pub.hex(), dig.hex(), (v[0] + v[1]).hex())


def pattern(ctx, n, label):
    k = ctx.pick((0, 1, 2, 3, 4), label)
    return (bytes(n), b'\xff' * n, bytes(n - 1) + b'\x01' if n else b'', b'\x80' + bytes(n - 1) if n else b'',
            fresh_bytes(n, label, ctx.int(0, 1 << 20, label + '.seed')))[k]


def other_values(ctx, src):
    g = ctx.gost
    kind = ctx.pick(('hash', 'hmac', 'cipher', 'mac', 'prng', 'pbkdf'), 'kind', (2, 2, 5, 2, 3, 2))
    if kind in ('hash', 'hmac'):
        bits = ctx.pick((256, 512), 'bits')
        n = ctx.pick((0, 1, 63, 64, 65, 128, 127), 'len')

        def run(key, data):
            if kind == 'hmac':
                o = g.gosthmac.new('HMAC_GOSTR3411_2012_%d' % bits, key)
            else:
                o = g.gosthash.new('streebog%d' % bits)
            o.update(data)
            return o.digest()
        key, data = pattern(ctx, ctx.pick((1, 32, 63, 64, 65, 0), 'klen'), 'key'), pattern(ctx, n, 'data')
        return '%s%d' % (kind, bits), [lambda: run(fresh_bytes(32, 'k'), fresh_bytes(n, 'd'))], lambda: run(
            key, data), '%d bytes' % n
    if kind in ('cipher', 'mac'):
        gc = g.gostcipher
        alg = ctx.pick(('magma', 'kuznechik'), 'alg')
        bs = 8 if alg == 'magma' else 16
        mode = 'mac' if kind == 'mac' else ctx.pick(('ecb', 'cbc', 'cfb', 'ofb', 'ctr'), 'mode')
        n = ctx.pick((bs, 2 * bs, 4 * bs, 0, 1, bs - 1, bs + 1), 'len')
        back = ctx.flag(50, 'decrypt')
        pad = ctx.pick((gc.PAD_MODE_1, gc.PAD_MODE_2), 'pad')

        def run(key, iv, data):
            kw = {}
            if mode in ('cbc', 'cfb', 'ofb'):
                kw['init_vect'] = iv
            elif mode == 'ctr':
                kw['init_vect'] = iv[:bs // 2]
            if mode in ('ecb', 'cbc'):
                kw['pad_mode'] = pad
            o = gc.new(alg, key, getattr(gc, 'MODE_' + mode.upper()), **kw)
            if mode == 'mac':
                o.update(data)
                return o.digest(bs)
            return o.decrypt(data) if back else o.encrypt(data)
        v = pattern(ctx, 32, 'key'), pattern(ctx, bs * 2, 'iv'), pattern(ctx, n, 'data')
        usual = fresh_bytes(32, 'k'), fresh_bytes(2 * bs, 'iv'), fresh_bytes(max(bs, n // bs * bs), 'd')
        return '%s-%s' % (mode, alg), [lambda: run(*usual)], lambda: run(*v), '%s of %d bytes' % (
            'decrypt' if back else 'process', n)
    if kind == 'prng':
        size_s = ctx.pick((48, 32, 40), 'size_s')
        size = ctx.pick((32, 64, 1, 100, 63, 65), 'size')

        def run(seed, own=False):
            o = g.gostrandom.new(size, size_s=size_s) if own else g.gostrandom.new(size, rand_k=seed, size_s=size_s)
            o.random()
            return o.random()
        if ctx.flag(30, 'own'):
            src.script.append(pattern(ctx, size_s, 'draw'))
            return kind, [lambda: run(fresh_bytes(size_s, 's'))], lambda: run(None, True), 'own seed'
        v = pattern(ctx, size_s, 'seed')
        return kind, [lambda: run(fresh_bytes(size_s, 's'))], lambda: run(v), 'seed %s' % v.hex()
    n = ctx.pick((32, 64, 1, 0, 65, 63, -1), 'dk')
    count = ctx.pick((1, 2, 0, -1), 'count')

    def run(pw, salt, count, n):
        return g.gostpbkdf.new(pw, salt=salt, counter=count).derive(n)
    v = pattern(ctx, ctx.pick((8, 0, 1, 64), 'pwlen'), 'pw'), pattern(ctx, ctx.pick((8, 0, 1, 64), 'sl'), 'salt'), count, n
    return kind, [lambda: run(fresh_bytes(8, 'p'), fresh_bytes(16, 's'), 2, 100)], lambda: run(*v), 'derive(%d), %d times' % (
        n, count)


def refused(ctx, src):
    a = actor(ctx, ('hash', 'hmac', 'mac', 'cipher', 'prng', 'pbkdf', 'sign'))
    bad = bad_call(ctx, a)
    ctx.fault('refused.' + a.kind)

    def give(v):
        return bytes(v)

    def usual():
        o = a.new(ctx.gost, give)
        op = a.gen(ctx)
        op.run(o, give)
        if a.kind == 'sign':
            o.sign(a.private(), fresh_bytes(a.curve.size, 'e'), fresh_bytes(a.curve.size - 1, 'k').rjust(a.curve.size, b'\x01'))
    return a.label, [usual], lambda: bad.run(ctx.gost, a.new(ctx.gost, give), give), bad.name


def values(ctx):
    with Entropy(ctx) as src, Meter() as meter:
        make = ctx.pick((sign_values, other_values, refused), 'of', (4, 5, 3))
        label, typical, call, what = make(ctx, src)
        ctx.log('values', label, what)
        usual = [meter.of(t) for t in typical]
        most = 4 * max(usual) + SLACK
        for _ in range(3):
            n = meter.of(call, 40 * max(usual) + SLACK)
            ctx.steps += 1
            ctx.sim_time += 1
            if n <= most:
                break
        else:
            raise Violation('slow-values', '%s, %s: %d steps, on ordinary values at most %d' % (label, what, n, max(usual)))
        ctx.log('cost', n, *usual)
        ctx.probe('values.' + label.split()[0])
        if make is not refused:
            ctx.fault('extreme-value')
