"""However long the library is used, what it holds on to does not grow."""

import gc
import hashlib
import sys
import weakref

from ..core import InjectedInterrupt, InjectedMemoryError, InjectedOSError, InjectedTimeout, SimAbort, SimHang, Violation
from ..loader import is_repo_code
from ..models import ec
from ..scan import reachable
from ..world import Entropy, small_entropy

LEVEL = 'exploration'
SCENARIOS = [('usage', 1)]
QUICK_RUNS = 480
RULE = ('Each run: a decided mixture of one to four kinds of use (feeding, reading, clones, resets, refused calls, calls '
        'cut short by an interrupt, failing random source, objects created and dropped, cleared or refused; sizes, '
        'kinds, modes and curves decided, contents and keys always new) is repeated in five equally long phases; '
        'after each, the memory reachable from the live objects and from the package is measured. Growth that goes '
        'on steadily through all phases, and then through up to 35 more, is a violation, as is a dropped object that is '
        'still alive.')
REAL = ['gostcrypto (whole package, unmodified working tree, imported afresh in every run)']
STUB = ['asynchronous interrupts', 'operating-system random source', 'the moment the cyclic garbage collector runs']
ASSUMPTIONS = ['caches that stop growing within 40 phases (about 1000 to 6000 rounds) are bounded',
               'memory held outside the reach of the package and its objects is not seen']
PHASES = 5
LONG = 40
EXCS = (InjectedInterrupt, InjectedMemoryError, InjectedTimeout)


def fresh_bytes(n, *what):
    return hashlib.shake_128(repr(what).encode()).digest(n)


def trip(fn, at):
    """Run fn; raise at its at-th line of the package (cheap: no profile, it may never be reached)."""
    left = [at]
    exc = EXCS[at % 3]()

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                raise exc
        return local

    def trace(frame, event, arg):
        if left[0] <= 0 or not is_repo_code(frame.f_code) or frame.f_code.co_name == '__del__':
            return None
        return local
    sys.settrace(trace)
    try:
        fn()
    except (Violation, SimAbort, SimHang):
        raise
    except BaseException as e:        # noqa: whatever it surfaces as
        e.__traceback__ = None
        e.__context__ = None
    finally:
        sys.settrace(None)
    return left[0] <= 0


def quietly(fn, *args):
    """A call that is refused; nobody keeps the exception."""
    try:
        fn(*args)
    except (Violation, SimAbort, SimHang):
        raise
    except BaseException:             # noqa
        pass


def no_randomness(n):
    raise InjectedOSError('no randomness')


class Use:
    """One live object and the decided ways of using it."""

    weight = 1.0                      # rough cost of one round, in units of 0.25 ms

    def __init__(self, ctx, n):
        self.ctx = ctx
        self.n = n
        self.born = []
        self.dead = 0

    def track(self, o):
        try:
            self.born.append(weakref.ref(o))
        except TypeError:
            pass
        return o

    def roots(self):
        return [self.obj]

    def recycle(self, make):
        """The old object goes, a new one comes."""
        self.obj = None
        self.obj = self.track(make())

    def leftover(self):
        """Objects that should be gone."""
        live = sum(1 for r in self.born if r() is not None)
        self.born = [r for r in self.born if r() is not None]
        return live


class HashUse(Use):
    restart = True                    # now and then a new message

    def __init__(self, ctx, n):
        super().__init__(ctx, n)
        self.keyed = ctx.flag(50, 'hmac')
        bits = ctx.pick((256, 512), 'bits')
        self.name = ('HMAC_GOSTR3411_2012_%d' if self.keyed else 'streebog%d') % bits
        self.acts = []
        for _ in ctx.repeat(1, 3, 'act', 50):
            k = ctx.pick(('update', 'digest', 'hexdigest', 'copy', 'lineage', 'reset', 'refused', 'cut', 'renew', 'clear',
                          'ctor-refused'), 'what', (6, 4, 2, 3, 3, 2, 2, 3, 3, 2, 2))
            if k == 'clear' and not self.keyed:
                k = 'renew'
            self.acts.append((k, ctx.pick((1, 0, 63, 64, 65, 200), 'len'), ctx.small(1, 400, 'at')))
        self.label = '%s %s' % (self.name, ', '.join('%s(%d)' % (k, m) for k, m, _ in self.acts))
        self.weight = sum({'update': 1 + 2 * (m // 64), 'digest': 9, 'hexdigest': 9, 'copy': 2, 'lineage': 2, 'reset': 1,
                           'refused': 1, 'cut': 4, 'renew': 4, 'clear': 2, 'ctor-refused': 1}[k] *
                          (2 if self.keyed and k in ('digest', 'hexdigest') else 1) for k, m, _ in self.acts)
        self.obj = self.track(self.make(0))

    def make(self, i, data=b''):
        g = self.ctx.gost
        if self.keyed:
            return g.gosthmac.new(self.name, fresh_bytes(1 + i % 64, 'key', self.n, i), data=data)
        return g.gosthash.new(self.name, data=data)

    def round(self, i):
        for k, m, at in self.acts:
            o = self.obj
            d = fresh_bytes(m, 'msg', self.n, i)
            if k == 'update':
                o.update(d)
            elif k == 'digest':
                o.digest()
            elif k == 'hexdigest':
                o.hexdigest()
            elif k == 'copy':
                self.track(o.copy()).update(d)
            elif k == 'lineage':
                self.obj = self.track(o.copy())
            elif k == 'reset':
                o.update(d[:63])
                o.reset()
            elif k == 'refused':
                quietly(o.update, 'text %d' % i)
            elif k == 'cut':
                if trip(o.digest if at % 2 else lambda: o.update(d), at + i % 7):
                    self.ctx.fault('interrupt.' + EXCS[(at + i % 7) % 3].__name__)
                o.reset()
            elif k == 'renew':
                o = None
                self.recycle(lambda: self.make(i, d))
            elif k == 'clear':
                o.clear()
            else:
                quietly(self.ctx.gost.gosthash.new, 'nothing', d)
                if self.keyed:
                    quietly(self.ctx.gost.gosthmac.new, self.name, fresh_bytes(65, i))
        if self.restart and i % 50 == 0:
            self.obj.reset()


class CipherUse(Use):
    def __init__(self, ctx, n):
        super().__init__(ctx, n)
        g = ctx.gost.gostcipher
        self.alg = ctx.pick(('magma', 'kuznechik'), 'alg', (3, 2))
        self.bs = 8 if self.alg == 'magma' else 16
        self.mode = ctx.pick(('ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'mac'), 'mode')
        self.number = getattr(g, 'MODE_' + self.mode.upper())
        self.kw = {}
        if self.mode in ('ecb', 'cbc') and ctx.flag(40, 'pad2'):
            self.kw['pad_mode'] = g.PAD_MODE_2
        self.ivs = ctx.pick((1, 2, 4), 'iv')
        self.acts = []
        for _ in ctx.repeat(1, 3, 'act', 50):
            k = ctx.pick(('feed', 'back', 'read', 'hexed', 'refused', 'cut', 'renew', 'clear', 'ctor-refused'), 'what',
                         (8, 4, 4, 2, 2, 3, 3, 2, 2))
            self.acts.append((k, ctx.pick((1, 0, 2, 5), 'blocks'), ctx.small(1, 300, 'at')))
        self.label = '%s-%s %s' % (self.mode, self.alg, ', '.join('%s(%d)' % (k, m) for k, m, _ in self.acts))
        renew = 60 if self.alg == 'kuznechik' else 4
        self.weight = sum({'feed': 1.2 * m, 'back': 1.2 * m, 'read': 2, 'hexed': 2, 'refused': .1, 'cut': 2 + m * 3,
                           'renew': renew, 'clear': renew, 'ctor-refused': renew}[k] for k, m, _ in self.acts) + .2
        self.obj = self.track(self.make(0))

    def make(self, i):
        kw = dict(self.kw)
        if self.mode in ('cbc', 'cfb', 'ofb'):
            kw['init_vect'] = fresh_bytes(self.bs * self.ivs, 'iv', self.n, i)
        elif self.mode == 'ctr':
            kw['init_vect'] = fresh_bytes(self.bs // 2, 'iv', self.n, i)
        return self.ctx.gost.gostcipher.new(self.alg, fresh_bytes(32, 'key', self.n, i), self.number, **kw)

    def feed(self, d, back=False):
        if self.mode == 'mac':
            self.obj.update(d)
        elif back:
            self.obj.decrypt(d)
        else:
            self.obj.encrypt(d)

    def round(self, i):
        mac = self.mode == 'mac'
        for k, m, at in self.acts:
            d = fresh_bytes(self.bs * m + (3 if mac and i % 2 else 0), 'msg', self.n, i)
            if k in ('feed', 'back'):
                self.feed(d, k == 'back')
            elif k in ('read', 'hexed'):
                if mac:
                    (self.obj.digest if k == 'read' else self.obj.hexdigest)(1 + i % self.bs)
                elif self.mode == 'ctr':
                    self.obj.counter
                elif self.mode != 'ecb':
                    self.obj.iv
            elif k == 'refused':
                if mac:
                    quietly(self.obj.digest, self.bs + 1 + i)
                else:
                    quietly(self.obj.encrypt, 'text %d' % i)
            elif k == 'cut':
                if trip((lambda: self.obj.digest(self.bs)) if mac and at % 2 else lambda: self.feed(d), at + i % 7):
                    self.ctx.fault('interrupt.' + EXCS[(at + i % 7) % 3].__name__)
            elif k == 'renew':
                self.recycle(lambda: self.make(i))
            elif k == 'clear':
                self.obj.clear()
                self.recycle(lambda: self.make(i))
            else:
                g = self.ctx.gost.gostcipher
                quietly(g.new, self.alg, fresh_bytes(31, i), self.number)
                quietly(g.new, 'none', fresh_bytes(32, i), self.number)
                if self.mode in ('cbc', 'cfb', 'ofb', 'ctr'):
                    quietly(lambda: g.new(self.alg, fresh_bytes(32, i), self.number, init_vect=fresh_bytes(3, i)))


class PrngUse(Use):
    def __init__(self, ctx, n):
        super().__init__(ctx, n)
        self.size_s = ctx.pick((48, 40, 32), 'size_s')
        self.size = ctx.pick((32, 64, 1, 100), 'size')
        self.acts = [ctx.pick(('random', 'seed', 'system', 'refused', 'cut', 'renew', 'clear', 'failing'), 'what',
                              (5, 3, 2, 2, 2, 3, 2, 2)) for _ in ctx.repeat(1, 3, 'act', 50)]
        self.at = ctx.small(1, 300, 'at')
        self.label = 'prng %s' % ', '.join(self.acts)
        self.weight = sum({'random': 12 * (1 + self.size // 64), 'cut': 14, 'renew': 2}.get(k, 1) for k in self.acts)
        self.obj = self.track(self.make(0))

    def make(self, i):
        return self.ctx.gost.gostrandom.new(self.size, rand_k=fresh_bytes(self.size_s, 'seed', self.n, i),
                                            size_s=self.size_s)

    def round(self, i):
        for k in self.acts:
            if k == 'random':
                self.obj.random()
            elif k == 'seed':
                self.obj.reset(fresh_bytes(self.size_s, 'reseed', self.n, i))
            elif k == 'system':
                self.obj.reset()
            elif k == 'refused':
                quietly(self.obj.reset, fresh_bytes(7, i))
            elif k == 'cut':
                if trip(self.obj.random, self.at + i % 7):
                    self.ctx.fault('interrupt.' + EXCS[(self.at + i % 7) % 3].__name__)
            elif k == 'renew':
                self.recycle(lambda: self.make(i))
            elif k == 'clear':
                self.obj.clear()
                quietly(self.obj.random)
                self.obj.reset(fresh_bytes(self.size_s, 'again', self.n, i))
            else:
                self.source.script.append(no_randomness)
                quietly(self.obj.reset)


class PbkdfUse(Use):
    def __init__(self, ctx, n):
        super().__init__(ctx, n)
        self.count = ctx.pick((1, 2), 'count')
        self.acts = [ctx.pick(('derive', 'hexderive', 'salt', 'refused', 'renew', 'own-salt', 'ctor-refused', 'cut'), 'what',
                              (5, 3, 2, 2, 4, 2, 2, 2)) for _ in ctx.repeat(1, 2, 'act', 50)]
        self.size = ctx.pick((32, 64, 100), 'dk')
        self.at = ctx.small(1, 2000, 'at')
        self.label = 'pbkdf %s' % ', '.join(self.acts)
        self.weight = sum({'derive': 40 * self.count, 'hexderive': 40 * self.count, 'cut': 20}.get(k, 2) for k in self.acts)
        self.obj = self.track(self.make(0))

    def make(self, i, **kw):
        if not kw:
            kw = {'salt': fresh_bytes(16, 'salt', self.n, i)}
        return self.ctx.gost.gostpbkdf.new(fresh_bytes(12, 'pw', self.n, i), counter=self.count, **kw)

    def round(self, i):
        for k in self.acts:
            if k == 'derive':
                self.obj.derive(self.size + i % 3)
            elif k == 'hexderive':
                self.obj.hexderive(self.size)
            elif k == 'salt':
                self.obj.salt
            elif k == 'refused':
                quietly(self.obj.derive, 2 ** 40 + i)
            elif k == 'renew':
                self.recycle(lambda: self.make(i))
            elif k == 'own-salt':
                self.recycle(lambda: self.ctx.gost.gostpbkdf.new(fresh_bytes(9, i), counter=self.count))
            elif k == 'cut':
                if trip(lambda: self.obj.derive(self.size), self.at + i % 7):
                    self.ctx.fault('interrupt.' + EXCS[(self.at + i % 7) % 3].__name__)
            else:
                quietly(lambda: self.make(i, salt='text %d' % i))
                quietly(self.ctx.gost.gostpbkdf.new, fresh_bytes(65, i))


class SignUse(Use):
    def __init__(self, ctx, n):
        super().__init__(ctx, n)
        g = ctx.gost.gostsignature
        self.curve = ec.CURVES[ctx.pick(sorted(ec.CURVES), 'curve')]
        self.mode = g.MODE_256 if self.curve.size == 32 else g.MODE_512
        self.acts = [ctx.pick(('sign', 'own', 'verify', 'wrong', 'public', 'refused', 'renew', 'ctor-refused', 'cut'), 'what',
                              (4, 3, 3, 2, 3, 2, 3, 2, 2)) for _ in ctx.repeat(1, 2, 'act', 50)]
        self.at = ctx.small(1, 2000, 'at')
        self.label = 'sign/%s %s' % (self.curve.name, ', '.join(self.acts))
        big = 2 if self.curve.size == 64 else 1
        self.weight = big * sum({'own': 8, 'sign': 8, 'verify': 16, 'wrong': 16, 'public': 8, 'cut': 8,
                                 'refused': 1}.get(k, 10) for k in self.acts)
        self.obj = self.track(self.make(0))

    def make(self, i):
        g = self.ctx.gost.gostsignature
        c = self.curve
        if i % 2:
            return g.new(self.mode, dict(p=c.p, a=c.a, b=c.b, m=c.q * c.cofactor, q=c.q, x=c.g[0], y=c.g[1]))
        return g.new(self.mode, g.CURVES_R_1323565_1_024_2019[c.name])

    def round(self, i):
        c = self.curve
        n = c.size
        key = (3 + i * 37 % 200).to_bytes(n, 'big')
        dig = fresh_bytes(n, 'dig', self.n, i)
        nonce = (2 + i * 37 % 250).to_bytes(n, 'big')
        for k in self.acts:
            if k == 'sign':
                quietly(self.obj.sign, key, dig, nonce)
            elif k == 'own':
                self.obj.sign(key, dig)
            elif k in ('verify', 'wrong'):
                # small multipliers: the signature need not be genuine
                z1, z2 = 1 + i * 37 % 200, 2 + i * 3 % 200
                d = 3 + i % 17
                pt = c.mul((z1 + z2 * d) % c.q)
                r = 0 if pt is None else pt[0] % c.q
                e = -r * pow(z2, -1, c.q) % c.q
                if r and e:
                    if k == 'wrong':
                        z1 += 1
                    quietly(self.obj.verify, c.public(d), e.to_bytes(n, 'big'), c.pack(r, z1 * e % c.q))
            elif k == 'public':
                self.obj.public_key_generate(key)
            elif k == 'refused':
                quietly(self.obj.sign, key[1:], dig)
                quietly(self.obj.verify, key, dig, dig)
            elif k == 'renew':
                self.recycle(lambda: self.make(i))
            elif k == 'cut':
                if trip(lambda: self.obj.sign(key, dig, nonce), self.at + i % 7):
                    self.ctx.fault('interrupt.' + EXCS[(self.at + i % 7) % 3].__name__)
            else:
                quietly(self.ctx.gost.gostsignature.new, 77, {})
                quietly(self.ctx.gost.gostsignature.new, self.mode, {'p': c.p, 'q': c.q + i})


USES = (HashUse, CipherUse, PrngUse, PbkdfUse, SignUse)


def usage(ctx):
    ctx.allow_unraisable = True
    with Entropy(ctx) as src:
        small_entropy()
        PrngUse.source = src
        uses = []
        for _ in ctx.repeat(1, 3, 'use', 40):
            u = ctx.pick(USES, 'kind', (5, 8, 3, 3, 3))(ctx, len(uses))
            ctx.log('use', u.label)
            if isinstance(u, HashUse):
                u.restart = ctx.flag(30, 'restart')
            uses.append(u)
        budget = 800 if ctx.tier == 'quick' else 3000
        total = sum(u.weight for u in uses)
        rounds = max(24, min(150, int(budget / total)))
        ctx.log('rounds', rounds)
        sizes = []
        done = [0]

        def phase():
            for _ in range(rounds):
                done[0] += 1
                for u in uses:
                    u.round(done[0])
                    ctx.steps += len(u.acts)
            gc.collect()
            sizes.append(reachable(*[r for u in uses for r in u.roots()]))
            ctx.sim_time += rounds
            for u in uses:
                # the live one, and nothing else
                ctx.expect(u.leftover() <= 1, 'not-freed', lambda: '%s: dropped objects are still alive' % u.label)
        for _ in range(PHASES):
            phase()
        grown = [b - a for a, b in zip(sizes, sizes[1:])]
        ctx.log('sizes', *grown)
        least = max(rounds, 100)
        if min(grown) >= least and grown[-1] >= 0.5 * sum(grown[:-1]) / len(grown[:-1]):
            # a bounded cache fills up and stops: go on much longer before calling it growth
            ctx.probe('growth followed up')
            while len(sizes) < LONG and done[0] < 8000:
                phase()
                if sizes[-1] - sizes[-2] < least / 4:
                    return
            raise Violation('growing', 'after each %d rounds of %s the memory held grew by %s bytes' % (
                rounds, '; '.join(u.label for u in uses), ', '.join(map(str, grown))))
        if any(k == 'renew' for u in uses for k in [a if isinstance(a, str) else a[0] for a in u.acts]):
            ctx.fault('objects-dropped')
        if any(k.endswith('refused') for u in uses for k in [a if isinstance(a, str) else a[0] for a in u.acts]):
            ctx.fault('refused-calls')
