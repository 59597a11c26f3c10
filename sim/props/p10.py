"""A password service that stores salts, restarts and re-derives keys."""

import errno

from ..core import InjectedMemoryError, InjectedOSError, hx
from .. import stubs
from ..models import streebog
from ..world import BufferPool, Entropy

LEVEL = 'exploration'
SCENARIOS = [('service', 1)]
SPECIAL = ['huge_count', 'very_many_blocks', 'standard_count', 'many_blocks', 'many_blocks', 'many_derivations', 'many_derivations',
           'count_127', 'count_128', 'count_129', 'count_255', 'count_256', 'count_257', 'count_513']
QUICK_RUNS = 900
RULE = ('Each run: a service registers users (salt supplied, or drawn from a source that may fail), stores the salts, '
        'then in decided order derives keys of decided lengths in either form, with crashes that drop every object and '
        'rebuild it from the stored salt, changes of password or iteration count, shared salts, clears, rejected requests and interleaved other users; each key is compared '
        'with the reference function, and prefixes with longer keys. Fixed extra runs use 1000 iterations, counts around '
        'powers of two, more than 255 output blocks, hundreds of derivations and - with a stand-in hash - more than 2**16 '
        'iterations and 5000 blocks.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['hash function (in two of the fixed extra runs only)', 'operating-system random source', 'salt storage', 'process crash', 'application I/O buffers']
ASSUMPTIONS = ['the reference function in sim/models agrees with the standard (validated on published vectors)']


class User:
    def __init__(self, name, password, count):
        self.name, self.password, self.count = name, password, count
        self.salt = None           # durable
        self.obj = None
        self.memo = b''

    def ref(self, n):
        if len(self.memo) < n:
            self.memo = streebog.pbkdf2(self.password, self.salt, self.count or 1000, n)
        return self.memo[:n]


def build(ctx, pool, u, salt=None):
    kw = {}
    if salt is not None:
        kw['salt'] = pool.wrap(salt)
    if u.count is not None:
        kw['counter'] = u.count
    return ctx.gost.gostpbkdf.new(pool.wrap(u.password), **kw)


def register(ctx, src, pool, u, salts):
    given = [v.salt for v in salts if v.salt]
    if given and ctx.flag(35, 'salt.shared'):
        u.salt = ctx.pick(given, 'salt.whose')
        u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
        pool.settle()
        ctx.log('register', u.name, 'shared salt')
    elif ctx.flag(60, 'salt.given'):
        u.salt = ctx.data(ctx.pick((8, 16, 32, 1, 60, 61, 64, 124, 200, 1000, 1020, 4096), 'salt.len', (3, 3, 3, 3, 3, 3, 3, 3, 3, 1, 1, 1)), 'salt')
        u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
        pool.settle()
        ctx.log('register', u.name, len(u.salt))
    else:
        how = ctx.pick(('good', 'error', 'memory'), 'source', (6, 1, 1))
        first = len(src.draws)
        if how != 'good':
            ctx.fault('entropy.' + how)

            def bad(n):
                raise InjectedOSError(errno.EIO, 'random source') if how == 'error' else InjectedMemoryError()
            src.script = [bad] * 8
        obj, err = ctx.attempt('new', build, ctx, pool, u)
        pool.settle()
        src.script = []
        if how != 'good':
            ctx.expect(err is not None, 'object-without-salt', 'the source failed but an object was created')
            ctx.log('registration failed', u.name)
            u.obj = ctx.call('new', build, ctx, pool, u)
            pool.settle()
            first = len(src.draws) - 1
        else:
            ctx.expect(err is None, 'unexpected-exception', lambda: 'new raised %s: %s' % (type(err).__name__, err))
            u.obj = obj
        u.salt = b''.join(x for x in src.draws[first:] if x)
        ctx.expect(len(u.salt) == 32, 'stale-salt', lambda: '%d fresh bytes were drawn for a salt' % len(u.salt))
        ctx.fault('system-salt')
        ctx.log('register', u.name)
    ctx.same('wrong-salt', 'reported salt of ' + u.name, ctx.call('salt', lambda: u.obj.salt), u.salt)


LENGTHS = (32, 64, 1, 63, 65, 128, 129, 200)


def length(ctx):
    if ctx.flag(3, 'long'):
        return ctx.pick((256, 512, 1000, 1024, 2100), 'n.long')
    return ctx.pick(LENGTHS, 'n')


def derive(ctx, u, n):
    if ctx.flag(35, 'hex'):
        got = ctx.call('hexderive', u.obj.hexderive, n)
        ctx.expect(isinstance(got, str) and got == u.ref(n).hex(), 'wrong-key', lambda: '%s hexderive(%d): %r, expected %s' % (
            u.name, n, got, u.ref(n).hex()))
    else:
        ctx.same('wrong-key', '%s derive(%d)' % (u.name, n), ctx.call('derive', u.obj.derive, n), u.ref(n))
    ctx.log('derive', u.name, n)


def service(ctx):
    pool = BufferPool(ctx)
    users = []
    with Entropy(ctx) as src:
        for i in ctx.repeat(1, 3, 'user', 50):
            password = ctx.key(ctx.pick((8, 64, 1, 20, 63, 32), 'pw.len'), 'pw')
            if users and ctx.flag(25, 'same-password'):
                password = users[0].password
            u = User('u%d' % i, password, ctx.pick((1, 2, 3, 5), 'count'))
            register(ctx, src, pool, u, users)
            users.append(u)
        for _ in ctx.repeat(2, 8, 'step', 85):
            u = ctx.pick(users, 'who')
            what = ctx.pick((0, 1, 2, 3, 4, 5), 'what', (8, 3, 1, 2, 1, 3))
            if what == 5:
                # the same salt goes on with another password or another number of iterations
                if ctx.flag(50, 'upgrade'):
                    u.count = ctx.pick((1, 2, 3, 4, 5), 'count.new')
                else:
                    u.password = ctx.key(len(u.password), 'pw.new')
                u.memo = b''
                ctx.fault('reconfigured')
                ctx.log('reconfigure', u.name, u.count)
                u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
                pool.settle()
                derive(ctx, u, length(ctx))
            elif what == 0:
                derive(ctx, u, length(ctx))
            elif what == 1:
                ctx.fault('crash-restart')
                ctx.log('crash')
                for v in users:
                    v.obj = None
                for v in users:
                    v.obj = ctx.call('new', build, ctx, pool, v, v.salt)
                    pool.settle()
            elif what == 2:
                ctx.fault('clear')
                ctx.log('clear', u.name)
                ctx.call('clear', u.obj.clear)
                u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
                pool.settle()
            elif what == 3:
                ctx.fault('rejected-request')
                n = 64 * (2 ** 32 - 1) + ctx.int(1, 1000, 'over')
                fn = u.obj.derive if ctx.flag(50, 'form') else u.obj.hexderive
                out, err = ctx.attempt('derive', fn, n)
                cls = ctx.gost.gostpbkdf.GOSTPBKDFError
                ctx.expect(type(err) is cls and str(err) == 'GOSTPBKDFError: invalid size of the derived key',
                           'undocumented-error', lambda: 'derive(%d): %r / %r' % (n, hx(out or b''), err))
                ctx.log('rejected', u.name)
            else:
                ctx.same('wrong-salt', 'reported salt of ' + u.name, ctx.call('salt', lambda: u.obj.salt), u.salt)
        for u in users:
            derive(ctx, u, length(ctx))


def standard_count(ctx):
    """The default of 1000 iterations, before and after a restart."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        u = User('default', ctx.key(16, 'pw'), None)
        register(ctx, src, pool, u, ())
        derive(ctx, u, 32)
        ctx.fault('crash-restart')
        u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
        pool.settle()
        derive(ctx, u, 16)


def many_blocks(ctx):
    """More than 255 output blocks: the block number needs a second byte."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        u = User('long', ctx.key(16, 'pw'), 1)
        register(ctx, src, pool, u, ())
        derive(ctx, u, 64 * 257 + ctx.int(0, 63, 'tail'))
        ctx.fault('crash-restart')
        u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
        pool.settle()
        derive(ctx, u, 64)


def many_derivations(ctx):
    """One object asked hundreds of times."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        u = User('busy', ctx.key(16, 'pw'), 1)
        register(ctx, src, pool, u, ())
        ctx.fault('many-calls')
        for _ in range(270):
            derive(ctx, u, ctx.pick((1, 16, 64), 'n', (4, 2, 1)))
        derive(ctx, u, 200)


def odd_count(ctx, count):
    """Iteration counts around powers of two and long salts."""
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        u = User('slow', ctx.key(ctx.pick((16, 64, 1), 'pw.len'), 'pw'), count)
        u.salt = ctx.data(ctx.pick((8, 255, 256, 257, 1024, 5000), 'salt.len'), 'salt')
        u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
        pool.settle()
        ctx.log('register', u.name, len(u.salt), count)
        ctx.same('wrong-salt', 'reported salt', ctx.call('salt', lambda: u.obj.salt), u.salt)
        derive(ctx, u, 32)
        ctx.fault('crash-restart')
        u.obj = ctx.call('new', build, ctx, pool, u, u.salt)
        pool.settle()
        derive(ctx, u, 20)


for _n in (127, 128, 129, 255, 256, 257, 513):
    globals()['count_%d' % _n] = lambda ctx, n=_n: odd_count(ctx, n)


def huge_count(ctx):
    """More than 2**16 iterations (with the stand-in hash)."""
    stand_in(ctx, 65537 + ctx.int(0, 200, 'count'), 32)


def very_many_blocks(ctx):
    """Thousands of blocks (with the stand-in hash)."""
    stand_in(ctx, 1, 64 * 5000 + ctx.int(0, 63, 'tail'))


def stand_in(ctx, count, n):
    password, salt = ctx.key(16, 'pw'), ctx.data(32, 'salt')

    def new(count):
        return ctx.gost.gostpbkdf.new(bytearray(password), salt=salt, counter=count)

    with Entropy(ctx):
        if not stubs.effective(ctx, lambda: bytes(new(3).derive(70)) == stubs.pbkdf2(password, salt, 3, 70)):
            return
        obj = ctx.call('new', new, count)
        ctx.same('wrong-key', '%d iterations, %d bytes' % (count, n), ctx.call('derive', obj.derive, n),
                 stubs.pbkdf2(password, salt, count, n))
        ctx.log('derive', count, n)
