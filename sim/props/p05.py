"""Counter-mode sessions fed with calls of any length in either direction."""

from .. import leap
from ..core import hx
from ..models import cipher
from ..world import BufferPool

LEVEL = 'exploration'
SCENARIOS = [('counters', 12), ('far', 1)]
SPECIAL = ['whale_magma', 'whale_kuznechik', 'single_call', 'single_call'] + ['round_calls'] * 20 + ['many_calls', 'many_calls']
QUICK_RUNS = 5000
RULE = ('Each run: 1-4 counter-mode sessions (some sharing a key under different vectors) receive interleaved '
        'calls of decided lengths and directions, with empty calls, partial blocks, bursts of hundreds of blocks, '
        'refused calls and restarts; outputs, published counters and keystream uniqueness are checked after '
        'every call against an integer-counter reference.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['call scheduler', 'application I/O buffers', 'process restart (objects dropped)']
ASSUMPTIONS = ['the reference block ciphers agree with the standard (validated on published vectors at set-up)',
               'positions past 2^16 blocks are reached by setting the counter forward in the object (sim/leap.py), '
               'after a trial has shown that the object then continues as the reference does']


class Counter:
    def __init__(self, ctx, pool, alg, key, iv, name, default):
        self.ctx, self.pool, self.alg, self.key, self.iv, self.name = ctx, pool, alg, key, iv, name
        self.bs = 8 if alg == 'magma' else 16
        self.default = default
        self.open()

    def open(self):
        ctx = self.ctx
        gc = ctx.gost.gostcipher
        kw = {} if self.default else {'init_vect': self.pool.wrap(self.iv)}
        self.obj = ctx.call('new ctr', gc.new, self.alg, self.pool.wrap(self.key), gc.MODE_CTR, **kw)
        self.pool.settle()
        self.ref = cipher.Session(self.alg, 'ctr', self.key, self.iv)
        self.sent = []
        self.look()

    def look(self):
        self.ctx.same('wrong-counter', '%s published counter' % self.name,
                      self.ctx.call('counter', lambda: self.obj.counter), self.ref.counter_at(0))

    def feed(self, data, dec, masks):
        ctx = self.ctx
        fn = self.obj.decrypt if dec else self.obj.encrypt
        out = ctx.call('ctr call', fn, self.pool.wrap(data))
        self.pool.settle()
        ctx.log('call', self.name, dec, len(data))
        first = self.ref.ctr
        want = self.ref.crypt(dec, data)
        ctx.same('wrong-keystream', '%s call of %d bytes at counter +%d' % (
            self.name, len(data), first - int.from_bytes(self.iv + bytes(self.bs // 2), 'big')), out, want)
        if masks is not None:
            mine = masks.setdefault((self.alg, self.key), {})
            for i in range(0, len(data) - self.bs + 1, self.bs):
                g = bytes(x ^ y for x, y in zip(data[i:i + self.bs], out[i:i + self.bs]))
                seen = mine.get(g)
                ctx.expect(seen is None or seen == (self.iv, first + i // self.bs), 'keystream-reused',
                           lambda: '%s: block masked with %s as before' % (self.name, hx(g)))
                mine[g] = (self.iv, first + i // self.bs)
        if ctx.flag(50, 'look'):
            self.look()


def counters(ctx):
    pool = BufferPool(ctx)
    masks = {}
    sessions = []
    used = set()
    key = None
    for i in ctx.repeat(1, 4, 'session', 55):
        alg = ctx.pick(('magma', 'kuznechik'), 'alg')
        bs = 8 if alg == 'magma' else 16
        if key is None or not ctx.flag(60, 'same-key'):
            key = ctx.key(32, 'key')
        default = ctx.flag(10, 'iv.default')
        iv = cipher.DEFAULT_IV[(alg, 'ctr')] if default else ctx.data(bs // 2, 'iv')
        if sessions and not default and ctx.flag(30, 'iv.near'):
            prev = sessions[-1]
            if len(prev.iv) == len(iv):           # neighbouring vectors
                iv = ((int.from_bytes(prev.iv, 'big') + 1) % (1 << (8 * len(iv)))).to_bytes(len(iv), 'big')
        if (alg, key, iv) in used:
            continue
        used.add((alg, key, iv))
        ctx.log('session', i, alg, iv)
        sessions.append(Counter(ctx, pool, alg, key, iv, 'c%d' % i, default))
    burst = ctx.flag(12, 'burst')
    for _ in ctx.repeat(1, 16, 'call', 85):
        s = ctx.pick(sessions, 'which')
        what = ctx.pick((0, 1, 2, 3, 4), 'what', (10, 5, 2, 1, 1))
        if what in (0, 1):
            n = ctx.small(0, 5 * s.bs, 'len') if what == 0 else max(
                0, s.bs * ctx.small(0, 6, 'blocks') + ctx.int(-1, 1, 'edge'))
            if burst and ctx.flag(35, 'burst.now'):
                n += s.bs * ctx.pick((250, 256, 300, 128), 'burst.blocks')
                ctx.fault('burst')
            s.feed(ctx.data(n, 'text'), ctx.flag(40, 'decrypt'), masks)
        elif what == 2:
            ctx.fault('empty-call')
            s.feed(b'', ctx.flag(40, 'decrypt'), masks)
        elif what == 3:
            ctx.fault('restart')
            # a restarted session under the same vector masks the same data again
            s.open()
        elif what == 4:
            s.look()
    for s in sessions:
        s.feed(ctx.data(2 * s.bs + 1, 'last'), False, masks)
        s.look()


def far(ctx):
    """A session set forward to shortly before a carry into the upper bytes of its counter."""
    pool = BufferPool(ctx)
    alg = ctx.pick(('magma', 'kuznechik'), 'alg')
    bs = 8 if alg == 'magma' else 16
    s = Counter(ctx, pool, alg, ctx.key(32, 'key'), ctx.data(bs // 2, 'iv'), 'far', False)
    for _ in ctx.repeat(0, 2, 'before', 50):
        s.feed(ctx.data(ctx.int(0, 3 * bs, 'n'), 'text'), ctx.flag(40, 'decrypt'), None)
    base = int.from_bytes(s.iv, 'big') << (4 * bs)
    spot = leap.find(s.obj, s.ref.ctr, bs)
    trial = None
    if spot is not None:
        spot.set(base + 0x10)
        trial = cipher.Session(alg, 'ctr', s.key, s.iv)
        trial.ctr = base + 0x10
        rest = leap.rest(s.obj, spot)
        out, err = ctx.attempt('trial', s.obj.encrypt, bytes(bs))
        if leap.rest(s.obj, spot) != rest:
            trial = None
        elif err is not None or bytes(out) != trial.crypt(False, bytes(bs)) or bytes(s.obj.counter) != trial.counter_at(0):
            trial = None
    if trial is None:
        ctx.probe('counter kept otherwise, no leap')
        return
    ctx.probe('leap')
    for _ in ctx.repeat(1, 3, 'leap', 40):
        s.ref.ctr = (base + leap.edge(ctx, 1, bs // 2 + 1)) % (1 << (8 * bs))
        spot.set(s.ref.ctr)
        ctx.fault('leap')
        ctx.log('leap', s.ref.counter_at(0))
        s.look()
        for _ in ctx.repeat(1, 4, 'call', 60):
            n = ctx.pick((100, 256, 512, 1024), 'blocks') * bs if ctx.flag(10, 'long') else ctx.small(0, 8 * bs, 'n')
            s.feed(ctx.data(n, 'text'), ctx.flag(40, 'decrypt'), None)
        s.look()


def _whale(ctx, alg, total):
    """One long session, past the 16-bit carry of the counter."""
    pool = BufferPool(ctx)
    bs = 8 if alg == 'magma' else 16
    s = Counter(ctx, pool, alg, ctx.key(32, 'key'), ctx.data(bs // 2, 'iv'), 'whale', False)
    start = s.ref.ctr
    while s.ref.ctr - start < total:
        n = ctx.pick((64, 63, 65, 127, 33), 'whale.blocks') * bs + ctx.pick((0, 0, 1, bs - 1), 'whale.rest')
        s.feed(ctx.data(n, 'text'), ctx.flag(30, 'decrypt'), None)
        ctx.fault('burst')
    s.look()


def whale_magma(ctx):
    _whale(ctx, 'magma', 65536 + 300)


def whale_kuznechik(ctx):
    _whale(ctx, 'kuznechik', 65536 + 300)


def single_call(ctx):
    """One huge call, then ordinary ones."""
    pool = BufferPool(ctx)
    alg = ctx.pick(('magma', 'kuznechik'), 'alg')
    bs = 8 if alg == 'magma' else 16
    s = Counter(ctx, pool, alg, ctx.key(32, 'key'), ctx.data(bs // 2, 'iv'), 'single', False)
    n = ctx.pick((1030, 4100, 8200), 'blocks') * bs + ctx.pick((0, 1, bs - 1), 'rest')
    ctx.fault('burst')
    s.feed(ctx.data(n, 'text'), ctx.flag(50, 'decrypt'), {})
    s.look()
    s.feed(ctx.data(3 * bs, 'text'), False, {})


def round_calls(ctx):
    """Long calls of sizes at which an implementation might split its work."""
    pool = BufferPool(ctx)
    alg = ctx.pick(('magma', 'kuznechik'), 'alg')
    bs = 8 if alg == 'magma' else 16
    s = Counter(ctx, pool, alg, ctx.key(32, 'key'), ctx.data(bs // 2, 'iv'), 'round', False)
    masks = {}
    for _ in ctx.repeat(1, 4, 'call', 70):
        n = ctx.pick((2048, 4096, 8192, 16384, 32768, 65536), 'size', (3, 4, 3, 2, 1, 1))
        n += ctx.pick((0, 1, -1, bs, -bs), 'off', (5, 1, 1, 1, 1))
        ctx.fault('burst')
        s.feed(ctx.data(n, 'text'), ctx.flag(50, 'decrypt'), masks)
        s.look()
    s.feed(ctx.data(2 * bs + 1, 'last'), False, masks)


def many_calls(ctx):
    """Hundreds of calls shorter than a block."""
    pool = BufferPool(ctx)
    alg = ctx.pick(('magma', 'kuznechik'), 'alg')
    bs = 8 if alg == 'magma' else 16
    s = Counter(ctx, pool, alg, ctx.key(32, 'key'), ctx.data(bs // 2, 'iv'), 'many', False)
    masks = {}
    ctx.fault('many-calls')
    for _ in range(ctx.pick((300, 600, 1100), 'calls')):
        s.feed(ctx.data(ctx.int(0, bs + 1, 'n'), 'text'), ctx.flag(50, 'decrypt'), masks)
    s.look()
