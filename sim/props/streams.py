"""Shared engine for the three incremental authenticators (hash, HMAC, MAC).

Several transfers run at once inside one simulated process.  Each transfer's
bytes come from a lossy network stream or a faulty disk; the receiving side
feeds whatever fragment it got to a real object, and meanwhile takes progress
digests, checkpoints, rolls back to a checkpoint, starts over, and reuses its
I/O buffers.  The reference hashes the whole prefix in one go.
"""

import random

from .. import leap
from ..core import InjectedOSError
from ..models import cipher, streebog
from ..world import BufferPool, Disk, Stream, World, cut_sizes


class HashKind:
    unit = 64
    can_copy = can_reset = True

    def __init__(self, ctx):
        self.g = ctx.gost.gosthash
        self.bits = ctx.pick((256, 512), 'bits')
        self.name = 'streebog%d' % self.bits

    def new(self, ctx, pool, data=None):
        if data is None:
            return ctx.call('hash new', self.g.new, self.name)
        return ctx.call('hash new', self.g.new, self.name, data=data)

    def ref(self, data):
        return streebog.streebog(self.bits, data)

    def observe(self, ctx, obj, data, where):
        want = self.ref(data)
        if ctx.flag(35, 'obs.hex'):
            got = ctx.call('hexdigest', obj.hexdigest)
            ctx.expect(got == want.hex(), 'wrong-digest', lambda: '%s of %d bytes %s: hexdigest %s, expected %s' % (
                self.name, len(data), where, got, want.hex()))
        else:
            ctx.same('wrong-digest', '%s of %d bytes %s' % (self.name, len(data), where),
                     ctx.call('digest', obj.digest), want)

    def long_ref(self, data):
        return streebog.Chain(self.bits, data).digest

    def describe(self):
        return self.name


class HmacKind(HashKind):
    def __init__(self, ctx):
        self.g = ctx.gost.gosthmac
        self.bits = ctx.pick((256, 512), 'bits')
        self.name = 'HMAC_GOSTR3411_2012_%d' % self.bits
        n = ctx.pick((32, 64, -1), 'keylen.kind', (3, 3, 4))
        if n < 0:
            n = ctx.int(1, 64, 'keylen')
        self.key = ctx.key(n, 'key')

    def new(self, ctx, pool, data=None):
        key = pool.wrap(self.key)
        if data is None:
            return ctx.call('hmac new', self.g.new, self.name, key)
        return ctx.call('hmac new', self.g.new, self.name, key, data=data)

    def ref(self, data):
        return streebog.hmac(self.bits, self.key, data)

    def long_ref(self, data):
        key = self.key + b'\x00' * (64 - len(self.key))
        inner = streebog.Chain(self.bits, bytes(b ^ 0x36 for b in key) + data)
        outer = bytes(b ^ 0x5c for b in key)
        return lambda upto: streebog.streebog(self.bits, outer + inner.digest(64 + upto))

    def describe(self):
        return '%s/%d-byte key' % (self.name, len(self.key))


class MacKind:
    can_copy = can_reset = False

    def __init__(self, ctx):
        self.g = ctx.gost.gostcipher
        self.alg = ctx.pick(('magma', 'kuznechik'), 'alg')
        self.unit = 8 if self.alg == 'magma' else 16
        self.key = ctx.key(32, 'key')
        self.name = 'mac-' + self.alg

    def new(self, ctx, pool, data=None):
        key = pool.wrap(self.key)
        if data is None:
            return ctx.call('mac new', self.g.new, self.alg, key, self.g.MODE_MAC)
        return ctx.call('mac new', self.g.new, self.alg, key, self.g.MODE_MAC, data=data)

    def ref(self, data):
        return cipher.mac(self.alg, self.key, data)

    def long_ref(self, data):
        return lambda upto: cipher.mac(self.alg, self.key, data[:upto])

    def observe(self, ctx, obj, data, where):
        size = self.unit
        if not ctx.flag(60, 'obs.full'):
            size = ctx.int(1, self.unit, 'obs.size')
        want = self.ref(data)[:size]
        if ctx.flag(35, 'obs.hex'):
            got = ctx.call('hexdigest', obj.hexdigest, size)
            ctx.expect(got == want.hex(), 'wrong-mac', lambda: '%s(%d) of %d bytes %s: hexdigest %s, expected %s' % (
                self.name, size, len(data), where, got, want.hex()))
        else:
            ctx.same('wrong-mac', '%s(%d) of %d bytes %s' % (self.name, size, len(data), where),
                     ctx.call('digest', obj.digest, size), want)

    def describe(self):
        return self.name


def payload_size(ctx, unit, big):
    style = ctx.pick((0, 1, 2, 3), 'len.style', (40, 40, 18, 2))
    if style == 0:
        return ctx.small(0, 6 * unit, 'len')
    if style == 1:
        return max(0, unit * ctx.small(0, 8, 'len.blocks') + ctx.int(-1, 1, 'len.edge'))
    if style == 2:
        return ctx.small(0, 24 * unit, 'len')
    return big + ctx.int(-2 * unit, 2 * unit, 'len.big')


class Transfer:
    def __init__(self, ctx, world, pool, kind, data, name):
        self.ctx = ctx
        self.world = world
        self.pool = pool
        self.kind = kind
        self.data = data
        self.name = name
        self.obj = None
        self.pos = 0                # bytes the object has been given
        self.saved = []             # (checkpoint object, position)
        self.trouble = 0
        self.done = False

    # feeding ------------------------------------------------------------
    def start(self):
        self.obj = self.kind.new(self.ctx, self.pool)
        self.pos = 0
        self.pool.settle()

    def feed(self, chunk):
        ctx = self.ctx
        ctx.log('feed', self.name, self.pos, len(chunk))
        buf = self.pool.wrap(chunk)
        if self.obj is None:
            self.obj = self.kind.new(ctx, self.pool, data=buf)
        else:
            r = ctx.call('update', self.obj.update, buf)
            ctx.expect(r is None, 'update-returned', lambda: 'update returned %r' % (r,))
        self.pos += len(chunk)
        self.pool.settle()

    def refeed(self, upto):
        """After a rollback, deliver again what was lost, cut differently."""
        for n in cut_sizes(self.ctx, upto - self.pos, self.kind.unit, 'again', max_parts=8):
            self.feed(self.data[self.pos:self.pos + n])

    def on_bytes(self, chunk):
        ctx = self.ctx
        if self.obj is None and not ctx.flag(40, 'ctor-data'):
            self.start()
        if len(chunk) > 1 and ctx.flag(30, 'recv.split'):
            cut = ctx.small(0, len(chunk), 'recv.cut')
            self.feed(chunk[:cut])
            self.maybe()
            chunk = chunk[cut:]
        self.feed(chunk)
        self.maybe()

    # things that happen in between ----------------------------------------
    def maybe(self):
        ctx = self.ctx
        for _ in ctx.repeat(0, 3, 'between', 30):
            what = ctx.pick((0, 1, 2, 3, 4, 5, 6), 'between.what', (5, 6, 4, 3, 2, 2, 2))
            if what == 0:
                self.kind.observe(ctx, self.obj, self.data[:self.pos], 'mid-stream')
            elif what == 1:
                self.feed(b'')
            elif what == 2 and self.kind.can_copy:
                c = ctx.call('copy', self.obj.copy)
                ctx.log('checkpoint', self.name, self.pos)
                self.saved.append((c, self.pos))
                self.saved = self.saved[-3:]
            elif what == 3 and self.saved and self.trouble < 5:
                self.trouble += 1
                ck, pos = ctx.pick(self.saved, 'ck')
                ctx.fault('rollback-to-checkpoint', self.name, self.pos, pos)
                upto = self.pos
                if ctx.flag(50, 'ck.keep'):
                    self.obj = ctx.call('copy', ck.copy)
                else:
                    self.saved = [(c, p) for c, p in self.saved if c is not ck]
                    self.obj = ck
                self.pos = pos
                self.refeed(upto)
            elif what == 4 and self.kind.can_reset and self.trouble < 5:
                self.trouble += 1
                ctx.fault('restart-by-reset', self.name, self.pos)
                upto = self.pos
                ctx.call('reset', self.obj.reset)
                self.pos = 0
                if ctx.flag(20, 'reset.observe'):
                    self.kind.observe(ctx, self.obj, b'', 'right after reset')
                self.refeed(upto)
            elif what == 5 and self.trouble < 5:
                self.trouble += 1
                ctx.fault('crash-restart', self.name, self.pos)
                upto = self.pos
                self.saved = []
                self.obj = None
                self.pos = 0
                if ctx.flag(50, 'crash.ctor'):
                    self.start()
                self.refeed(upto)
                if self.obj is None:
                    self.start()
            elif what == 6:
                self.kind.observe(ctx, self.obj, self.data[:self.pos], 'mid-stream')
                self.kind.observe(ctx, self.obj, self.data[:self.pos], 'asked twice')

    def on_end(self):
        ctx = self.ctx
        if self.obj is None:
            self.start()
        ctx.log('end', self.name, self.pos)
        if self.pos != len(self.data):
            raise RuntimeError('stream incomplete')
        self.kind.observe(ctx, self.obj, self.data, 'at end of stream (%s)' % self.kind.describe())
        for c, p in self.saved:
            self.kind.observe(ctx, c, self.data[:p], 'from an old checkpoint')
        self.done = True


def run_disk(ctx, world, t, data):
    disk = Disk(ctx, data)
    want = ctx.pick((64, 16, 128, 1, 37, 8, 65, 4096), 'disk.bufsize') if len(data) < 600 else 512

    def step():
        try:
            chunk = disk.read(want)
        except InterruptedError:
            world.at(1, step)
            return
        except InjectedOSError:
            # the read failed: reopen, continue where we were
            disk.seek(t.pos)
            world.at(5, step)
            return
        if not chunk:
            t.on_end()
            return
        t.on_bytes(chunk)
        world.at(1, step)
    world.at(1, step)


def scenario(ctx, kind_class, big):
    world = World(ctx)
    pool = BufferPool(ctx)
    ts = []
    first_kind = None
    for i in ctx.repeat(1, 3, 'transfer', 45):
        kind = kind_class(ctx)
        if first_kind is not None and ctx.flag(50, 'same-kind'):
            kind = first_kind
        first_kind = kind
        n = payload_size(ctx, kind.unit, big)
        data = ctx.data(n, 'payload')
        t = Transfer(ctx, world, pool, kind, data, 't%d' % i)
        ctx.log('transfer', t.name, kind.describe(), n)
        ts.append(t)
        if ctx.flag(60, 'net'):
            Stream(world, data, kind.unit, t.on_bytes, t.on_end, t.name)
        else:
            run_disk(ctx, world, t, data)
    world.run()
    for t in ts:
        if not t.done:
            raise RuntimeError('transfer did not finish')
    # objects are finished with; reuse one for another message, then let go
    if ctx.flag(25, 'reuse') and ts and ts[0].kind.can_reset:
        t = ts[0]
        ctx.call('reset', t.obj.reset)
        extra = ctx.data(ctx.small(0, 200, 'reuse.len'), 'reuse')
        t.data, t.pos = extra, 0
        t.refeed(len(extra))
        t.kind.observe(ctx, t.obj, extra, 'after reuse')


def whale(ctx, kind, total, marks, whole=False):
    """One long message: huge single pieces, many small ones, and progress codes on both
    sides of the lengths (``marks``) where a carry or a size limit could matter."""
    pool = BufferPool(ctx)
    unit = kind.unit
    if not (whole and ctx.flag(50, 'exact')):
        total += ctx.int(0, 3 * unit, 'len')
    data = ctx.data(total, 'payload')
    ref = kind.long_ref(data)
    ctx.log('whale', kind.describe(), total)
    obj = kind.new(ctx, pool)
    pool.settle(scribble=False)
    stops = sorted({total} | {m + ctx.int(-2, 2, 'mark') * ctx.pick((1, unit), 'mark.unit')
                              for m in marks for _ in range(2) if m + 2 * unit < total})
    pos = 0
    saved = []

    def check(o, upto, where):
        want = ref(upto)
        r = ctx.call('digest', o.digest, unit) if isinstance(kind, MacKind) else ctx.call('digest', o.digest)
        ctx.same('wrong-digest', '%s of %d bytes %s' % (kind.describe(), upto, where), r, want)

    for stop in stops:
        style = 0 if whole else ctx.pick((0, 1, 2), 'style', (3, 2, 2))
        while pos < stop:
            n = stop - pos
            if style == 1:
                n = min(n, unit * ctx.pick((128, 256, 257, 1000), 'blocks') + ctx.int(-1, 1, 'edge'))
            elif style == 2:
                n = min(n, ctx.pick((4096, 8192, 65536, 70000), 'size'))
            ctx.fault('long-piece')
            ctx.log('feed', pos, n)
            buf = pool.wrap(data[pos:pos + n])
            ctx.call('update', obj.update, buf)
            pool.settle(scribble=False)
            pos += n
        check(obj, pos, 'in a long stream')
        if kind.can_copy and len(saved) < 3:
            saved.append((ctx.call('copy', obj.copy), pos))
    check(obj, pos, 'asked again')
    for o, p in saved:
        n = min(total - p, ctx.small(0, 4 * unit, 'resume'))
        ctx.call('update', o.update, data[p:p + n])
        check(o, p + n, 'continued from a checkpoint')
    if kind.can_reset:
        ctx.call('reset', obj.reset)
        n = ctx.small(0, 3 * unit, 'reset')
        ctx.call('update', obj.update, data[:n])
        check(obj, n, 'after a long message and a reset')


def endurance(ctx, kind, updates):
    """One object used a great many times: tiny pieces, empty pieces, codes, copies, restarts."""
    pool = BufferPool(ctx)
    rnd = random.Random(ctx.int(0, 0xffffffff, 'sizes'))
    sizes = [rnd.choice((0, 0, 0, 1, 1, 2, 3)) for _ in range(updates)]
    if not any(sizes):
        sizes[-1] = 1
    data = ctx.data(sum(sizes), 'payload')
    ref = kind.long_ref(data)
    obj = kind.new(ctx, pool)
    pool.settle(scribble=False)
    looks = {255, 256, 257, 1023, 1024, 4096, 65535, 65536, 65537, updates - 1}
    looks |= {ctx.int(0, updates - 1, 'look') for _ in range(6)}
    ctx.log('endurance', kind.describe(), updates, len(data))
    ctx.fault('many-calls', updates)

    def check(o, upto, where):
        r = ctx.call('digest', o.digest, kind.unit) if isinstance(kind, MacKind) else ctx.call('digest', o.digest)
        ctx.same('wrong-digest', '%s of %d bytes %s' % (kind.describe(), upto, where), r, ref(upto))

    pos = 0
    early = None
    for i, n in enumerate(sizes):
        ctx.call('update', obj.update, data[pos:pos + n])
        pos += n
        if i in looks:
            check(obj, pos, 'after %d calls' % (i + 1))
        if i == 40 and kind.can_copy:
            early = (ctx.call('copy', obj.copy), pos)
    for i in range(ctx.pick((10, 300), 'codes')):
        check(obj, pos, 'code number %d' % i)
    if early is not None:
        check(early[0], early[1], 'from an early copy')
        o = early[0]
        chain = []
        for i in range(ctx.pick((10, 300), 'generations')):
            o = ctx.call('copy', o.copy)
            if i % 50 == 0:
                chain.append(o)
        for o in chain + [o]:
            check(o, early[1], 'from a distant descendant')
    if kind.can_reset:
        for i in range(ctx.pick((10, 300), 'restarts')):
            ctx.call('reset', obj.reset)
            n = 1 + i % 70 if i % 70 < len(data) else 1
            ctx.call('update', obj.update, data[:n])
            if i % 20 == 9:
                check(obj, n, 'after restart number %d' % i)
        check(obj, n, 'after the last restart')


def far(ctx, kind):
    """A hash or HMAC object whose length counter is set forward to shortly before a carry."""
    pool = BufferPool(ctx)
    keyed = isinstance(kind, HmacKind)
    data = ctx.data(64 * ctx.int(1, 4, 'head.blocks'), 'head')
    obj = kind.new(ctx, pool)
    pool.settle()
    at = 0
    while at < len(data):
        n = min(len(data) - at, 64 * ctx.int(1, 2, 'piece') + ctx.int(-1, 1, 'edge'))
        ctx.call('update', obj.update, pool.wrap(data[at:at + n]))
        pool.settle()
        at += n
    key = kind.key + bytes(64 - len(kind.key)) if keyed else b''
    head = bytes(b ^ 0x36 for b in key) + data
    n = 8 * len(head)

    def ref(skip, tail):
        inner = streebog.resumed(kind.bits, head, skip, tail)
        return streebog.streebog(kind.bits, bytes(b ^ 0x5c for b in key) + inner) if keyed else inner

    trial = ctx.call('copy', obj.copy)
    spot = leap.find(trial, n, 64)
    ok = spot is not None
    if ok:
        spot.set(n + 3 * 512)
        out, err = ctx.attempt('trial', trial.digest)
        ok = err is None and bytes(out) == ref(3 * 512, b'')
    if not ok:
        ctx.probe('length kept otherwise, no leap')
        return
    ctx.probe('leap')
    to = leap.edge(ctx, 3, 64, 512)
    spot = leap.find(obj, n, 64)
    if to <= n or spot is None:
        return
    spot.set(to)
    ctx.fault('leap')
    ctx.log('leap', '2^%d' % to.bit_length())
    tail = b''
    for _ in ctx.repeat(1, 6, 'piece', 75):
        piece = ctx.data(ctx.small(0, 200, 'len'), 'tail')
        ctx.call('update', obj.update, pool.wrap(piece))
        pool.settle()
        tail += piece
        if ctx.flag(50, 'look'):
            ctx.same('wrong-digest', '%s %d bytes after a length near 2^%d bits' % (kind.describe(), len(tail), to.bit_length()),
                     ctx.call('digest', obj.digest), ref(to - n, tail))
        if ctx.flag(15, 'copy'):
            obj = ctx.call('copy', obj.copy)
    ctx.same('wrong-digest', '%s %d bytes after a length near 2^%d bits' % (kind.describe(), len(tail), to.bit_length()),
             ctx.call('digest', obj.digest), ref(to - n, tail))
    ctx.call('reset', obj.reset)
    piece = ctx.data(ctx.small(0, 200, 'len'), 'reset')
    ctx.call('update', obj.update, piece)
    ctx.same('wrong-digest', '%s after a reset' % kind.describe(), ctx.call('digest', obj.digest), kind.ref(piece))
