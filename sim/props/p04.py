"""Encrypted streams between crashing parties over a faulty network."""

from ..core import hx
from ..models import cipher
from ..world import BufferPool, Channel, World
from .kit import MODES

LEVEL = 'exploration'
SCENARIOS = [('sessions', 6), ('duplex', 1)]
SPECIAL = ['long_session'] * 48 + ['many_calls'] * 12
QUICK_RUNS = 8000
RULE = ('Each run: 1-3 encrypted sessions interleaved in one process; the sender encrypts call by call and '
        'crashes and resumes from durable ciphertext, the ciphertext crosses a faulty network, the receiver '
        'decrypts whatever whole blocks arrived and crashes and resumes likewise; every output is compared with a '
        'block-by-block reference of the mode.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['network', 'durable storage', 'event clock', 'process restart (objects dropped, resumed from stored data)',
        'application I/O buffers']
ASSUMPTIONS = ['the reference modes in sim/models agree with the standard (validated on published vectors at set-up)',
               'after a short piece in CFB/OFB the message is over (the session is not continued)',
               'procedure-2 padding adds a whole extra block when the data is block-aligned, as the shipped tests fix it']


class Session:
    def __init__(self, ctx, world, pool, name):
        self.ctx, self.world, self.pool, self.name = ctx, world, pool, name
        self.alg = ctx.pick(('magma', 'kuznechik'), 'alg', (3, 2))
        self.mode = ctx.pick(MODES, 'mode')
        self.bs = bs = 8 if self.alg == 'magma' else 16
        self.key = ctx.key(32, 'key')
        self.pad_mode = 1
        self.pad_explicit = False
        if self.mode in ('ecb', 'cbc'):
            self.pad_mode = ctx.pick((1, 2), 'pad', (2, 1))
            self.pad_explicit = ctx.flag(50, 'pad.explicit')
        self.iv = b''
        self.default_iv = False
        if self.mode == 'ctr':
            self.default_iv = ctx.flag(15, 'iv.default')
            self.iv = cipher.DEFAULT_IV[(self.alg, 'ctr')] if self.default_iv else ctx.data(bs // 2, 'iv')
        elif self.mode != 'ecb':
            self.default_iv = ctx.flag(15, 'iv.default')
            self.iv = cipher.DEFAULT_IV[(self.alg, self.mode)] if self.default_iv else ctx.data(
                bs * ctx.pick((1, 2, 3, 4, 7), 'iv.blocks', (5, 4, 3, 1, 1)), 'iv')
        self.m = len(self.iv) // bs if self.mode in ('cbc', 'cfb', 'ofb') else 0
        # what each call gets
        self.pieces = []
        for i in ctx.repeat(1, 7, 'piece', 75):
            n = bs * ctx.small(1, 6, 'piece.blocks')
            if self.mode in ('ecb', 'cbc') and self.pad_mode == 2 and ctx.flag(50, 'piece.short'):
                n -= ctx.int(1, bs, 'piece.cut')
                if n <= 0:
                    n = 1
            self.pieces.append(ctx.data(n, 'text'))
        if self.pad_mode == 1 and ctx.flag(60, 'short-end'):
            n = ctx.int(1, bs - 1, 'short-end.n')
            self.pieces.append(ctx.data(n, 'text'))
        if self.mode in ('ecb', 'cbc'):
            padded = [cipher.pad(bs, self.pad_mode, p) for p in self.pieces]
        else:
            padded = list(self.pieces)
        self.plain = b''.join(padded)
        self.bounds = [0]
        for p in padded:
            self.bounds.append(self.bounds[-1] + len(p))
        self.cipher = cipher.Session(self.alg, self.mode, self.key, self.iv).crypt(False, self.plain)
        ctx.log('session', name, self.alg, self.mode, self.pad_mode, len(self.iv), len(self.pieces), len(self.plain))
        self.channel = Channel(world, self.on_bytes, name)
        self.tx = None
        self.tx_at = 0              # piece index
        self.tx_iv = None           # published vector stored with the last durable piece
        self.rx = None
        self.rx_got = b''
        self.rx_done = 0
        self.rx_iv = None
        self.crashes = 0
        world.at(ctx.small(0, 5, 'start') if ctx.flag(60, 'soon') else ctx.int(100, 700, 'late'), self.step)

    # -- objects -----------------------------------------------------------
    def open(self, iv):
        gc = self.ctx.gost.gostcipher
        mode = {'ecb': gc.MODE_ECB, 'cbc': gc.MODE_CBC, 'cfb': gc.MODE_CFB, 'ofb': gc.MODE_OFB,
                'ctr': gc.MODE_CTR}[self.mode]
        kw = {}
        if self.mode in ('ecb', 'cbc') and (self.pad_explicit or self.pad_mode == 2):
            kw['pad_mode'] = gc.PAD_MODE_2 if self.pad_mode == 2 else gc.PAD_MODE_1
        if self.mode != 'ecb' and not (self.default_iv and iv is None):
            kw['init_vect'] = self.pool.wrap(self.iv if iv is None else iv)
        o = self.ctx.call('new %s-%s' % (self.mode, self.alg), gc.new, self.alg, self.pool.wrap(self.key), mode, **kw)
        self.pool.settle()
        return o

    def resume_vector(self, done, published):
        """The vector for a fresh object that must continue after ``done`` bytes, or None."""
        if self.mode in ('cbc', 'cfb'):
            if self.m == 1 and published is not None and self.ctx.flag(50, 'resume.published'):
                return published
            return (self.iv + self.cipher[:done])[-len(self.iv):] if done else self.iv
        if self.mode == 'ofb' and self.m == 1:
            return published if done else self.iv
        return None

    def check_iv(self, obj, decrypting, done):
        """The published vector is the newest block of the register."""
        if not self.m or done % self.bs:
            return None
        iv = self.ctx.call('iv', lambda: obj.iv)
        if self.mode in ('cbc', 'cfb'):
            want = (self.iv + self.cipher[:done])[-self.bs:]
        else:
            want = (self.iv + bytes(a ^ b for a, b in zip(self.cipher[:done], self.plain[:done])))[-self.bs:]
        self.ctx.same('wrong-iv', '%s iv after %d bytes' % (self.label(), done), iv, want)
        return bytes(iv)

    def label(self):
        return '%s-%s pad%d iv=%d' % (self.mode, self.alg, self.pad_mode, len(self.iv))

    # -- sender --------------------------------------------------------------
    def step(self):
        ctx = self.ctx
        if self.tx is None:
            self.tx = self.open(None)
        i = self.tx_at
        a, b = self.bounds[i], self.bounds[i + 1]
        buf = self.pool.wrap(self.pieces[i])
        out = ctx.call('encrypt', self.tx.encrypt, buf)
        self.pool.settle()
        ctx.log('encrypt', self.name, a, len(self.pieces[i]))
        ctx.same('wrong-ciphertext', '%s bytes %d-%d' % (self.label(), a, b), out, self.cipher[a:b])
        lost = self.crashes < 4 and ctx.flag(8, 'crash.before-durable')
        if not lost:
            self.tx_at += 1
            if ctx.flag(50, 'look.iv'):
                self.tx_iv = self.check_iv(self.tx, False, b)
            else:
                self.tx_iv = None
            self.channel.send(bytes(out))
        if self.tx_at < len(self.pieces):
            if lost or (self.crashes < 4 and ctx.flag(12, 'crash.sender')):
                self.crashes += 1
                done = self.bounds[self.tx_at]
                ctx.fault('crash.sender' if not lost else 'crash.sender-output-lost', self.name, done)
                self.tx = None
                self.restart_sender(done)
            self.world.at(ctx.small(1, 10, 'pace'), self.step)

    def restart_sender(self, done):
        ctx = self.ctx
        if self.mode == 'ecb':
            self.tx = self.open(None)
            return
        iv = None
        if not (self.mode == 'ofb' and self.m == 1 and done and self.tx_iv is None):
            iv = self.resume_vector(done, self.tx_iv)
        if iv is not None:
            ctx.probe('resumed-from-vector')
            self.tx = self.open(iv)
            self.tx_iv = None
            return
        # no way to seek: encrypt again from the start (the same bytes, so the same ciphertext)
        self.tx = self.open(None)
        at = 0
        while at < done:
            n = min(done - at, self.bs * ctx.small(1, 8, 'again'))
            out = ctx.call('encrypt', self.tx.encrypt, self.pool.wrap(self.plain[at:at + n]))
            self.pool.settle()
            ctx.same('wrong-ciphertext', '%s bytes %d-%d encrypted again' % (self.label(), at, at + n), out,
                     self.cipher[at:at + n])
            at += n

    # -- receiver --------------------------------------------------------------
    def on_bytes(self, chunk):
        ctx = self.ctx
        self.rx_got += chunk
        while True:
            avail = len(self.rx_got) - self.rx_done
            last = len(self.rx_got) == len(self.plain)
            n = avail - avail % self.bs
            if n > self.bs and not ctx.flag(40, 'rx.all'):
                n = self.bs * ctx.small(1, n // self.bs, 'rx.blocks')
            if last and n == avail - avail % self.bs:
                n = avail
            if n == 0 or (not last and ctx.flag(15, 'rx.wait')):
                return
            self.decrypt(n)
            if self.rx_done == len(self.plain):
                self.ctx.log('session over', self.name)
                self.tx = self.rx = None      # other sessions may still begin
            if self.rx_done < len(self.plain) and self.crashes < 4 and ctx.flag(12, 'crash.receiver'):
                self.crashes += 1
                ctx.fault('crash.receiver', self.name, self.rx_done)
                self.restart_receiver()

    def decrypt(self, n):
        ctx = self.ctx
        if self.rx is None:
            self.rx = self.open(None)
        a, b = self.rx_done, self.rx_done + n
        buf = self.pool.wrap(self.rx_got[a:b])
        out = ctx.call('decrypt', self.rx.decrypt, buf)
        self.pool.settle()
        ctx.log('decrypt', self.name, a, n)
        ctx.same('wrong-plaintext', '%s bytes %d-%d' % (self.label(), a, b), out, self.plain[a:b])
        self.rx_done = b
        self.rx_iv = self.check_iv(self.rx, True, b) if ctx.flag(50, 'look.iv') else None

    def restart_receiver(self):
        done = self.rx_done
        self.rx = None
        if self.mode == 'ecb':
            return
        iv = None
        if not (self.mode == 'ofb' and self.m == 1 and done and self.rx_iv is None):
            iv = self.resume_vector(done, self.rx_iv)
        if iv is not None:
            self.ctx.probe('resumed-from-vector')
            self.rx = self.open(iv)
            self.rx_iv = None
            return
        self.rx_done = 0
        while self.rx_done < done:
            self.decrypt(min(done - self.rx_done, self.bs * self.ctx.small(1, 8, 'again')))


def sessions(ctx):
    world = World(ctx)
    pool = BufferPool(ctx)
    ss = []
    for i in ctx.repeat(1, 3, 'session', 45):
        ss.append(Session(ctx, world, pool, 's%d' % i))
    world.run()
    for s in ss:
        if s.rx_done != len(s.plain) or s.tx_at != len(s.pieces):
            raise RuntimeError('session did not finish')


def duplex(ctx):
    """ECB holds no state: any order of calls in both directions on one object."""
    pool = BufferPool(ctx)
    alg = ctx.pick(('magma', 'kuznechik'), 'alg')
    bs = 8 if alg == 'magma' else 16
    gc = ctx.gost.gostcipher
    objs = []
    for i in ctx.repeat(1, 3, 'obj', 40):
        key = ctx.key(32, 'key')
        pad = ctx.pick((1, 2), 'pad')
        o = ctx.call('new ecb', gc.new, alg, pool.wrap(key), gc.MODE_ECB,
                     pad_mode=gc.PAD_MODE_2 if pad == 2 else gc.PAD_MODE_1)
        pool.settle()
        objs.append((o, cipher.Session(alg, 'ecb', key, None, pad), pad))
    for _ in ctx.repeat(2, 14, 'call', 85):
        o, ref, pad = ctx.pick(objs, 'which')
        dec = ctx.flag(45, 'decrypt')
        n = bs * ctx.small(1, 5, 'blocks') - (0 if dec else ctx.int(0, bs - 1, 'cut'))
        d = ctx.data(n, 'text')
        r = ctx.call('ecb call', o.decrypt if dec else o.encrypt, pool.wrap(d))
        pool.settle()
        ctx.log('ecb', dec, n)
        ctx.fault('interleaved-call')
        ctx.same('wrong-ciphertext', 'ecb-%s %s of %s' % (alg, 'decrypt' if dec else 'encrypt', hx(d)), r,
                 ref.crypt(dec, d))


def long_session(ctx):
    """A few very long calls; both directions, cut differently."""
    pool = BufferPool(ctx)
    gc = ctx.gost.gostcipher
    alg = ctx.pick(('magma', 'kuznechik'), 'alg')
    mode = ctx.pick(MODES, 'mode')
    bs = 8 if alg == 'magma' else 16
    key = ctx.key(32, 'key')
    kw = {}
    iv = None
    if mode == 'ctr':
        iv = ctx.data(bs // 2, 'iv')
    elif mode != 'ecb':
        iv = ctx.data(bs * ctx.pick((1, 2, 3, 7, 16, 40), 'iv.blocks'), 'iv')
    if iv is not None:
        kw['init_vect'] = iv
    if ctx.flag(40, 'round-size'):
        # sizes at which an implementation might split its work
        total = ctx.pick((2048, 4096, 8192, 16384, 32768, 65536), 'size', (2, 4, 3, 2, 1, 1))
        total += ctx.pick((0, bs, -bs, 1, -1), 'off', (4, 2, 1, 1, 1))
        cuts = (0, 4096 // bs, 1024 // bs, 8192 // bs, 65536 // bs)
    else:
        total = bs * ctx.pick((130, 258, 520, 1030, 4100), 'blocks', (2, 4, 3, 3, 2)) - ctx.pick((0, 1, bs - 1), 'short')
        cuts = (0, 256, 128, 257, 1024)
    pad = 1
    if mode in ('ecb', 'cbc') and ctx.flag(50, 'pad'):
        pad = 2
        kw['pad_mode'] = gc.PAD_MODE_2
    data = ctx.data(total, 'text')
    label = '%s-%s pad%d iv=%d, %d bytes' % (mode, alg, pad, len(iv or b''), total)
    ctx.log('long', label)
    consts = {'ecb': gc.MODE_ECB, 'cbc': gc.MODE_CBC, 'cfb': gc.MODE_CFB, 'ofb': gc.MODE_OFB, 'ctr': gc.MODE_CTR}
    plain = want = b''
    for dec in (False, True):
        o = ctx.call('new', gc.new, alg, pool.wrap(key), consts[mode], **kw)
        ref = cipher.Session(alg, mode, key, iv)
        src = want if dec else data
        pos = 0
        while pos < len(src):
            n = len(src) - pos
            k = ctx.pick(cuts + (1,), 'cut', (4, 2, 1, 1, 1, 1))
            if k and k * bs < n:
                n = k * bs
            ctx.fault('long-piece')
            out = ctx.call('crypt', o.decrypt if dec else o.encrypt, pool.wrap(src[pos:pos + n]))
            pool.settle(scribble=False)
            if dec:
                expected = plain[pos:pos + n]
            else:
                piece = src[pos:pos + n]
                if mode in ('ecb', 'cbc'):
                    piece = cipher.pad(bs, pad, piece)
                plain += piece
                expected = ref.crypt(False, piece)
                want += expected
            ctx.same('wrong-plaintext' if dec else 'wrong-ciphertext',
                     '%s: %s of bytes %d-%d' % (label, 'decryption' if dec else 'encryption', pos, pos + n),
                     out, expected)
            pos += n
        ctx.call('clear', o.clear)


def many_calls(ctx):
    """Hundreds of one-block calls in both directions on one pair of objects."""
    gc = ctx.gost.gostcipher
    alg = ctx.pick(('magma', 'kuznechik'), 'alg')
    mode = ctx.pick(MODES, 'mode')
    bs = 8 if alg == 'magma' else 16
    key = ctx.key(32, 'key')
    kw = {}
    iv = None
    if mode == 'ctr':
        iv = ctx.data(bs // 2, 'iv')
    elif mode != 'ecb':
        iv = ctx.data(bs * ctx.pick((1, 2, 3, 7), 'iv.blocks'), 'iv')
    if iv is not None:
        kw['init_vect'] = iv
    calls = ctx.pick((260, 520, 1030), 'calls')
    data = ctx.data(bs * calls, 'text')
    want = cipher.Session(alg, mode, key, iv).crypt(False, data)
    consts = {'ecb': gc.MODE_ECB, 'cbc': gc.MODE_CBC, 'cfb': gc.MODE_CFB, 'ofb': gc.MODE_OFB, 'ctr': gc.MODE_CTR}
    label = '%s-%s iv=%d' % (mode, alg, len(iv or b''))
    ctx.log('many', label, calls)
    ctx.fault('many-calls', calls)
    a = ctx.call('new', gc.new, alg, key, consts[mode], **kw)
    b = ctx.call('new', gc.new, alg, key, consts[mode], **kw)
    for i in range(0, len(data), bs):
        out = ctx.call('encrypt', a.encrypt, data[i:i + bs])
        ctx.same('wrong-ciphertext', '%s call %d' % (label, i // bs), out, want[i:i + bs])
        out = ctx.call('decrypt', b.decrypt, out)
        ctx.same('wrong-plaintext', '%s call %d' % (label, i // bs), out, data[i:i + bs])
