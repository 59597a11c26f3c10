"""One shared object, many threads, reading operations only."""

from ..core import SimHang, Violation
from ..sched import Sched, refine
from ..world import BufferPool, Entropy
from .kit import CipherActor, HashActor, HmacActor, MacActor, SignActor, bulk_run, bulky, do

LEVEL = 'exploration'
SCENARIOS = [('shared', 1)]
SPECIAL = ['long_shared'] * 60
QUICK_RUNS = 900
RULE = ('Each run: one object of a decided kind with a decided history is shared by 2-4 threads that only read it '
        '(digests and copies of a hash or HMAC, codes of a MAC, signing, verifying and key generation with one '
        'signature object, both directions of one ECB session), pre-empted at decided lines or expressions and '
        'interrupted by handlers that read, too; every '
        'result is compared with the result alone, and the state afterwards with the state before.')
REAL = ['gostcrypto (whole package, unmodified working tree, imported afresh in every run)',
        'Python threads (one released at a time)']
STUB = ['thread scheduler', 'operating-system random source', 'application I/O buffers']
ASSUMPTIONS = ['threads switch only between Python expressions, as the interpreter lock guarantees',
               'the reference functions in sim/models agree with the standards (validated on published vectors)']


class Signer(SignActor):
    """Remembers which nonces its signatures used."""

    def setup(self):
        self.nonces = []

    def op_sign_random(self, ctx):
        op = super().op_sign_random(ctx)
        check = op.check

        def checked(ctx, r, where):
            check(ctx, r, where)
            dig, sig = self.last
            k = self.curve.nonce_of(self.d, dig, sig)
            ctx.expect(k not in self.nonces, 'nonce-reused', lambda: 'two signatures used the nonce %x' % k)
            ctx.expect(any(x is not None and int.from_bytes(x, 'big') == k for x in self.source.draws), 'foreign-nonce',
                       lambda: 'the nonce %x was never drawn' % k)
            self.nonces.append(k)
        op.check = checked
        return op


def prepare(ctx, pool):
    kind = ctx.pick(('hash', 'hmac', 'mac', 'ecb', 'sign'), 'kind', (4, 4, 5, 5, 2))
    if kind == 'ecb':
        a = CipherActor(ctx, 'ecb')
    elif kind == 'sign':
        a = Signer(ctx)
        a.setup()
    else:
        a = {'hash': HashActor, 'hmac': HmacActor, 'mac': MacActor}[kind](ctx)
    refine(ctx, {'hash': 8, 'hmac': 6, 'sign': 3}.get(kind, 50))
    obj = ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)
    pool.settle()
    for _ in ctx.repeat(0, 3, 'history', 60):
        if kind in ('hash', 'hmac', 'mac'):
            do(ctx, a, obj, a.op_update(ctx), pool.wrap)
        else:
            do(ctx, a, obj, a.reads(ctx), pool.wrap)
        pool.settle()
    return kind, a, obj


def handled(ctx, sched, a, obj, op, pool, n):
    """In the middle of the reading call a handler of the same thread reads, too."""
    found = []

    def handler():
        extra = BufferPool(ctx)
        try:
            inner = a.reads(ctx)
            ctx.log('handler', n, inner.name)
            do(ctx, a, obj, inner, extra.wrap, 'in a handler')
            extra.settle()
        except (Violation, SimHang) as e:
            found.append(e)
    sched.inject(ctx.small(0, 3000, 'bomb'), handler)
    try:
        do(ctx, a, obj, op, pool.wrap, 'in thread %d' % n)
    finally:
        sched.disarm()
        if found:
            raise found[0]


def shared(ctx):
    bulk_run(ctx, 4, 1024)
    pool = BufferPool(ctx)
    with Entropy(ctx) as src:
        Signer.source = src
        kind, a, obj = prepare(ctx, pool)
        ctx.log('shared', a.label)
        most = 2 if kind == 'sign' else 4
        share = 60 if ctx.flag(15, 'handlers') else 6

        def body(n):
            def run():
                mine = BufferPool(ctx)
                for _ in ctx.repeat(1, most, 'read', 65):
                    op = a.reads(ctx)
                    ctx.log('read', n, op.name)
                    if ctx.flag(share, 'handler'):
                        handled(ctx, sched, a, obj, op, mine, n)
                    else:
                        do(ctx, a, obj, op, mine.wrap, 'in thread %d' % n)
                    mine.settle()
            return run
        threads = 2 + len(list(ctx.repeat(0, 2, 'thread', 40)))
        sched = Sched(ctx)
        sched.run([body(n) for n in range(threads)])
        # the object is where it was: read it, and go on with it
        do(ctx, a, obj, a.reads(ctx), pool.wrap, 'after all threads')
        for _ in ctx.repeat(0, 2, 'after', 60):
            do(ctx, a, obj, a.gen(ctx), pool.wrap, 'after all threads')
            pool.settle()
        do(ctx, a, obj, a.final(ctx), pool.wrap, 'at the end')


def long_shared(ctx):
    bulky(ctx)
    shared(ctx)
