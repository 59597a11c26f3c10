"""Sessions of valid calls into which refused calls are injected."""

from ..world import BufferPool, Entropy
from .bad import bad_call, judge
from .kit import KINDS, actor, bulk_run, do

LEVEL = 'exploration'
SCENARIOS = [('session', 1)]
QUICK_RUNS = 7000
RULE = ('Each run: 1-2 objects of decided kinds live through decided histories into which refused calls are injected '
        '(wrong types, wrong sizes, unknown algorithms and modes, out-of-range requests, refused constructions beside '
        'them); each refusal is compared with the documented error, and the rest of the session with the reference of '
        'a session without it, or - for a key the object had to drop - with anything but the output under that key.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['caller mistakes', 'operating-system random source', 'application I/O buffers',
        'garbage collector (reference counting only)']
ASSUMPTIONS = ['the reference functions in sim/models agree with the standards (validated on published vectors)',
               'calls with more than one wrong argument are not claimed to give a particular message']


class Member:
    def __init__(self, a, obj):
        self.a, self.obj = a, obj
        self.dropped = False
        self.used = False


def after_drop(ctx, m, pool):
    """The object was told to drop its key: whatever it does now is not done under that key."""
    a = m.a
    if a.kind == 'cipher':
        n = max(len(a.iv or b''), a.bs)     # every block masked by what the register held when the key went
        op = a.op_crypt(ctx, n=n)
    elif ctx.flag(40, 'feed'):
        ctx.attempt('update', m.obj.update, pool.wrap(b'more'))
        op = a.op_digest(ctx)
    else:
        op = a.op_digest(ctx)
    want = op.want()
    out, err = ctx.attempt(op.name, op.run, m.obj, pool.wrap)
    pool.settle()
    ctx.log('after drop', a.label, op.name, 'error' if err is not None else 'output')
    # with a constant key Magma is an involution, so equal outputs mean nothing
    again, m.used = m.used, True
    if again or err is not None or len(want) < a.bs or len(set(a.key)) < 3:
        return
    if a.kind == 'mac':
        ctx.expect(out != want, 'dropped-key-used', lambda: '%s: %s gave the code under the dropped key' % (
            a.label, op.name))
        return
    # no whole block of the output may be the one the dropped key gives at this place
    same = [i for i in range(0, len(want) - a.bs + 1, a.bs) if bytes(out[i:i + a.bs]) == want[i:i + a.bs]]
    ctx.expect(not same, 'dropped-key-used', lambda: '%s: %s works under the dropped key' % (a.label, op.name))


def session(ctx):
    bulk_run(ctx)
    pool = BufferPool(ctx)
    with Entropy(ctx):
        members = []
        for _ in ctx.repeat(1, 2, 'member', 30):
            a = actor(ctx, tuple(KINDS), (4, 4, 5, 9, 3, 1, 1))
            ctx.log('new', a.label)
            members.append(Member(a, ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)))
            pool.settle()
        for _ in ctx.repeat(2, 12, 'step', 85):
            m = ctx.pick(members, 'who')
            a = m.a
            if ctx.flag(45, 'mistake'):
                bad = bad_call(ctx, a)
                ctx.fault('refused.' + a.kind)
                ctx.log('mistake', a.label, bad.name)
                out, err = ctx.attempt(bad.name, bad.run, ctx.gost, m.obj, pool.wrap)
                pool.settle()
                judge(ctx, a, bad, out, err)
                out = err = None
                ctx.expect(not ctx.unraisable, 'destructor-error', lambda: 'after %s: %s' % (bad.name, ctx.unraisable[0]))
                if bad.drops:
                    m.dropped = True
                continue
            if m.dropped:
                after_drop(ctx, m, pool)
                if ctx.flag(30, 'replace'):
                    members.remove(m)
                    m.obj = None
                    a.__init__(ctx)
                    members.append(Member(a, ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)))
                    pool.settle()
                continue
            op = a.gen(ctx)
            ctx.log('do', a.label, op.name)
            do(ctx, a, m.obj, op, pool.wrap, 'between refused calls')
            pool.settle()
        for m in members:
            if m.dropped:
                after_drop(ctx, m, pool)
            else:
                do(ctx, m.a, m.obj, m.a.final(ctx), pool.wrap, 'at the end')
                pool.settle()
