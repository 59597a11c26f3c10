"""Calls cut short at a decided point by an exception from outside."""

from ..core import InjectedInterrupt, InjectedMemoryError, InjectedTimeout
from ..models import streebog
from ..sched import choose_point, interrupt, profile, refine
from ..world import BufferPool, Entropy
from .kit import KINDS, Op, actor, bulk_run, bulky, do, settle_op

LEVEL = 'exploration'
SCENARIOS = [('session', 1)]
SPECIAL = ['long_session'] * 80
QUICK_RUNS = 1100
RULE = ('Each run: 1-3 objects of decided kinds (clones included) with a decided history of calls; decided calls are '
        'first profiled on a twin to learn their points, then cut short at one of them (chosen by time or by place, '
        'first, last or any visit) with KeyboardInterrupt, MemoryError or a timeout; the object is then judged and '
        'used again as the property says, and every other object is compared with its reference.')
REAL = ['gostcrypto (whole package, unmodified working tree, imported afresh in every run)',
        "Python's copy module (interruptible too)"]
STUB = ['asynchronous interrupts (raised at a traced line or expression)', 'operating-system random source',
        'application I/O buffers']
ASSUMPTIONS = ['exceptions from outside arrive between Python expressions and not inside destructors',
               'the reference functions in sim/models agree with the standards (validated on published vectors)']

EXCS = (InjectedInterrupt, InjectedMemoryError, InjectedTimeout)


class Member:
    """A real object, its reference, and a twin that is used to learn the points of a call."""

    def __init__(self, ctx, a, name, obj=None, twin=None):
        self.a, self.name = a, name
        self.obj = obj
        self.twin = twin
        self.near_carry = False


def plain(b):
    return bytes(b)


def cut(ctx, m, run):
    """Run on the twin, then on the object with an interrupt.  -> (fired, value, err)"""
    seq, nlocs = profile(ctx, lambda: run(m.twin, plain))
    at = choose_point(ctx, seq, nlocs)
    if at is None:
        at = 1 << 60
    exc = ctx.pick(EXCS, 'exc')()
    return interrupt(ctx, lambda: run(m.obj, plain), at, exc)


def settled(ctx, m, op, value, err, where):
    """The call was not reached by the interrupt, or survived it."""
    if err is not None:
        ctx.expect(False, 'unexpected-exception', '%s %s raised %s: %s' % (m.a.label, op.name, type(err).__name__, err))
    settle_op(ctx, m.a, op, value, where)


def reset_clean(ctx, m):
    """After an interrupted update or reset: reset, perhaps interrupted itself, gives a clean object."""
    o = m.obj
    for _ in ctx.repeat(0, 3, 'poke', 40):
        what = ctx.pick((0, 1, 2, 3), 'poke.what')
        ctx.log('poke', what)
        if what == 0:
            ctx.attempt('digest', o.digest)
        elif what == 1:
            ctx.attempt('update', o.update, b'in a torn state')
        elif what == 2:
            r, err = ctx.attempt('copy', o.copy)
            if err is None and ctx.flag(50, 'use-copy'):
                ctx.probe('torn-copy-used')
                m.obj = o = r
        else:
            exc = ctx.pick(EXCS, 'exc')()
            interrupt(ctx, o.reset, ctx.small(0, 12, 'reset.at'), exc)
    ctx.call('reset', o.reset)
    ctx.call('reset', m.twin.reset)
    m.a.data = b''


def prng_after(ctx, m, cands):
    """The next outputs must continue one of the candidate positions (seed, index)."""
    a = m.a
    first = True
    while True:
        out = ctx.call('random', m.obj.random)
        keep = []
        for seed, i in cands:
            want, nxt = streebog.prng_output(seed, i, a.size)
            if bytes(out) == want:
                keep.append((seed, nxt))
        ctx.expect(keep, 'off-sequence', lambda: '%s: after an interrupted call the output %s is %s' % (
            a.label, bytes(out).hex()[:64], 'not the continuation of its sequence'))
        cands = list(dict.fromkeys(keep))
        if len(cands) == 1 and not (first and ctx.flag(50, 'more')):
            break
        first = False
    a.seed, a.index = cands[0]


def system_reseed(src):
    return Op('reset from the system', lambda o, give: o.reset(), want=lambda: None, effect=lambda: None)


def interrupted_call(ctx, m, src):
    """-> False if the object is given up."""
    a, kind = m.a, m.a.kind
    how = ctx.pick((0, 1), 'target', (3, 2)) if kind not in ('prng', 'pbkdf') else 0
    if kind == 'prng' and ctx.flag(20, 'system'):
        op = system_reseed(src)
    elif m.near_carry and ctx.flag(75, 'cross'):
        m.near_carry = False
        op = a.op_crypt(ctx, n=a.bs * ctx.int(5, 8, 'blocks'))
    elif how == 1:
        op = a.reads(ctx)
    else:
        op = a.gen(ctx)
    drawn = len(src.draws)
    fired, value, err = cut(ctx, m, op.run)
    ctx.log('cut', m.name, op.name, fired, 'survived' if err is None else type(err).__name__)
    if kind == 'prng':
        if op.name == 'random':
            if not fired or err is None:
                settled(ctx, m, op, value, err, 'uninterrupted')
                return True
            per = -(-a.size // 64)
            prng_after(ctx, m, [(a.seed, a.index + i) for i in range(per + 1)])
            return True
        if op.name.startswith('reset from'):
            new = [s for s in src.draws[drawn:] if s is not None and any(s)]
            old = (a.seed, a.index)
            ctx.expect(fired or (err is None and new), 'unexpected-exception', lambda: 'reset raised %s' % err)
            cands = [(s, 1) for s in new[1:]]            # the first draw was the twin's
            prng_after(ctx, m, ([old] if fired and err is not None else []) + cands)
            return True
        old = (a.seed, a.index)
        op.effect()
        if not fired or err is None:
            ctx.expect(err is None, 'unexpected-exception', lambda: 'reset raised %s' % err)
            return True
        prng_after(ctx, m, [old, (a.seed, a.index)])
        return True
    if not fired or err is None:
        settled(ctx, m, op, value, err, 'uninterrupted')
        return True
    if op.reads:
        # as if it had not been called; possibly simply tried again
        if ctx.flag(60, 'retry') and kind != 'sign':
            do(ctx, a, m.obj, op, plain, 'tried again after an interrupt')
        return True
    if kind in ('hash', 'hmac'):
        reset_clean(ctx, m)
        return True
    if kind == 'cipher' and a.mode == 'ctr':
        ref = a.ref
        start = ref.counter_at(0)
        ends = [bytes(ref.counter_at(i)) for i in range(-(-op.size // a.bs) + 1)]
        now = bytes(ctx.call('counter', lambda: m.obj.counter))
        ctx.expect(now in ends, 'counter-off', lambda: '%s: counter %s after an interrupted %s that began at %s' % (
            a.label, now.hex(), op.name, start.hex()))
        a.ref.ctr += ends.index(now)
        return True
    return False


def interrupted_construction(ctx, a, pool):
    seq, nlocs = profile(ctx, lambda: a.new(ctx.gost, plain))
    at = choose_point(ctx, seq, nlocs)
    if at is None:
        return
    exc = ctx.pick(EXCS, 'exc')()
    fired, value, err = interrupt(ctx, lambda: a.new(ctx.gost, plain), at, exc)
    ctx.log('cut construction', a.label, fired)


def fresh_member(ctx, n, pool, fine):
    # the more a call computes, the more it costs to follow it point by point
    a = actor(ctx, tuple(KINDS), (3, 2, 6, 9, 2, 0, 4) if fine else (20, 20, 18, 40, 16, 2, 12))
    if a.kind == 'prng':
        a.size = min(a.size, 64 if fine else 100)
    elif a.kind == 'pbkdf':
        a.count = 1 + a.count % 2
    if a.kind == 'cipher' and ctx.flag(35, 'ctr'):
        a = type(a)(ctx, 'ctr')
        a.kind = 'cipher'
    if a.kind == 'sign':
        if fine and not a.light:
            a = KINDS['sign'](ctx, light=100)
            a.kind = 'sign'
        ctx.probe('signer')
    ctx.log('new', a.label)
    if ctx.flag(20, 'cut-construction'):
        interrupted_construction(ctx, a, pool)
    obj = ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)
    twin = ctx.call('new ' + a.label, a.new, ctx.gost, plain)
    pool.settle()
    near = a.kind == 'cipher' and a.mode == 'ctr' and ctx.flag(40 if a.bs == 8 else 15, 'near-carry')
    if near:
        # close to a carry of the counter
        op = a.op_crypt(ctx, n=a.bs * (256 - ctx.int(0, 5, 'before-carry')))
        ctx.probe('near-carry')
        do(ctx, a, obj, op, plain, 'up to a carry')
        ctx.attempt('twin', op.run, twin, plain)
    m = Member(ctx, a, 'm%d' % n, obj, twin)
    m.near_carry = near
    return m


def ordinary(ctx, m, pool):
    op = m.a.gen(ctx)
    ctx.log('do', m.name, op.name)
    do(ctx, m.a, m.obj, op, pool.wrap, 'after interrupts')
    pool.settle()
    ctx.attempt('twin', op.run, m.twin, plain)


def session(ctx):
    ctx.allow_unraisable = True
    pool = BufferPool(ctx)
    bulk_run(ctx, 4, 1024)
    fine = refine(ctx, 12)
    with Entropy(ctx) as src:
        n = 0
        members = []
        for _ in ctx.repeat(1, 2, 'member', 35):
            members.append(fresh_member(ctx, n, pool, fine))
            n += 1
        for _ in ctx.repeat(2, 8, 'step', 80):
            m = ctx.pick(members, 'who')
            what = ctx.pick((0, 1, 2, 3), 'what', (4, 10, 2, 1))
            if what == 0:
                ordinary(ctx, m, pool)
            elif what == 1:
                if not interrupted_call(ctx, m, src):
                    ctx.probe('given-up')
                    members.remove(m)
                    if not members:
                        members.append(fresh_member(ctx, n, pool, fine))
                        n += 1
            elif what == 2:
                if m.a.kind in ('hash', 'hmac') and len(members) < 4:
                    c = Member(ctx, m.a.fork(), 'm%d' % n, ctx.call('copy', m.obj.copy),
                               ctx.call('copy', m.twin.copy))
                    n += 1
                    ctx.log('clone', m.name, c.name)
                    members.append(c)
            elif len(members) < 4:
                members.append(fresh_member(ctx, n, pool, fine))
                n += 1
        for m in members:
            do(ctx, m.a, m.obj, m.a.final(ctx), pool.wrap, 'at the end')
            pool.settle()


def long_session(ctx):
    bulky(ctx)
    session(ctx)
