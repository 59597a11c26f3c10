"""Independent objects used by pre-empted threads in one process."""

import copy

from ..core import InjectedInterrupt, InjectedMemoryError, InjectedTimeout, SimHang, Violation
from ..sched import Sched, refine
from ..world import BufferPool, Entropy
from .kit import MODES, CipherActor, actor, bulk_run, bulky, do, settle_op

LEVEL = 'exploration'
SCENARIOS = [('threads', 8), ('succession', 6), ('handlers', 5)]
SPECIAL = ['crowd'] * 30 + ['throng'] * 10 + ['brief'] * 80 + ['long_threads'] * 90
QUICK_RUNS = 1900
RULE = ('Each run: 2-4 threads, each creating, using and destroying its own objects of decided kinds (often the same '
        'kind or even the same parameters as another thread), pre-empted at decided source lines or expressions of the '
        'library; a thread may have a call cut short by an exception, or use '
        'other objects in the middle of one (signal handler, finaliser); every result is compared with what the object '
        'gives alone.  Without threads: dozens of short-lived objects of one kind follow and overlap each other.  Fixed extra runs: up to '
        '300 objects alive at once, called in turn and again.')
REAL = ['gostcrypto (whole package, unmodified working tree, imported afresh in every run)',
        'Python threads (one released at a time)']
STUB = ['thread scheduler', 'operating-system random source', 'application I/O buffers',
        'garbage collector (reference counting only)']
ASSUMPTIONS = ['threads switch only between Python expressions, as the interpreter lock guarantees',
               'the reference functions in sim/models agree with the standards (validated on published vectors)']

WEIGHTS = (4, 4, 4, 9, 3, 1, 1)
KINDS = ('hash', 'hmac', 'mac', 'cipher', 'prng', 'pbkdf', 'sign')
ALGS = ('magma', 'kuznechik')
COSTLY = ('pbkdf', 'sign')


def choose(ctx, team, spent):
    """A new actor; often like one that another thread already has."""
    if ctx.only is not None:
        kind, mode = ctx.only
        if team and ctx.flag(20, 'like.params'):
            return copy.copy(ctx.pick(team, 'like.who'))
        b = CipherActor(ctx, mode) if mode else actor(ctx, (kind,), (1,))
        b.kind = kind
        return b
    if team and ctx.flag(45, 'like'):
        a = ctx.pick(team, 'like.who')
        if a.kind in COSTLY and spent[0] >= 1:
            return actor(ctx, KINDS[:4], WEIGHTS[:4])
        if ctx.flag(40, 'like.params'):
            return copy.copy(a)
        if a.kind == 'cipher' and ctx.flag(60, 'like.mode'):
            b = CipherActor(ctx, a.mode)
            b.kind = a.kind
        else:
            b = actor(ctx, (a.kind,), (1,))
    else:
        kinds = KINDS if spent[0] < 1 else KINDS[:5]
        b = actor(ctx, kinds, WEIGHTS)
    if b.kind in COSTLY:
        spent[0] += 1
    return b


def interrupted(ctx, sched, a, obj, op, pool):
    exc = ctx.pick((InjectedInterrupt, InjectedMemoryError, InjectedTimeout), 'exc')()
    sched.inject(ctx.small(0, 3000, 'bomb'), exc)
    out, err = ctx.attempt(op.name, op.run, obj, pool.wrap)
    fired = sched.disarm()
    pool.settle()
    if not fired:
        if err is not None:
            ctx.call(op.name, reraise, err)
        settle_op(ctx, a, op, out)
        return False
    return True


def reraise(err):
    raise err


def handled(ctx, sched, team, i, a, obj, op, pool):
    """In the middle of the call the same thread serves a signal or a finaliser that uses other objects."""
    found = []
    guest = team[1 - i] if len(team) > 1 and ctx.flag(60, 'guest.other') else (None, None, None)

    def handler():
        extra = BufferPool(ctx)
        try:
            b, it = guest[1], guest[2]
            if it is None:
                if hasattr(a, 'alg') and ctx.flag(50, 'guest.alg'):
                    # the same block cipher in the middle of itself
                    ctx.algs = (a.alg,)
                    b = actor(ctx, ('mac', 'cipher'), (1, 2))
                    ctx.algs = ALGS
                elif a.kind not in COSTLY and ctx.flag(60, 'guest.like'):
                    b = actor(ctx, (a.kind,), (1,))
                else:
                    b = actor(ctx, KINDS[:5], WEIGHTS[:5])
                ctx.log('new', b.label)
                it = ctx.call('new ' + b.label, b.new, ctx.gost, extra.wrap)
                extra.settle()
            for _ in ctx.repeat(1, 2, 'guest.step', 40):
                inner = b.gen(ctx)
                ctx.log('handler', b.label, inner.name)
                do(ctx, b, it, inner, extra.wrap, 'in a handler')
                extra.settle()
        except (Violation, SimHang) as e:
            found.append(e)
    sched.inject(ctx.small(0, 3000, 'bomb'), handler)
    try:
        do(ctx, a, obj, op, pool.wrap)
    finally:
        sched.disarm()
        if found:
            raise found[0]
    pool.settle()


def body(ctx, sched, team, handlers=8):
    """team: list of (pristine actor, live actor, object or None)"""
    def run():
        pool = BufferPool(ctx)
        for n in ctx.repeat(2, 6, 'tstep', 80):
            i = ctx.int(0, len(team) - 1, 'who')
            pristine, a, obj = team[i]
            if obj is None:
                if pristine.kind not in COSTLY and ctx.flag(40, 'successor'):
                    # another object, perhaps in the place the last one had in memory
                    pristine = actor(ctx, (pristine.kind,), (1,))
                a = copy.copy(pristine)
                ctx.log('new', a.label)
                obj = ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)
                pool.settle()
                team[i] = (pristine, a, obj)
            if ctx.flag(10, 'destroy'):
                ctx.fault('destroy')
                ctx.log('destroy', a.label)
                team[i] = (pristine, None, None)
                obj = None
                continue
            op = a.gen(ctx)
            ctx.log('do', a.label, op.name)
            if ctx.flag(8, 'interrupt'):
                if interrupted(ctx, sched, a, obj, op, pool):
                    team[i] = (pristine, None, None)
                    obj = None
                continue
            if ctx.flag(handlers, 'handler'):
                handled(ctx, sched, team, i, a, obj, op, pool)
                continue
            do(ctx, a, obj, op, pool.wrap)
            pool.settle()
    return run


def handlers(ctx):
    """One thread whose calls are interleaved with what its signal handlers and finalisers do."""
    threads(ctx, 1, 70)


def threads(ctx, most=4, share=8):
    pool = BufferPool(ctx)
    ctx.alike = ctx.flag(45, 'coinciding')
    bulk_run(ctx, 3, 1024)
    ctx.spent_generators = True
    spent = [0]
    everyone = []
    teams = []
    for t in ctx.repeat(min(2, most), most, 'thread', 40):
        team = []
        for _ in ctx.repeat(1, 2, 'member', 35 if most > 1 else 80):
            a = choose(ctx, everyone, spent)
            everyone.append(a)
            team.append((a, None, None))
            ctx.log('member', t, a.label)
        teams.append(team)
    kinds = {a.kind for a in everyone}
    refine(ctx, 2 if spent[0] else 6 if kinds & {'hash', 'hmac', 'prng'} else 50)
    for team in teams:
        for i, (a, live, obj) in enumerate(team):
            if ctx.flag(40, 'early'):
                live = copy.copy(a)
                obj = ctx.call('new ' + a.label, live.new, ctx.gost, pool.wrap)
                pool.settle()
                team[i] = (a, live, obj)
    with Entropy(ctx):
        sched = Sched(ctx)
        obj = None
        sched.run([body(ctx, sched, team, share) for team in teams])
        for team in teams:
            for pristine, a, obj in team:
                if obj is not None:
                    do(ctx, a, obj, a.final(ctx), pool.wrap, 'after all threads')
                    pool.settle()


def succession(ctx):
    """Many short-lived objects of one kind, used in turn, often with equal contents under different keys."""
    pool = BufferPool(ctx)
    ctx.alike = ctx.flag(70, 'coinciding')
    bulk_run(ctx, 5)
    ctx.spent_generators = True
    kind = ctx.pick(KINDS[:5] + ('sign', 'pbkdf'), 'kind', (2, 2, 2, 4, 1, 1, 1))
    mode = ctx.pick(MODES, 'mode') if kind == 'cipher' else None
    live = []
    with Entropy(ctx):
        for _ in ctx.repeat(4, 12 if kind == 'pbkdf' else 40, 'turn', 93):
            if len(live) < 2 or (len(live) < 5 and ctx.flag(30, 'another')):
                a = CipherActor(ctx, mode) if mode else actor(ctx, (kind,), (1,))
                ctx.log('new', a.label)
                live.append((a, ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)))
                pool.settle()
                ctx.fault('interleaved-call')
            i = ctx.int(0, len(live) - 1, 'who')
            a, obj = live[i]
            what = ctx.pick((0, 1, 2), 'what', (6, 2, 1))
            if what == 0:
                op = a.gen(ctx)
                ctx.log('do', a.label, op.name)
                do(ctx, a, obj, op, pool.wrap)
                pool.settle()
            else:
                b = None
                if ctx.flag(70, 'replace'):
                    b = CipherActor(ctx, mode) if mode else actor(ctx, (kind,), (1,))
                if what == 2:
                    ctx.attempt('clear', getattr(obj, 'clear', lambda: None))
                ctx.fault('destroy')
                ctx.log('replace' if b else 'destroy', a.label)
                if b is None:
                    live.pop(i)
                else:
                    # the new object probably takes the memory of the old one
                    live[i] = a = obj = None
                    live[i] = (b, ctx.call('new ' + b.label, b.new, ctx.gost, bytes))
            a = obj = None
        for a, obj in live:
            do(ctx, a, obj, a.final(ctx), pool.wrap, 'at the end')


def brief(ctx):
    """Objects that live for a single call, each in the place of the one before, often with equal contents."""
    pool = BufferPool(ctx)
    ctx.alike = True
    bulk_run(ctx, 6)
    kind = ctx.pick(KINDS[:5] + ('sign', 'pbkdf'), 'kind', (2, 2, 2, 8, 1, 1, 1))
    mode = ctx.pick(MODES, 'mode', (1, 2, 3, 3, 2)) if kind == 'cipher' else None
    obj = None
    with Entropy(ctx):
        for _ in ctx.repeat(4, 6 if kind in COSTLY else 40, 'turn', 97):
            a = CipherActor(ctx, mode) if mode else actor(ctx, (kind,), (1,))
            ctx.log('new', a.label)
            obj = None
            obj = ctx.call('new ' + a.label, a.new, ctx.gost, bytes)
            if mode and ctx.flag(60, 'one block'):
                op = a.op_crypt(ctx, n=a.bs)
            else:
                op = a.gen(ctx)
            ctx.log('do', a.label, op.name)
            do(ctx, a, obj, op, pool.wrap)
            ctx.fault('destroy')
            pool.settle()


def throng(ctx):
    crowd(ctx, 'cipher', 300)


def crowd(ctx, kind=None, n=None):
    """More objects of one kind alive than any table of a fixed size has room for; the first ones go on, too."""
    pool = BufferPool(ctx)
    ctx.alike = False
    kind = kind or ctx.pick(KINDS[:5] + ('sign', 'pbkdf'), 'kind', (2, 2, 3, 6, 2, 1, 1))
    n = n or ctx.pick((300, 140, 70, 40, 20), 'crowd', (4, 3, 2, 1, 1))
    fixed = n == 300 and kind == 'cipher'
    n = min(n, {'sign': 12, 'pbkdf': 20}.get(kind, n))
    mode = ctx.pick(MODES, 'mode', (1, 2, 2, 2, 4)) if kind == 'cipher' else None
    team = []

    def turn(a, obj, gen, where):
        op = gen(ctx)
        ctx.log('do', a.label, op.name)
        do(ctx, a, obj, op, pool.wrap, where)
        pool.settle()
    with Entropy(ctx):
        for i in range(n):
            a = CipherActor(ctx, mode) if mode else actor(ctx, (kind,), (1,))
            ctx.log('new', a.label)
            team.append((a, ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)))
            pool.settle()
            if ctx.flag(30, 'at once'):
                turn(*team[-1], a.gen, 'at once')
        ctx.fault('interleaved-call', n)
        ctx.probe('crowd of %d' % n)
        order = list(range(n))
        for k in range(1 if kind in COSTLY else 2):
            if ctx.flag(40, 'backwards'):
                order.reverse()
            for i in order:
                if n <= 40 or fixed or i < 3 or i > n - 3 or ctx.flag(50, 'again'):
                    turn(*team[i], team[i][0].gen if k == 0 else team[i][0].final, 'in turn')


def long_threads(ctx):
    """Objects of one kind, most pieces long."""
    bulky(ctx)
    kind = ctx.pick(KINDS[:4], 'kind', (1, 1, 2, 10))
    ctx.only = (kind, ctx.pick(MODES, 'mode') if kind == 'cipher' else None)
    if ctx.flag(70, 'one-alg'):
        ctx.algs = (ctx.pick(ALGS, 'alg'),)
    threads(ctx, share=15)
