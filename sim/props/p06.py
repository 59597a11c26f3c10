"""Trees of clones of hash and HMAC objects, sequentially and across threads."""

from ..sched import Sched
from .kit import HashActor, HmacActor, bulk_run, bulky, do
from ..world import BufferPool

LEVEL = 'exploration'
SCENARIOS = [('tree', 5), ('threads', 2)]
SPECIAL = ['lineage'] * 8 + ['long_threads'] * 30
QUICK_RUNS = 2400
RULE = ('Each run: a tree of clones grown from 1-2 hash/HMAC objects; feeding, digests, resets, clears, further '
        'clones and destructions hit decided members (in the second scenario from 2-4 pre-empted threads), and every '
        'live member is compared with its own one-shot reference.')
REAL = ['gostcrypto (whole package, unmodified working tree)', 'Python threads (one released at a time)']
STUB = ['thread scheduler', 'application I/O buffers', 'garbage collector (reference counting only)']
ASSUMPTIONS = ['the one-shot references in sim/models agree with the standard (validated on published vectors)']


class Node:
    def __init__(self, actor, obj, name):
        self.actor, self.obj, self.name = actor, obj, name
        self.cleared = False


def act(ctx, node, nodes, give, settle, names):
    """One step on one member."""
    a = node.actor
    hmac = isinstance(a, HmacActor)
    what = ctx.pick((0, 1, 2, 3, 4, 5), 'what', (7, 4, 5, 2, 3, 3))
    if what == 4 and not hmac:
        what = 0
    if node.cleared:
        # the member's key is gone; whatever is done with it must not disturb the others
        what = ctx.pick((0, 3, 4, 5, 6), 'dead.what')
    if what == 0:
        if node.cleared:
            ctx.attempt('update', node.obj.update, b'after clear')
            return
        op = a.op_update(ctx)
        ctx.log('feed', node.name, op.name)
        do(ctx, a, node.obj, op, give, 'on ' + node.name)
        settle()
    elif what == 1:
        ctx.log('digest', node.name)
        do(ctx, a, node.obj, a.op_digest(ctx), give, 'of ' + node.name)
    elif what == 2:
        if len(nodes) < 8:
            c = Node(a.fork(), ctx.call('copy', node.obj.copy), node.name + '.%d' % names[0])
            names[0] += 1
            ctx.log('clone', node.name, c.name)
            ctx.fault('clone')
            nodes.append(c)
            if ctx.flag(40, 'clone.look'):
                do(ctx, c.actor, c.obj, c.actor.op_digest(ctx), give, 'of fresh clone ' + c.name)
    elif what == 3:
        ctx.log('reset', node.name)
        ctx.fault('reset')
        ctx.call('reset', node.obj.reset)
        a.data = b''
    elif what == 4:
        ctx.log('clear', node.name)
        ctx.fault('clear')
        ctx.call('clear', node.obj.clear)
        node.cleared = True
    elif what == 5:
        ctx.log('destroy', node.name)
        ctx.fault('destroy')
        nodes.remove(node)
        node.obj = None
    elif what == 6:
        ctx.attempt('digest', node.obj.digest)


def look_at_all(ctx, nodes, give, where):
    for n in nodes:
        if not n.cleared:
            do(ctx, n.actor, n.obj, n.actor.op_digest(ctx), give, 'of %s %s' % (n.name, where))


def roots(ctx, pool):
    out = []
    for i in ctx.repeat(1, 2, 'root', 30):
        a = ctx.pick((HashActor, HmacActor), 'kind')(ctx)
        ctx.log('root', a.label, len(a.data))
        o = ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)
        pool.settle()
        out.append(Node(a, o, 'r%d' % i))
    return out


def tree(ctx):
    bulk_run(ctx)
    pool = BufferPool(ctx)
    nodes = roots(ctx, pool)
    names = [0]
    for _ in ctx.repeat(2, 22, 'step', 90):
        if not nodes:
            break
        act(ctx, ctx.pick(nodes, 'who'), nodes, pool.wrap, pool.settle, names)
        if ctx.flag(20, 'look'):
            look_at_all(ctx, nodes, pool.wrap, 'mid-life')
    look_at_all(ctx, nodes, pool.wrap, 'at the end')
    # the survivors must not have been watching each other through the last digest either
    if nodes and ctx.flag(50, 'again'):
        nodes.pop(0)
        look_at_all(ctx, nodes, pool.wrap, 'after the first died')


def threads(ctx):
    bulk_run(ctx, 3, 1024)
    pool = BufferPool(ctx)
    root = roots(ctx, pool)[0]
    if ctx.flag(50, 'prefeed'):
        do(ctx, root.actor, root.obj, root.actor.op_update(ctx), pool.wrap)
        pool.settle()
    groups = [[root]]
    for i in ctx.repeat(1, 3, 'member', 50):
        ctx.fault('clone')
        groups.append([Node(root.actor.fork(), ctx.call('copy', root.obj.copy), 'm%d' % i)])
    n = [0]

    def body(group):
        def run():
            names = [100 * n[0]]
            n[0] += 1
            mine = BufferPool(ctx)
            for _ in ctx.repeat(1, 5, 'tstep', 75):
                if not group:
                    return
                act(ctx, ctx.pick(group, 'who'), group, mine.wrap, mine.settle, names)
            look_at_all(ctx, group, mine.wrap, 'at the end of its thread')
        return run
    Sched(ctx).run([body(g) for g in groups])
    for g in groups:
        look_at_all(ctx, g, pool.wrap, 'after all threads')


def lineage(ctx):
    """Hundreds of generations, each fed a little; ancestors die in decided order."""
    pool = BufferPool(ctx)
    root = roots(ctx, pool)[0]
    names = [0]
    line = [root]
    gens = ctx.pick((40, 130, 300), 'generations')
    ctx.log('lineage', gens)
    for i in range(gens):
        prev = line[-1]
        c = Node(prev.actor.fork(), ctx.call('copy', prev.obj.copy), 'gen%d' % i)
        if i % 3 == 0:
            piece = bytes([i & 255]) * (i % 5)
            ctx.call('update', c.obj.update, piece)
            c.actor.data += piece
        line.append(c)
        ctx.fault('clone')
        if len(line) > 6:
            v = line.pop(ctx.int(0, len(line) - 2, 'dies'))
            if isinstance(v.actor, HmacActor) and ctx.flag(50, 'dies.cleared'):
                ctx.call('clear', v.obj.clear)
            else:
                ctx.call('reset', v.obj.reset)
            v.obj = None
    look_at_all(ctx, line, pool.wrap, 'at the end of the line')


def long_threads(ctx):
    bulky(ctx)
    threads(ctx)
