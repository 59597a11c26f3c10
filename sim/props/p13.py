"""An application that owns, keeps, reuses and overwrites every buffer."""

from ..core import Violation, hx
from ..world import Entropy
from .bad import bad_call
from .kit import KINDS, actor, bulk_run, do

LEVEL = 'exploration'
SCENARIOS = [('application', 1)]
QUICK_RUNS = 9000
RULE = ('Each run: 1-3 objects of decided kinds are driven with buffers the application owns: some are overwritten as '
        'soon as the call returns, some shared between arguments and calls, some kept and watched to the end (through '
        'refused calls, clearing and destruction); results are kept and watched too, or overwritten at decided '
        'moments; every result is compared with the reference.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['application buffers', 'operating-system random source', 'garbage collector (reference counting only)']
ASSUMPTIONS = ['the reference functions in sim/models agree with the standards (validated on published vectors)']


class Arena:
    """All buffers that crossed the interface, in either direction."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fresh = []            # passed to the call in progress
        self.kept = []             # [label, buffer, expected content]

    def give(self, data):
        ctx = self.ctx
        how = ctx.pick((0, 1, 2, 3), 'buf', (2, 5, 4, 2))
        if how == 0:
            return bytes(data)
        if how == 3:
            # the application already holds these bytes in a buffer and passes that one
            for item in self.kept:
                if item[0] == 'argument' and len(item[1]) == len(data) and item[2] == bytes(data):
                    ctx.fault('buffer-shared')
                    return item[1]
            for item in self.fresh:
                if item[2] == bytes(data):
                    ctx.fault('buffer-shared')
                    return item[1]
        b = bytearray(data)
        self.fresh.append(['argument', b, bytes(data), how == 1])
        return b

    def check(self, where):
        for label, b, want in self.kept:
            if bytes(b) != want:
                raise Violation('argument-modified' if label == 'argument' else 'result-changed',
                                '%s: %s changed from %s to %s' % (where, label, hx(want), hx(b)))

    def returned(self, where):
        """The call is over."""
        for _, b, want, scribble in self.fresh:
            if bytes(b) != want:
                raise Violation('argument-modified', '%s: an argument changed from %s to %s' % (where, hx(want), hx(b)))
        for _, b, want, scribble in self.fresh:
            if scribble and not any(b is k[1] for k in self.kept):
                self.scribble(b)
                self.ctx.fault('buffer-reuse')
            else:
                self.kept.append(['argument', b, want])
        self.fresh = []
        self.check(where)

    def keep(self, label, r):
        if isinstance(r, bytearray):
            if any(r is k[1] for k in self.kept):
                raise Violation('result-aliased', 'the %s is a buffer the application already owns' % label)
            self.kept.append(['result of ' + label, r, bytes(r)])

    def scribble(self, b):
        how = self.ctx.pick((0, 1, 2), 'scribble', (6, 2, 2))
        try:
            if how == 0:
                for i in range(len(b)):
                    b[i] ^= 0xa5
            elif how == 1:
                del b[:]
            else:
                b.extend(b'grown')
                for i in range(len(b)):
                    b[i] = 0x77
        except BufferError:
            raise Violation('buffer-locked', 'the caller cannot resize a buffer it passed to a call that is over')

    def disturb(self):
        """Overwrite one buffer the application owns."""
        if self.kept:
            item = self.ctx.pick(self.kept, 'disturb')
            self.scribble(item[1])
            item[2] = bytes(item[1])
            self.ctx.fault('kept-buffer-overwritten')


def oid_ops(ctx, arena, obj, seen):
    """Identifier forms are values the library returns, too."""
    octet = ctx.call('oid.octet', lambda: obj.oid.octet)
    key = str(obj.oid)
    want = seen.setdefault(key, bytes(octet))
    ctx.same('wrong-result', 'oid.octet of ' + key, octet, want)
    arena.keep('oid.octet', octet)


def application(ctx):
    arena = Arena(ctx)
    seen = {}
    bulk_run(ctx, 12)
    with Entropy(ctx):
        members = []
        for _ in ctx.repeat(1, 3, 'member', 35):
            a = actor(ctx, tuple(KINDS), (4, 4, 5, 10, 4, 1, 1))
            ctx.log('new', a.label)
            o = ctx.call('new ' + a.label, a.new, ctx.gost, arena.give)
            arena.returned('new ' + a.label)
            members.append((a, o))
        for _ in ctx.repeat(2, 12, 'step', 88):
            if not members:
                break
            a, o = ctx.pick(members, 'who')
            what = ctx.pick((0, 1, 2, 3, 4, 5), 'what', (12, 5, 3, 2, 1, 1))
            if what == 0:
                op = a.gen(ctx)
                ctx.log('do', a.label, op.name)
                r = do(ctx, a, o, op, arena.give, 'with reused buffers')
                arena.returned(a.label + ' ' + op.name)
                arena.keep('%s %s' % (a.label, op.name), r)
            elif what == 1:
                arena.disturb()
                ctx.log('disturb')
            elif what == 2:
                bad = bad_call(ctx, a)
                if bad.drops:
                    continue
                ctx.fault('refused.' + a.kind)
                ctx.log('mistake', a.label, bad.name)
                ctx.attempt(bad.name, bad.run, ctx.gost, o, arena.give)
                arena.returned('refused ' + bad.name)
            elif what == 3 and hasattr(o, 'oid'):
                oid_ops(ctx, arena, o, seen)
            elif what == 4 or what == 3:
                members.remove((a, o))
                ctx.fault('destroy')
                ctx.log('destroy', a.label)
                o = None
                arena.check('destroying ' + a.label)
            elif what == 5 and hasattr(o, 'clear'):
                members.remove((a, o))
                ctx.fault('clear')
                ctx.log('clear', a.label)
                ctx.call('clear', o.clear)
                arena.check('clearing ' + a.label)
        for a, o in members:
            op = a.final(ctx)
            r = do(ctx, a, o, op, arena.give, 'at the end')
            arena.returned('final ' + op.name)
            arena.keep(op.name, r)
        del members[:]
        a = o = None
        arena.check('destroying everything')
