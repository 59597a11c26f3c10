"""What an object is (name, sizes, identifier, curve, salt) stays what it was created as."""

import copy

from ..models import ec
from ..sched import Sched, refine
from ..world import BufferPool, Entropy
from .bad import bad_call
from .kit import KINDS, CipherActor, SignActor, actor, bulk_run, do
from .p14 import Member, cut, plain

LEVEL = 'exploration'
SCENARIOS = [('lifetimes', 3), ('watched', 1)]
QUICK_RUNS = 2600
RULE = ('Each run of lifetimes: 1-4 objects of decided kinds live through decided calls, refused calls, calls cut short '
        'by an interrupt at a decided point, resets, clones, clearing and destruction, while the application rewrites '
        'the dictionaries of curve parameters it had passed; reported names, sizes, identifiers and salts are read at '
        'decided moments and at the end, results are compared with references that know the original parameters '
        'only, and everything the package exports is compared with its state at the start. Each run of watched: one '
        'object is read by threads, some of them reading its parameters, under a decided schedule.')
REAL = ['gostcrypto (whole package, unmodified working tree, imported afresh in every run)',
        'Python threads (one released at a time)']
STUB = ['thread scheduler', 'asynchronous interrupts', 'operating-system random source', 'application buffers']
ASSUMPTIONS = ['threads switch only between Python expressions, exceptions arrive between them',
               'the reference functions in sim/models agree with the standards (validated on published vectors)']

OIDS = {'streebog256': '1.2.643.7.1.1.2.2', 'streebog512': '1.2.643.7.1.1.2.3',
        'HMAC_GOSTR3411_2012_256': '1.2.643.7.1.1.4.1', 'HMAC_GOSTR3411_2012_512': '1.2.643.7.1.1.4.2',
        'magma': '1.2.643.7.1.1.5.1', 'kuznechik': '1.2.643.7.1.1.5.2',
        32: '1.2.643.7.1.1.1.1', 64: '1.2.643.7.1.1.1.2'}


def der(dotted):
    """ASN.1 form of an identifier."""
    d = [int(x) for x in dotted.split('.')]
    body = bytearray()
    for v in [d[0] * 40 + d[1]] + d[2:]:
        part = [v & 127]
        while v >> 7:
            v >>= 7
            part.append(128 | v & 127)
        body += bytes(reversed(part))
    return bytes([6, len(body)]) + bytes(body)


def card(a):
    """What the object has to report: {parameter: value}."""
    k = a.kind
    if k in ('hash', 'hmac'):
        return {'name': a.name, 'digest_size': a.bits // 8, 'block_size': 64, 'oid': OIDS[a.name]}
    if k in ('mac', 'cipher'):
        return {'block_size': a.bs, 'oid': OIDS[a.alg]}
    if k == 'sign':
        return {'oid': OIDS[a.curve.size]}
    if k == 'pbkdf':
        return {'salt': a.salt}
    return {}


def read(ctx, a, obj, where, which=None):
    """Compare what the object reports with its card."""
    want = card(a)
    for name in ([which] if which else sorted(want)):
        v = want[name]
        if name == 'oid':
            oid = ctx.call('oid', lambda: obj.oid)
            forms = ctx.call('forms of the identifier', lambda: (str(oid), tuple(oid.digit), bytes(oid.octet)))
            full = (v, tuple(int(x) for x in v.split('.')), der(v))
            ctx.expect(forms == full, 'wrong-parameter', lambda: '%s reports the identifier %r %s, expected %r' % (
                a.label, forms, where, full))
            text = ctx.call('name of the identifier', lambda: oid.name)
            first = a.__dict__.setdefault('oid_name', text)
            ctx.expect(text == first and text, 'wrong-parameter', lambda: '%s: the identifier is named %r %s, was %r' % (
                a.label, text, where, first))
        elif name == 'salt':
            ctx.same('wrong-parameter', '%s salt %s' % (a.label, where), ctx.call('salt', lambda: obj.salt), v)
        else:
            got = ctx.call(name, lambda: getattr(obj, name))
            ctx.expect(got == v and type(got) is type(v), 'wrong-parameter', lambda: '%s reports %s = %r %s, expected %r' % (
                a.label, name, got, where, v))


class OwnCurve(SignActor):
    """A signature object built from a dictionary the application owns."""

    def __init__(self, ctx):
        super().__init__(ctx, light=100)
        self.kind = 'sign'
        self.mine = []             # [dictionary, what the application put into it]

    def new(self, g, give):
        gs = g.gostsignature
        params = dict(self.params(gs))
        self.mine.append([params, dict(params)])
        return gs.new(gs.MODE_256 if self.curve.size == 32 else gs.MODE_512, params)

    def fork(self):
        return self

    def check(self, ctx, where):
        for d, want in self.mine:
            ctx.expect(d == want, 'dictionary-changed', lambda: '%s: the application\'s curve dictionary changed %s' % (
                self.label, where))

    def rewrite(self, ctx):
        """The application uses its dictionary for something else."""
        how = ctx.pick((0, 1, 2, 3), 'rewrite')
        for item in self.mine:
            d = item[0]
            if how == 0:
                other = ec.CURVES[ctx.pick(sorted(ec.CURVES), 'other')]
                d.update(p=other.p, a=other.a, b=other.b, m=other.q, q=other.q, x=other.g[0], y=other.g[1])
            elif how == 1:
                d.clear()
            elif how == 2:
                name = ctx.pick(('p', 'a', 'b', 'q', 'x', 'y', 'm'), 'entry')
                d[name] = d.get(name, 0) + 2
            else:
                for name in list(d):
                    d[name] = 0
            item[1] = dict(d)
        ctx.fault('dictionary-rewritten')


class Exports:
    """Constants and tables the package offers to applications."""

    def __init__(self, g):
        self.g = g
        self.old = copy.deepcopy(self.take())

    def take(self):
        out = {}
        for sub in ('gostcipher', 'gosthash', 'gosthmac', 'gostoid', 'gostpbkdf', 'gostrandom', 'gostsignature'):
            m = getattr(self.g, sub)
            for name in dir(m):
                v = getattr(m, name)
                if name.isupper() and not name.startswith('_') and isinstance(v, (int, str, bytes, bytearray, dict,
                                                                                  list, tuple)):
                    out[sub + '.' + name] = v
        return out

    def check(self, ctx, where):
        now = self.take()
        for name in self.old:
            ctx.expect(name in now and now[name] == self.old[name] and type(now[name]) is type(self.old[name]),
                       'export-changed', lambda: '%s is not what it was %s' % (name, where))


def fresh(ctx, n, pool):
    a = actor(ctx, ('hash', 'hmac', 'mac', 'cipher', 'sign', 'pbkdf', 'prng'), (6, 6, 4, 8, 5, 3, 1))
    if a.kind == 'sign':
        a = OwnCurve(ctx)
    elif a.kind == 'pbkdf':
        a.count = 1 + a.count % 2
    elif a.kind == 'prng':
        a.size = min(a.size, 64)
    ctx.log('new', a.label)
    m = Member(ctx, a, 'm%d' % n, ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap))
    m.twin = ctx.call('new ' + a.label, a.new, ctx.gost, plain)
    m.usable = True                # its results are still determined
    pool.settle()
    return m


def some(ctx, m, where):
    names = sorted(card(m.a))
    if names:
        read(ctx, m.a, m.obj, where, names[ctx.int(0, len(names) - 1, 'parameter')])


def lifetimes(ctx):
    bulk_run(ctx)
    ctx.spent_generators = True
    ctx.allow_unraisable = True    # interrupts may cut constructors of helper objects short
    pool = BufferPool(ctx)
    exports = Exports(ctx.gost)
    with Entropy(ctx):
        members = []
        n = 0
        for _ in ctx.repeat(1, 3, 'member', 50):
            members.append(fresh(ctx, n, pool))
            n += 1
        for _ in ctx.repeat(2, 16, 'step', 88):
            if not members:
                break
            m = ctx.pick(members, 'who')
            a = m.a
            what = ctx.pick((0, 1, 2, 3, 4, 5, 6, 7), 'what', (6, 4, 3, 3, 2, 2, 2, 2))
            if what == 0:
                some(ctx, m, 'in the middle of its life')
            elif what == 1 and m.usable:
                for _ in ctx.repeat(1, 6, 'burst', 55 if a.cost == 1 and a.kind != 'pbkdf' else 10):
                    op = a.gen(ctx)
                    ctx.log('do', m.name, op.name)
                    do(ctx, a, m.obj, op, pool.wrap, 'with the parameters of its creation')
                    pool.settle()
                    ctx.attempt('twin', op.run, m.twin, plain)
                if ctx.flag(40, 'read'):
                    some(ctx, m, 'after ' + op.name)
            elif what == 2:
                bad = bad_call(ctx, a)
                ctx.fault('refused.' + a.kind)
                ctx.log('mistake', m.name, bad.name)
                ctx.attempt(bad.name, bad.run, ctx.gost, m.obj, plain)
                if bad.drops:
                    m.usable = False
                some(ctx, m, 'after the refused ' + bad.name)
            elif what == 3 and m.usable:
                op = a.reads(ctx) if a.kind in ('sign', 'hash', 'hmac', 'mac') and ctx.flag(50, 'reading') else a.gen(ctx)
                fired, value, err = cut(ctx, m, op.run)
                ctx.log('cut', m.name, op.name, fired)
                some(ctx, m, 'after an interrupted ' + op.name)
                if not op.reads:
                    if a.kind in ('hash', 'hmac'):
                        ctx.call('reset', m.obj.reset)
                        ctx.call('reset', m.twin.reset)
                        a.data = b''
                        some(ctx, m, 'after a reset')
                    else:
                        m.usable = False
            elif what == 4 and a.kind in ('hash', 'hmac') and len(members) < 5:
                # clones and clones of clones are what their original is
                c = Member(ctx, a.fork(), 'm%d' % n, ctx.call('copy', m.obj.copy), ctx.call('copy', m.twin.copy))
                c.usable = m.usable
                n += 1
                ctx.log('clone', m.name, c.name)
                members.append(c)
                some(ctx, c, 'as a clone')
            elif what == 5 and hasattr(m.obj, 'clear'):
                ctx.log('clear', m.name)
                ctx.fault('clear')
                ctx.call('clear', m.obj.clear)
                m.usable = False
                some(ctx, m, 'after it was cleared')
            elif what == 6:
                signers = [x for x in members if x.a.kind == 'sign']
                if signers:
                    s = ctx.pick(signers, 'signer')
                    s.a.check(ctx, 'before the application changed it')
                    s.a.rewrite(ctx)
                    ctx.log('rewrite', s.name)
                elif len(members) < 4:
                    members.append(fresh(ctx, n, pool))
                    n += 1
            elif what == 7:
                ctx.log('destroy', m.name)
                ctx.fault('destroy')
                members.remove(m)
                m.obj = m.twin = None
        for m in members:
            read(ctx, m.a, m.obj, 'at the end')
            if m.a.kind == 'sign':
                m.a.check(ctx, 'by itself')
            if m.usable:
                do(ctx, m.a, m.obj, m.a.final(ctx), pool.wrap, 'at the end')
                pool.settle()
        exports.check(ctx, 'after all this')


def watched(ctx):
    pool = BufferPool(ctx)
    with Entropy(ctx):
        kind = ctx.pick(('hash', 'hmac', 'mac', 'ecb', 'sign'), 'kind', (4, 5, 4, 4, 3))
        a = CipherActor(ctx, 'ecb') if kind == 'ecb' else SignActor(ctx, light=100) if kind == 'sign' else KINDS[kind](ctx)
        a.kind = 'cipher' if kind == 'ecb' else kind
        refine(ctx, 8)
        exports = Exports(ctx.gost)
        obj = ctx.call('new ' + a.label, a.new, ctx.gost, pool.wrap)
        pool.settle()
        if kind in ('hash', 'hmac', 'mac'):
            for _ in ctx.repeat(0, 2, 'history', 60):
                do(ctx, a, obj, a.op_update(ctx), pool.wrap)
                pool.settle()
        names = sorted(card(a))
        ctx.log('watched', a.label)

        def user():
            for _ in ctx.repeat(1, 3, 'use', 60):
                op = a.reads(ctx)
                ctx.log('use', op.name)
                do(ctx, a, obj, op, plain, 'while its parameters are read')

        def watcher():
            for _ in ctx.repeat(2, 12, 'look', 85):
                read(ctx, a, obj, 'while other threads read the object', names[ctx.int(0, len(names) - 1, 'parameter')])
                if ctx.flag(25, 'also'):
                    o = ctx.call('new ' + a.label, a.new, ctx.gost, plain)
                    read(ctx, a, o, 'in a new object', names[ctx.int(0, len(names) - 1, 'parameter')])
        Sched(ctx).run([user, watcher] + [user for _ in ctx.repeat(0, 1, 'more', 40)])
        read(ctx, a, obj, 'after all threads')
        exports.check(ctx, 'after all threads')
