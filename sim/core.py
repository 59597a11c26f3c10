"""Heart of the simulator: one integer decides a run.

Every decision a run takes (what happens next, sizes, delays, faults, which
thread runs) is drawn through ``Ctx``.  In search mode the draws come from a
PRNG seeded with the run seed and are recorded on a *tape*; in replay mode they
are read back from a tape.  A run is therefore a pure function of (tape, code),
and a tape can be minimised.  By convention 0 is always the simplest choice:
no fault, smallest size, no pre-emption, stop.
"""

import hashlib
import random
import sys


class Violation(Exception):
    """The property under test does not hold in this run."""

    def __init__(self, kind, msg):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class SimAbort(BaseException):
    """Unwinds simulated threads once the outcome of a run is decided."""


class SimHang(BaseException):
    """A call made no progress within its step (or backstop) budget."""


class Injected(Exception):
    """Marker mixed into every exception the simulator injects."""


class InjectedInterrupt(KeyboardInterrupt, Injected):
    pass


class InjectedMemoryError(MemoryError, Injected):
    pass


class InjectedTimeout(Injected):
    """As raised by an application's alarm handler."""


class InjectedOSError(OSError, Injected):
    pass


class Tape:
    def __init__(self, seed=None, values=None):
        self.values = [] if values is None else list(values)
        self.replaying = values is not None
        self.pos = 0
        self.out = []          # what this run actually consumed
        self.labels = []
        self.spans = []
        self.rng = random.Random(seed) if seed is not None else None

    def draw(self, bound, fresh, label):
        """A value in [0, bound]; ``fresh()`` supplies it in search mode."""
        if self.replaying:
            v = self.values[self.pos] if self.pos < len(self.values) else 0
            self.pos += 1
            if v > bound:
                v = bound
            if v < 0:
                v = 0
        else:
            v = fresh(self.rng)
        self.out.append(v)
        self.labels.append(label)
        return v


class _Span:
    __slots__ = ('tape', 'label', 'start')

    def __init__(self, tape, label):
        self.tape = tape
        self.label = label

    def __enter__(self):
        self.start = len(self.tape.out)
        return self

    def __exit__(self, *exc):
        self.tape.spans.append((self.start, len(self.tape.out), self.label))
        return False


LOG_KEEP = 3000


class Ctx:
    def __init__(self, gost, seed=None, tape=None, tier='quick'):
        self.gost = gost
        self.tape = Tape(seed=seed, values=tape)
        self.tier = tier
        self.faults = {}
        self.probes = {}
        self.steps = 0            # simulated steps: API calls and scheduler points
        self.sim_time = 0
        self.switches = 0
        self.events = []
        self._hash = hashlib.blake2b(digest_size=16)
        self._shape = hashlib.blake2b(digest_size=16)
        self.allow_unraisable = False
        self.unraisable = []
        self.thread_hook = None
        self.spent_generators = False    # may there be generators without any counter space?
        self.algs = ('magma', 'kuznechik')
        self.bulk = 0            # how often, in percent, a piece of data is long (see kit.bulk_len)
        self.bulk_max = 4096
        self.only = None         # the only kind of object of this run, where a scenario says so
        self.alike = None         # in some runs objects get the same few contents

    # ---- decisions -------------------------------------------------------
    def int(self, lo, hi, label):
        if hi <= lo:
            return lo
        span = hi - lo
        return lo + self.tape.draw(span, lambda r: r.randint(0, span), label)

    def small(self, lo, hi, label):
        """Skewed towards lo (log-uniform)."""
        if hi <= lo:
            return lo
        span = hi - lo

        def fresh(r):
            bits = span.bit_length()
            b = r.randint(0, bits)
            v = r.randint(0, (1 << b) - 1) if b else 0
            return v if v <= span else r.randint(0, span)
        return lo + self.tape.draw(span, fresh, label)

    def flag(self, percent, label):
        return bool(self.tape.draw(1, lambda r: 1 if r.random() * 100 < percent else 0, label))

    def pick(self, seq, label, weights=None):
        n = len(seq)
        if n == 1:
            return seq[0]
        if weights is None:
            i = self.tape.draw(n - 1, lambda r: r.randrange(n), label)
        else:
            def fresh(r):
                x = r.random() * sum(weights)
                for k, w in enumerate(weights):
                    x -= w
                    if x < 0:
                        return k
                return n - 1
            i = self.tape.draw(n - 1, fresh, label)
        return seq[i]

    def span(self, label):
        return _Span(self.tape, label)

    def repeat(self, lo, hi, label, percent=70):
        """Iterate between lo and hi times; each iteration is one deletable span."""
        i = 0
        while i < hi:
            with self.span(label):
                if i >= lo and not self.flag(percent, label + '?'):
                    return
                yield i
            i += 1

    def content(self, label):
        """Seed of a content; in some runs different objects often get equal ones."""
        if self.alike is None:
            self.alike = self.flag(25, 'alike')
        return self.int(0, 1, label) if self.alike else self.int(0, 0xffffffff, label)

    def near(self, value, label):
        """Where contents often coincide, some differ in a single place only."""
        if self.alike and value and self.flag(30, label + '.near'):
            n = len(value)
            at = self.pick((0, n - 1, n // 2, n // 4, 3 * n // 4, n // 8), label + '.at') % n
            value = bytearray(value)
            value[at] ^= 1 + self.int(0, 3, label + '.by')
            return bytes(value)
        return value

    def data(self, n, label):
        """n bytes whose content stresses carries, padding look-alikes and leading zeros."""
        kind = self.pick((0, 1, 2, 3, 4, 5, 6, 7), label + '.kind',
                         (5, 60, 6, 5, 5, 5, 8, 6))
        if kind == 0 or n == 0:
            return bytes(n)
        seed = self.content(label + '.seed')
        rnd = hashlib.shake_128(b'%d/%d' % (kind, seed)).digest(n)
        if kind == 1:
            return self.near(rnd, label)
        if kind == 2:
            return b'\xff' * n
        if kind == 3:                       # ends like a padding
            k = seed % (n + 1)
            return rnd[:n - k] + (b'\x80' + bytes(k))[:k]
        if kind == 4:                       # trailing zeros
            k = seed % (n + 1)
            return rnd[:n - k] + bytes(k)
        if kind == 5:                       # leading zeros
            k = seed % (n + 1)
            return bytes(k) + rnd[k:]
        if kind == 6:                       # long carry chains
            k = seed % (n + 1)
            return rnd[:k] + b'\xff' * (n - k)
        b = bytes([seed & 255])             # one repeated byte
        return b * n

    def key(self, n, label):
        seed = self.content(label) + 5
        special = seed % 23
        if special == 1:
            return bytes(n)
        if special == 2:
            return b'\xff' * n
        rnd = hashlib.shake_128(b'key/%d' % seed).digest(n)
        if special == 3:
            return bytes(n // 2) + rnd[n // 2:]
        if special == 4:
            return rnd[:n // 2] + bytes(n - n // 2)
        return self.near(rnd, label)

    # ---- history ---------------------------------------------------------
    def log(self, kind, *fields):
        item = (kind,) + fields
        self._hash.update(repr(item).encode())
        self._shape.update(kind.encode() + b'\0')
        if len(self.events) < LOG_KEEP:
            self.events.append(item)

    def fault(self, kind, *fields):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('FAULT.' + kind, *fields)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def digest(self):
        return self._hash.hexdigest()

    def shape(self):
        return self._shape.hexdigest()

    # ---- calling the code under test --------------------------------------
    def call(self, label, fn, *args, **kwargs):
        """Call real code that must succeed."""
        self.steps += 1
        try:
            r = fn(*args, **kwargs)
        except (Violation, SimAbort, SimHang):
            raise
        except Injected:
            raise
        except BaseException as e:      # noqa: the kind of failure is the finding
            e.__traceback__ = None
            e.__context__ = None
            raise Violation('unexpected-exception',
                            '%s raised %s: %s' % (label, type(e).__name__, e)) from None
        return r

    def attempt(self, label, fn, *args, **kwargs):
        """Call real code that may fail: returns (value, None) or (None, exception)."""
        self.steps += 1
        try:
            return fn(*args, **kwargs), None
        except (Violation, SimAbort, SimHang):
            raise
        except BaseException as e:
            e.__traceback__ = None
            e.__context__ = None
            return None, e

    def expect(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def same(self, kind, what, got, want):
        if not isinstance(got, (bytes, bytearray)):
            raise Violation(kind, '%s: got %r of type %s, expected bytes' % (
                what, got, type(got).__name__))
        if bytes(got) != bytes(want):
            raise Violation(kind, '%s: got %s, expected %s' % (what, hx(got), hx(want)))


def hx(b, n=48):
    b = bytes(b)
    s = b[:n].hex()
    return s if len(b) <= n else '%s..(%d bytes)' % (s, len(b))


def below(depth, fn):
    """fn as seen by a caller that is already that many calls deep."""
    if depth <= 0:
        return fn

    def go(n, args, kwargs):
        return go(n - 1, args, kwargs) if n else fn(*args, **kwargs)
    return lambda *args, **kwargs: go(depth - 1, args, kwargs)


def note_unraisable(ctx):
    def hook(arg):
        ctx.unraisable.append('%s in %s: %s' % (
            getattr(arg.exc_type, '__name__', arg.exc_type),
            getattr(arg.object, '__qualname__', repr(type(arg.object))), arg.exc_value))
    return hook


def run_one(prop, scenario, gost, seed=None, tape=None, tier='quick'):
    """Execute one run; returns (ctx, violation or None)."""
    ctx = Ctx(gost, seed=seed, tape=tape, tier=tier)
    old = sys.unraisablehook
    sys.unraisablehook = note_unraisable(ctx)
    violation = None
    try:
        try:
            scenario(ctx)
        except Violation as v:
            violation = v
            v.__traceback__ = None
        except SimHang as h:
            violation = Violation('hang', str(h) or 'no progress')
    finally:
        sys.settrace(None)
        sys.unraisablehook = old
    if violation is None and ctx.unraisable and not ctx.allow_unraisable:
        violation = Violation('destructor-error', ctx.unraisable[0])
    return ctx, violation
