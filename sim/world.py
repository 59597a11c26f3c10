"""Simulated surroundings: event queue, network, disk, entropy, buffers.

Time is simulated (integer ticks); nothing here sleeps or reads a real clock.
"""

import errno
import hashlib
import heapq
import os
import random

from .core import InjectedOSError, SimHang


class World:
    """Discrete-event loop ordered by (time, sequence number)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.now = 0
        self.seq = 0
        self.queue = []

    def at(self, delay, fn, *args):
        self.seq += 1
        heapq.heappush(self.queue, (self.now + delay, self.seq, fn, args))

    def run(self, limit=20000):
        n = 0
        while self.queue:
            n += 1
            if n > limit:
                raise RuntimeError('event budget exceeded')   # a harness bug, not a finding
            t, _, fn, args = heapq.heappop(self.queue)
            self.now = t
            fn(*args)
        self.ctx.sim_time += self.now
        return n


def cut_sizes(ctx, total, unit, label, hi=400, max_parts=40, aligned=False):
    """Split ``total`` into fragment sizes, biased to the edges of ``unit``."""
    sizes = []
    left = total
    style = ctx.pick((0, 1, 2, 3, 4), label + '.style', (1, 3, 3, 2, 2))
    while left > 0 and len(sizes) < max_parts:
        if style == 0:
            n = left
        elif style == 1:                       # around multiples of the unit
            n = unit * ctx.small(0, 4, label + '.blocks') + ctx.int(-2, 2, label + '.edge')
        elif style == 2:                       # tiny
            n = ctx.small(0, unit, label + '.tiny')
        elif style == 3:
            n = ctx.small(0, min(hi, left), label + '.any')
        else:                                  # complete the current block, or almost
            done = total - left
            n = unit - done % unit + ctx.int(-1, 1, label + '.fill')
            if ctx.flag(40, label + '.jump'):
                n = ctx.int(1, unit, label + '.part')
        if aligned:
            n = max(n - n % unit, unit if ctx.flag(80, label + '.nz') else 0)
        n = max(0, min(n, left))
        sizes.append(n)
        left -= n
    if left:
        sizes.append(left)
    return sizes


class Disk:
    """A file on a disk that returns short reads, EINTR and EIO."""

    def __init__(self, ctx, data, faults=True):
        self.ctx = ctx
        self.data = data
        self.pos = 0
        self.faults = faults
        self.errors = 0

    def seek(self, pos):
        self.pos = pos

    def read(self, n):
        ctx = self.ctx
        if self.faults and self.errors < 6:
            f = ctx.pick((0, 1, 2, 3), 'disk.fault', (70, 18, 7, 5))
            if f == 1 and n > 1:
                short = ctx.small(1, n - 1, 'disk.short')
                if short < min(n, len(self.data) - self.pos):
                    ctx.fault('disk.short-read', short)
                n = short
            elif f == 2:
                self.errors += 1
                ctx.fault('disk.EINTR')
                raise InterruptedError(errno.EINTR, 'interrupted')
            elif f == 3:
                self.errors += 1
                ctx.fault('disk.EIO')
                raise InjectedOSError(errno.EIO, 'I/O error')
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


class Stream:
    """Ordered byte stream over a lossy, duplicating, reordering packet network.

    The receiver gets whatever contiguous bytes are available when a packet
    arrives, so fragment boundaries depend on the faults.
    """

    def __init__(self, world, data, unit, on_bytes, on_end, name):
        self.w = world
        self.ctx = world.ctx
        self.data = data
        self.on_bytes = on_bytes
        self.on_end = on_end
        self.name = name
        self.have = {}
        self.next = 0
        self.ended = False
        off = 0
        t = 0
        sizes = cut_sizes(self.ctx, len(data), unit, name + '.seg')
        if not sizes:
            sizes = [0]
        for n in sizes:
            t += self.ctx.small(0, 3, name + '.pace')
            self._send(off, n, t, 0)
            off += n

    def _send(self, off, n, delay, tries):
        ctx = self.ctx
        f = 0
        if tries < 4:
            f = ctx.pick((0, 1, 2, 3), 'net.fault', (70, 8, 10, 12))
        if f == 1:
            ctx.fault('net.drop', self.name, off)
            self.w.at(delay + 50, self._send, off, n, 0, tries + 1)    # retransmission timer
            return
        if f == 3:
            delay += ctx.small(1, 60, 'net.delay')
            ctx.fault('net.delay', self.name, off)
        self.w.at(delay, self._arrive, off, n)
        if f == 2:
            ctx.fault('net.duplicate', self.name, off)
            self.w.at(delay + ctx.small(1, 40, 'net.dup'), self._arrive, off, n)

    def _arrive(self, off, n):
        if self.ended:
            return
        if off + n <= self.next and not (n == 0 and off == self.next):
            return                     # duplicate
        if off > self.next:
            self.ctx.probe('net.out-of-order')
        if off >= self.next:
            self.have[off] = max(n, self.have.get(off, 0))
        start = self.next
        while self.next in self.have:
            n = self.have.pop(self.next)
            if n == 0:
                break
            self.next += n
        if self.next > start or (off == start and self.data[start:] == b''):
            self.on_bytes(self.data[start:self.next])
        if self.next >= len(self.data) and not self.ended:
            self.ended = True
            self.on_end()


class Channel:
    """Ordered, reliable channel for byte chunks over the same faulty packets."""

    def __init__(self, world, on_bytes, name):
        self.w = world
        self.ctx = world.ctx
        self.on_bytes = on_bytes
        self.name = name
        self.out = 0
        self.next = 0
        self.have = {}

    def send(self, chunk):
        self._transmit(self.out, chunk, 0)
        self.out += 1

    def _transmit(self, seq, chunk, tries):
        ctx = self.ctx
        f = ctx.pick((0, 1, 2, 3), 'net.fault', (70, 8, 10, 12)) if tries < 4 else 0
        delay = 1
        if f == 1:
            ctx.fault('net.drop', self.name, seq)
            self.w.at(50, self._transmit, seq, chunk, tries + 1)
            return
        if f == 3:
            delay += ctx.small(1, 60, 'net.delay')
            ctx.fault('net.delay', self.name, seq)
        self.w.at(delay, self._arrive, seq, chunk)
        if f == 2:
            ctx.fault('net.duplicate', self.name, seq)
            self.w.at(delay + ctx.small(1, 40, 'net.dup'), self._arrive, seq, chunk)

    def _arrive(self, seq, chunk):
        if seq < self.next or seq in self.have:
            return
        if seq > self.next:
            self.ctx.probe('net.out-of-order')
        self.have[seq] = chunk
        ready = []
        while self.next in self.have:
            ready.append(self.have.pop(self.next))
            self.next += 1
        if ready:
            self.on_bytes(b''.join(ready))


_real_urandom = os.urandom
_entropy = None            # the simulated source in force


def _dispatch(n):
    return _real_urandom(n) if _entropy is None else _entropy._urandom(n)


def seam():
    """Put the operating system's random source behind the simulator, for good:
    code that binds the function at import time is covered too."""
    os.urandom = _dispatch
    random._urandom = _dispatch        # what random.SystemRandom and secrets use


class Entropy:
    """Stands in for the operating system's random source."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.script = []           # callables n -> bytes (or raising), consumed first
        self.draws = []
        self.limit = None
        self.small = False         # deliver small, still distinct numbers

    def __enter__(self):
        global _entropy
        self._outer = _entropy
        _entropy = self
        return self

    def __exit__(self, *exc):
        global _entropy
        _entropy = self._outer
        return False

    def good(self, n):
        if self.small and n >= 16:
            return (2 + self.ctx.int(0, 120, 'entropy.small') + 128 * len(self.draws)).to_bytes(n, 'big')
        seed = self.ctx.int(0, 0xffffffff, 'entropy')
        return hashlib.shake_128(b'entropy/%d/%d' % (seed, len(self.draws))).digest(n)

    def _urandom(self, n):
        self.ctx.sim_time += 1
        if self.limit is not None and len(self.draws) >= self.limit:
            raise SimHang('%d draws of randomness without a result' % len(self.draws))
        if self.script:
            item = self.script.pop(0)
            try:
                out = item(n)
            except BaseException:
                self.draws.append(None)
                raise
        else:
            out = self.good(n)
        self.draws.append(bytes(out))
        return bytes(out)


def small_entropy():
    if _entropy is not None:
        _entropy.small = True


class BufferPool:
    """I/O buffers that the application reuses: after every call that was given
    one, the pool checks it was not written to, and may overwrite it."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = []

    def wrap(self, data):
        """Hand out the bytes as the application would hold them."""
        if self.ctx.flag(55, 'buf.mutable'):
            b = bytearray(data)
            self.seen.append((b, bytes(data)))
            return b
        return bytes(data)

    def settle(self, scribble=True):
        from .core import Violation
        for b, orig in self.seen:
            if bytes(b) != orig:
                raise Violation('input-modified', 'a caller buffer changed from %s to %s' % (
                    orig[:32].hex(), bytes(b)[:32].hex()))
            if scribble and len(b):
                for i in range(len(b)):
                    b[i] ^= 0xa5
        if self.seen and scribble:
            self.ctx.faults['buffer-reuse'] = self.ctx.faults.get('buffer-reuse', 0) + len(self.seen)
        self.seen = []
