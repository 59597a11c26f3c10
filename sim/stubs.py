"""A fast stand-in for the hash behind its public interface.

Runs that need tens of thousands of hash computations (counters crossing 2**16,
large iteration counts) would take minutes with the real compression function.
They keep the code under test real and replace only the public methods of the
hash class.  If the package does not use the hash through that interface, the
first results show it and the run is skipped (and counted as such), never judged.
"""

import hashlib


def h(bits, data):
    return hashlib.blake2b(data, digest_size=bits // 8, person=b'stand-in').digest()


def hmac(bits, key, data):
    key = key + bytes(64 - len(key))
    inner = h(bits, bytes(x ^ 0x36 for x in key) + data)
    return h(bits, bytes(x ^ 0x5c for x in key) + inner)


class Hmac:
    """The same with the pads computed once."""

    def __init__(self, bits, key):
        key = key + bytes(64 - len(key))
        self.bits = bits
        self.inner = bytes(x ^ 0x36 for x in key)
        self.outer = bytes(x ^ 0x5c for x in key)

    def __call__(self, data):
        return h(self.bits, self.outer + h(self.bits, self.inner + data))


def pbkdf2(password, salt, count, n):
    """The derived key under the stand-in, for large counts and lengths."""
    f = Hmac(512, password)
    out = bytearray()
    i = 0
    while len(out) < n:
        i += 1
        u = f(salt + i.to_bytes(4, 'big'))
        t = int.from_bytes(u, 'big')
        for _ in range(1, count):
            u = f(u)
            t ^= int.from_bytes(u, 'big')
        out += t.to_bytes(64, 'big')
    return bytes(out[:n])


def fast_hash(gost):
    """Replace the public methods of the hash class of this copy of the package."""
    cls = type(gost.gosthash.new('streebog512'))
    first = cls.__init__

    def __init__(self, name, data=bytearray(b'')):
        first(self, name, bytearray(b''))
        self.sim_data = bytearray(data)

    def update(self, data):
        self.sim_data += data

    def digest(self):
        return bytearray(h(8 * self.digest_size, bytes(self.sim_data)))

    def hexdigest(self):
        return digest(self).hex()

    def reset(self):
        self.sim_data = bytearray()

    cls.__init__, cls.update, cls.digest, cls.hexdigest, cls.reset = __init__, update, digest, hexdigest, reset


def effective(ctx, probe):
    """Do the results show the stand-in at work?"""
    try:
        fast_hash(ctx.gost)
        ok = probe()
    except Exception as e:        # noqa: the package is built otherwise; nothing is judged
        e.__traceback__ = None
        ok = False
    ctx.probe('stand-in hash' if ok else 'stand-in hash not usable, run skipped')
    return ok
