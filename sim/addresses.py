"""Object addresses, owned by the simulator.

``id()`` promises only that two objects alive at the same time differ.  What the
package sees as addresses is decided here, and the worst legal choice is made: the
address of an object that is gone belongs at once to the next one that is asked for
its address.  Objects that cannot be observed dying (numbers, buffers, strings) keep
their real address.
"""

import builtins
import weakref

_BASE = 1 << 56               # above every real address


class Addresses:
    def __init__(self):
        self._by_real = {}
        self._free = []
        self._next = _BASE

    def id(self, obj):
        real = builtins.id(obj)
        entry = self._by_real.get(real)
        if entry is not None and entry[1]() is obj:
            return entry[0]
        try:
            ref = weakref.ref(obj)
        except TypeError:
            return real
        if self._free:
            address = self._free.pop()
        else:
            address, self._next = self._next, self._next + 16
        self._by_real[real] = (address, ref)
        weakref.finalize(obj, self._gone, real, address).atexit = False
        return address

    def _gone(self, real, address):
        entry = self._by_real.get(real)
        if entry is not None and entry[0] == address:
            del self._by_real[real]
        self._free.append(address)


def namespace():
    """The built-in names a fresh copy of the package sees."""
    names = dict(vars(builtins))
    names['id'] = Addresses().id
    return names
