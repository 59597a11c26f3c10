"""Everything reachable from an object, or from the package, as bytes.

The traversal asks the interpreter itself what an object refers to (the garbage
collector's view), so attributes, slots, closures, caches, default arguments and
module globals are all covered without naming any of them.
"""

import gc
import sys
import types

from .loader import modules

_SKIP = (types.FrameType, types.TracebackType, types.CodeType, types.BuiltinFunctionType, type(len),
         types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType,
         types.MethodDescriptorType)


def _ours(name):
    return isinstance(name, str) and (name == 'gostcrypto' or name.startswith('gostcrypto.'))


def _follow(o):
    if isinstance(o, _SKIP):
        return False
    if isinstance(o, types.ModuleType):
        return _ours(o.__name__)
    if isinstance(o, type):
        return _ours(getattr(o, '__module__', None))
    if isinstance(o, types.FunctionType):
        return _ours(o.__module__)
    return True


def buffers(*roots):
    """Every byte string, number, text and small-number sequence reachable from the roots."""
    seen = set()
    todo = list(roots)
    out = []
    keep = []                    # nothing may be freed (and its id reused) while we look
    skip = set()
    for m in modules():
        b = m.__dict__.get('__builtins__')
        if b is not None:
            skip.add(id(b))
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in skip:
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, (bytes, bytearray)):
            if len(o) >= 4:
                out.append(bytes(o))
            continue
        if isinstance(o, memoryview):
            out.append(bytes(o))
            continue
        if isinstance(o, bool) or o is None or isinstance(o, float):
            continue
        if isinstance(o, int):
            if o >> 24:
                n = (o.bit_length() + 7) // 8 if o > 0 else 0
                if n:
                    n = max(n, 4)
                    out.append(o.to_bytes(n, 'big'))
                    out.append(o.to_bytes(n, 'little'))
            continue
        if isinstance(o, str):
            if len(o) >= 8:
                try:
                    out.append(bytes.fromhex(o))
                except ValueError:
                    out.append(o.encode('latin-1', 'replace'))
            continue
        if isinstance(o, (list, tuple)) and len(o) >= 4:
            if all(type(x) is int and 0 <= x < 256 for x in o):
                out.append(bytes(o))
                continue
            if all(type(x) is int for x in o):
                for x in o:
                    if x > 0:
                        n = max(4, (x.bit_length() + 7) // 8)
                        out.append(x.to_bytes(n, 'big'))
                        out.append(x.to_bytes(n, 'little'))
                continue
        if not _follow(o):
            continue
        todo.extend(gc.get_referents(o))
    return out


def reachable(*roots):
    """Bytes of memory held by everything reachable from the roots and from the package."""
    seen = set()
    todo = list(roots) + modules()
    keep = []
    total = 0
    skip = {id(m.__dict__.get('__builtins__')) for m in modules()}
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in skip:
            continue
        seen.add(id(o))
        keep.append(o)
        try:
            total += sys.getsizeof(o)
        except (TypeError, ValueError):
            pass
        if isinstance(o, (bytes, bytearray, int, str, float)) or not _follow(o):
            continue
        todo.extend(gc.get_referents(o))
    return total


SEP = b'\xfe\x01SEP\x02\xfd'


class Needles:
    """Secrets, and how to recognise them."""

    def __init__(self):
        self.long = {}          # window -> what
        self.words = {}         # 4-byte words: one may be chance, two are not

    def add(self, what, data, window=8):
        data = bytes(data)
        for i in range(0, len(data) - window + 1):
            w = data[i:i + window]
            if len(set(w)) >= 5:
                self.long[w] = what

    def add_ends(self, what, data, window=8):
        """Both ends only: for the many intermediate values, which are kept whole or not at all."""
        for w in (bytes(data[:window]), bytes(data[-window:])):
            if len(set(w)) >= 5:
                self.long[w] = what

    def add_words(self, what, words):
        for w in words:
            if len(set(w)) >= 3:
                self.words[bytes(w)] = what

    def find(self, *roots):
        """What is still there, or None."""
        bufs = buffers(*roots)
        blob = SEP.join(b for b in bufs if len(b) >= 8)
        for w, what in self.long.items():
            if w in blob:
                return '%s (%s)' % (what, w.hex())
        if self.words:
            hits = {b for b in bufs if len(b) == 4 and b in self.words}
            if len(hits) >= 2:
                return '%s (%s)' % (self.words[next(iter(sorted(hits)))], sorted(hits)[0].hex())
        return None
