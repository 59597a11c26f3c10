"""Leaps in time: what an object would be after a history too long to simulate.

Counters of 8 to 64 bytes carry into their upper bytes only after histories no run can
live through.  The simulator finds the one place in an object that holds the counter
(the value is known from the reference), sets it forward, and first makes sure on a
nearby harmless value that this is all there is to it: the object must then continue as
the reference does.  If the package keeps its counter otherwise, nothing is judged.
"""


class Spot:
    def __init__(self, box, key, kind, order, size):
        self.box, self.key, self.kind, self.order, self.size = box, key, kind, order, size

    def set(self, value):
        if self.kind is not int:
            value = self.kind(value.to_bytes(self.size, self.order))
        self.box[self.key] = value


def _values(obj):
    """(container, key, value) of every simple value in obj and what it consists of."""
    todo, seen = [(obj, 0)], set()
    while todo:
        o, depth = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        box = o if isinstance(o, (list, dict)) else getattr(o, '__dict__', None)
        if box is None:
            continue
        for k, v in box.items() if isinstance(box, dict) else enumerate(box):
            if type(v) in (bytes, bytearray, int, bool, str, float, type(None)):
                yield box, k, v
            elif depth < 2 and (type(v) in (list, dict) or type(v).__module__.startswith('gostcrypto')):
                todo.append((v, depth + 1))


def find(obj, value, size, limit=(1 << 16)):
    """The only place where obj holds value (as a buffer of that size or a number), or None."""
    big, little = value.to_bytes(size, 'big'), value.to_bytes(size, 'little')
    spots = []
    for box, k, v in _values(obj):
        t = type(v)
        if t in (bytes, bytearray):
            if v == big:
                spots.append(Spot(box, k, t, 'big', size))
            elif v == little:
                spots.append(Spot(box, k, t, 'little', size))
        elif t is int and v == value and value >= limit:
            spots.append(Spot(box, k, int, None, size))
    return spots[0] if len(spots) == 1 else None


def rest(obj, spot):
    """Everything simple in obj but the counter: it must not follow the object's history as well."""
    return sorted(repr((k, bytes(v) if isinstance(v, bytearray) else v)) for box, k, v in _values(obj)
                  if not (box is spot.box and k == spot.key))


def edge(ctx, low, high, step=1):
    """A value shortly before a carry into byte low..high-1."""
    k = ctx.int(low, high - 1, 'leap.byte')
    return (1 << (8 * k)) - step * ctx.int(1, 4, 'leap.before')
