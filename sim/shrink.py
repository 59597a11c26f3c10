"""Minimises the tape of a failing run while the same violation class persists."""

import time

from . import core, loader


def attempt(prop, scenario, tape, tier, kind, alarm):
    ctx, v = alarm(lambda: core.run_one(prop, scenario, loader.fresh(), tape=tape, tier=tier))
    if v is not None and v.kind == kind:
        return ctx, v
    return None


def _key(t):
    return (len(t), sum(1 for x in t if x), sum(t))


def minimise(prop, scenario, tape, tier, kind, alarm, seconds=60.0):
    end = time.monotonic() + seconds
    best = attempt(prop, scenario, tape, tier, kind, alarm)
    if best is None:
        return None
    tries = 0

    def consider(t):
        nonlocal best, tries
        if time.monotonic() > end:
            return False
        tries += 1
        r = attempt(prop, scenario, t, tier, kind, alarm)
        if r is None:
            return False
        if _key(r[0].tape.out) < _key(best[0].tape.out):
            best = r
            return True
        return False

    improved = True
    while improved and time.monotonic() < end:
        improved = False
        # 1. drop whole spans (steps, faults), longest first
        i = 0
        while time.monotonic() < end:
            spans = sorted({(b - a, a, b) for a, b, _ in best[0].tape.spans if b > a},
                           key=lambda s: (-s[0], s[1]))
            if i >= len(spans):
                break
            _, a, b = spans[i]
            out = best[0].tape.out
            if consider(out[:a] + out[b:]):
                improved = True
            else:
                i += 1
        # 2. drop chunks of decisions
        size = max(1, len(best[0].tape.out) // 4)
        while size and time.monotonic() < end:
            a = 0
            while a < len(best[0].tape.out) and time.monotonic() < end:
                out = best[0].tape.out
                if consider(out[:a] + out[a + size:]):
                    improved = True
                else:
                    a += size
            size //= 2
        # 3. zero, then lower single decisions
        for a in range(len(best[0].tape.out) - 1, -1, -1):
            if time.monotonic() > end:
                break
            out = best[0].tape.out
            if a >= len(out) or out[a] == 0:
                continue
            if consider(out[:a] + [0] + out[a + 1:]):
                improved = True
                continue
            lo, hi = 0, out[a]
            while hi - lo > 1 and time.monotonic() < end:
                mid = (lo + hi) // 2
                out = best[0].tape.out
                if a >= len(out):
                    break
                if consider(out[:a] + [mid] + out[a + 1:]):
                    improved = True
                    hi = mid
                else:
                    lo = mid
    return best[0], best[1], tries
