"""Runs a property's simulated executions, reports, minimises and replays.

    python -m sim.runner check P01 quick|thorough
    python -m sim.runner replay FILE
    python -m sim.runner log P01 FIRST COUNT      (event-log digests, for determinism tests)

Exit codes: 0 the property held on everything explored (known findings are
printed), 1 with a VIOLATION line, 2 harness error (never a verdict).
"""

import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import core, loader, shrink

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BACKSTOP = 90          # seconds; wall-clock safety net for code that stops making progress


def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def run_seed(verif_seed, prop, index):
    h = hashlib.sha256(('%d/%s/%d' % (verif_seed, prop, index)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def scenario_for(mod, index, seed):
    special = getattr(mod, 'SPECIAL', [])
    if index < len(special):
        return special[index]
    names = [n for n, _ in mod.SCENARIOS]
    weights = [w for _, w in mod.SCENARIOS]
    return random.Random(seed ^ 0x5ce7a510).choices(names, weights)[0]


def with_alarm(seconds):
    def alarm(thunk):
        def on_alarm(signum, frame):
            raise core.SimHang('no result within the %d s backstop' % seconds)
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            return thunk()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    return alarm


class Totals:
    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.sim_time = 0
        self.switches = 0
        self.faults = {}
        self.probes = {}
        self.logs = set()
        self.shapes = set()
        self.nontrivial = set()
        self.samples = []
        self.per_scenario = {}

    def add(self, index, seed, name, ctx):
        self.runs += 1
        self.steps += ctx.steps
        self.sim_time += ctx.sim_time
        self.switches += ctx.switches
        for k, v in ctx.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in ctx.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        d = ctx.digest()
        self.logs.add(d)
        self.shapes.add(ctx.shape())
        if ctx.faults:
            self.nontrivial.add(d)
        self.per_scenario[name] = self.per_scenario.get(name, 0) + 1
        if len(self.samples) < 2 and ctx.faults:
            self.samples.append({'run': index, 'seed': seed, 'scenario': name, 'log': d,
                                 'events': [list(map(_j, e)) for e in ctx.events[:25]]})

    def merge(self, o):
        self.runs += o.runs
        self.steps += o.steps
        self.sim_time += o.sim_time
        self.switches += o.switches
        for a, b in ((self.faults, o.faults), (self.probes, o.probes),
                     (self.per_scenario, o.per_scenario)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.logs |= o.logs
        self.shapes |= o.shapes
        self.nontrivial |= o.nontrivial
        self.samples = (self.samples + o.samples)[:4]


def _j(x):
    if isinstance(x, (bytes, bytearray)):
        return core.hx(x)
    return x if isinstance(x, (int, str, bool, type(None))) else repr(x)


def worker(conn, prop, tier, verif_seed, next_index, count, deadline, known):
    try:
        gc.disable()
        mod = load(prop)
        totals = Totals()
        found = []
        alarm = with_alarm(BACKSTOP)
        n = 0
        while True:
            # which process executes a run does not matter: a run depends on its index only
            with next_index.get_lock():
                i = next_index.value
                next_index.value = i + 1
            if i >= count or time.monotonic() > deadline:
                break
            seed = run_seed(verif_seed, prop, i)
            name = scenario_for(mod, i, seed)
            fn = getattr(mod, name)
            ctx, v = alarm(lambda: core.run_one(prop, fn, loader.fresh(), seed=seed, tier=tier))
            totals.add(i, seed, name, ctx)
            if v is not None:
                key = finding_key(v)
                if key in known:
                    found.append((i, key, None))
                else:
                    conn.send(('violation', i, seed, name, v.kind, v.msg, ctx.tape.out))
                    break
            n += 1
            if n % 25 == 0:
                ctx = None
                gc.collect()
        conn.send(('done', totals, found))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    conn.close()


def finding_key(v):
    return v.kind


def read_known(prop):
    """Open findings for this property: {violation key: description}."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf8') as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' ')
                    out[key.partition('=')[2]] = what
    return out


def check(prop, tier):
    t0 = time.monotonic()
    verif_seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = load(prop)
    loader.compile_all()
    known = read_known(prop)
    workers = int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    if tier == 'quick':
        count = mod.QUICK_RUNS
        budget = 420
    else:
        count = 1 << 40
        budget = int(os.environ.get('SIM_THOROUGH_SECONDS', '660'))
    scale = os.environ.get('SIM_RUNS')
    if scale:
        count = int(scale)
    deadline = t0 + budget
    procs = []
    next_index = multiprocessing.get_context('fork').Value('q', 0)
    for _ in range(workers):
        a, b = multiprocessing.Pipe(duplex=False)
        p = multiprocessing.get_context('fork').Process(
            target=worker, args=(b, prop, tier, verif_seed, next_index, count, deadline, known))
        p.start()
        b.close()
        procs.append((p, a))
    totals = Totals()
    violations = []
    seen_known = {}
    errors = []
    pending = {a: p for p, a in procs}
    while pending:
        ready = multiprocessing.connection.wait(list(pending), timeout=5)
        for a in ready:
            try:
                msg = a.recv()
            except EOFError:
                p = pending.pop(a)
                p.join()
                if p.exitcode:
                    errors.append('worker ended with status %s' % p.exitcode)
                continue
            if msg[0] == 'violation':
                violations.append(msg[1:])
            elif msg[0] == 'error':
                errors.append(msg[1])
            else:
                totals.merge(msg[1])
                for i, key, _ in msg[2]:
                    seen_known[key] = seen_known.get(key, 0) + 1
        if violations:
            # the lowest run index wins among what is in flight; give the others a moment
            stop_at = time.monotonic() + 3
            while time.monotonic() < stop_at and pending:
                for a in multiprocessing.connection.wait(list(pending), timeout=0.2):
                    try:
                        msg = a.recv()
                        if msg[0] == 'violation':
                            violations.append(msg[1:])
                        elif msg[0] == 'done':
                            totals.merge(msg[1])
                    except EOFError:
                        pending.pop(a).join()
            for p in pending.values():
                p.terminate()
            for p in pending.values():
                p.join()
            break
    wall = time.monotonic() - t0
    replay = None
    if violations:
        violations.sort(key=lambda v: v[0])
        replay = report(prop, tier, verif_seed, mod, violations[0])
    for key in known:
        print('KNOWN-FINDING: property=%s %s (reproduced in %d runs)' % (
            prop, known[key], seen_known.get(key, 0)))
    evidence(prop, tier, verif_seed, mod, totals, wall, workers, len(violations), seen_known)
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if errors:
        sys.stderr.write('harness error in %s:\n%s\n' % (prop, '\n'.join(errors)))
        return 2
    if totals.runs == 0:
        sys.stderr.write('no run was executed\n')
        return 2
    print('%s %s: %d runs in %.1f s (%.0f seeds/hour), %d distinct histories, %d faults, '
          '%d pre-emptions; no violation' % (
              prop, tier, totals.runs, wall, totals.runs * 3600 / max(wall, 0.01),
              len(totals.logs), sum(totals.faults.values()), totals.switches))
    return 0


def report(prop, tier, verif_seed, mod, found):
    index, seed, name, kind, msg, tape = found
    print('run %d of %s (seed %d, scenario %s) violates the property\n  %s: %s' % (
        index, prop, seed, name, kind, msg))
    sys.stdout.flush()
    fn = getattr(mod, name)
    gc.disable()
    hang = kind == 'hang'
    best = None
    tries = 0
    final_tape = tape
    if not hang:
        try:
            best = shrink.minimise(prop, fn, tape, tier, kind, with_alarm(BACKSTOP),
                                   seconds=float(os.environ.get('SIM_SHRINK_SECONDS', '45')))
        except BaseException:
            sys.stderr.write('minimisation stopped: %s\n' % traceback.format_exc())
    else:
        best = shrink.minimise(prop, fn, tape, tier, kind, with_alarm(20), seconds=60.0)
    record = {
        'property': prop, 'scenario': name, 'tier': tier, 'verif_seed': verif_seed,
        'run': index, 'run_seed': seed,
        'original': {'kind': kind, 'msg': msg, 'decisions': len(tape)},
    }
    if best is not None:
        ctx, v, tries = best
        final_tape = ctx.tape.out
        record['violation'] = {'kind': v.kind, 'msg': v.msg}
        record['log'] = ctx.digest()
        record['decisions'] = [[l, x] for l, x in zip(ctx.tape.labels, ctx.tape.out)]
        record['events'] = [list(map(_j, e)) for e in ctx.events]
        record['faults'] = ctx.faults
        print('minimised from %d to %d decisions in %d attempts\n  %s: %s' % (
            len(tape), len(final_tape), tries, v.kind, v.msg))
    else:
        record['violation'] = {'kind': kind, 'msg': msg}
    record['tape'] = final_tape
    out = os.path.join(HERE, 'replays')
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, '%s-%s-%d.json' % (prop, kind, index))
    with open(path, 'w') as fh:
        json.dump(record, fh, indent=1)
        fh.write('\n')
    return path


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    mod = load(rec['property'])
    fn = getattr(mod, rec['scenario'])
    gc.disable()
    ctx, v = with_alarm(BACKSTOP)(lambda: core.run_one(
        rec['property'], fn, loader.fresh(), tape=rec['tape'], tier=rec['tier']))
    for e in ctx.events:
        print('  ' + ' '.join(str(_j(x)) for x in e))
    if v is None:
        print('replay of %s: no violation on this tree' % path)
        return 0
    same = rec.get('log') in (None, ctx.digest())
    print('%s: %s' % (v.kind, v.msg))
    print('event log %s (%s the recorded one)' % (
        ctx.digest(), 'identical to' if same else 'DIFFERS from'))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def evidence(prop, tier, verif_seed, mod, totals, wall, workers, violations, seen_known):
    hours = max(wall, 0.01) / 3600
    cov = {
        'evaluations': totals.runs,
        'distinct_nontrivial': len(totals.nontrivial),
        'rule': mod.RULE + ' A run counts as distinct and non-trivial when its event log '
                           'differs from every other and at least one fault or pre-emption '
                           'actually fired in it.',
        'samples': totals.samples or [{'note': 'no run injected a fault'}],
        'simulated_runs': totals.runs,
        'seeds_per_hour': round(totals.runs / hours),
        'simulated_time_steps': totals.sim_time,
        'api_calls_checked': totals.steps,
        'faults_injected': dict(sorted(totals.faults.items())),
        'preemptions': totals.switches,
        'distinct_event_logs': len(totals.logs),
        'distinct_history_shapes': len(totals.shapes),
        'reach_probes': dict(sorted(totals.probes.items())),
        'runs_per_scenario': dict(sorted(totals.per_scenario.items())),
        'real_components': mod.REAL,
        'simulated_components': mod.STUB,
        'workers': workers,
        'known_findings_reproduced': seen_known,
    }
    doc = {
        'property': prop, 'tier': tier, 'seed': verif_seed, 'level': mod.LEVEL,
        'coverage': cov, 'wall_s': round(wall, 2), 'assumptions': mod.ASSUMPTIONS,
        'violations': violations,
    }
    out = os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, prop + '.json'), 'w') as fh:
        json.dump(doc, fh, indent=1)
        fh.write('\n')


def log_digests(prop, first, count):
    """Print run index, event-log digest and outcome: the determinism proof diffs these."""
    verif_seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = load(prop)
    gc.disable()
    for i in range(first, first + count):
        seed = run_seed(verif_seed, prop, i)
        name = scenario_for(mod, i, seed)
        ctx, v = core.run_one(prop, getattr(mod, name), loader.fresh(), seed=seed)
        th = hashlib.sha256(repr(ctx.tape.out).encode()).hexdigest()[:16]
        print(i, name, ctx.digest(), th, ctx.steps, ctx.sim_time, v.kind if v else 'ok')
        sys.stdout.flush()
        if i % 25 == 0:
            ctx = None
            gc.collect()


def main(argv):
    if argv[0] == 'check':
        return check(argv[1], argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'log':
        log_digests(argv[1], int(argv[2]), int(argv[3]))
        return 0
    return 2


if __name__ == '__main__':
    import multiprocessing.connection
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
