"""Writes MANIFEST.json from properties.jsonl and the scenario modules (run by hand)."""
import importlib
import json
import os

os.chdir(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'P01': 'deterministic simulation: chunked transfers over a simulated faulty network/disk against a one-shot reference',
    'P02': 'deterministic simulation: chunked transfers over a simulated faulty network/disk against a one-shot reference',
    'P03': 'deterministic simulation: chunked transfers over a simulated faulty network/disk against a one-shot reference',
    'P04': 'deterministic simulation: interleaved sessions, crash and resume from durable ciphertext, faulty network',
    'P05': 'deterministic simulation: interleaved counter sessions against an integer-counter model, keystream uniqueness',
    'P06': 'deterministic simulation: seeded clone-tree histories, also under a seeded thread scheduler',
    'P07': 'deterministic simulation: adversarial network (corruption, splicing, swapping) with a reference verifier',
    'P08': 'deterministic simulation with fault injection on the random source; bounded liveness on a call-count clock',
    'P09': 'deterministic simulation with fault injection on the random source against a reference sequence',
    'P10': 'deterministic simulation: service with stored salts, crashes and restarts, failing random source',
    'P11': 'deterministic simulation: seeded pre-emptive thread scheduler, fault injection, reference results',
    'P12': 'deterministic simulation: seeded pre-emptive thread scheduler over one shared object',
    'P13': 'deterministic simulation: application buffer reuse as injected fault, watched buffers, reference results',
    'P14': 'deterministic simulation with fault injection: seeded asynchronous interrupts at decided points',
    'P15': 'deterministic simulation with fault injection: refused calls inside seeded histories',
    'P16': 'deterministic simulation with fault injection: twin executions, seeded interrupts, reachability search',
    'P20': 'deterministic simulation with fault injection: seeded lives, also under a seeded thread scheduler, '
           'parameters read after every step',
    'P21': 'deterministic simulation with fault injection: repeated phases of seeded use, reachable memory measured',
    'P22': 'deterministic simulation with fault injection: seeded histories and values, executed steps counted by the '
           'simulated clock',
}
LEVEL_NOTE = ('Seeded search: evidence over the sampled schedules, faults and histories, not a proof. '
              'One seed is one exactly repeatable execution; violations are minimised and replayable. Trusts: %s.')
NA = {
    'P17': 'A pure function of key and block: no schedule, clock, fault, I/O or history it could depend on; running it '
           'under the simulator would only be input generation. (The simulated sessions of P03-P05 do compare both '
           'ciphers with an independent implementation, but nothing is claimed from that.)',
    'P18': 'A pure function of the constructor arguments, decided once and without state, time, I/O or a second party; '
           'there is nothing to schedule or to fail.',
    'P19': 'Pure string/number conversions without state, I/O, randomness or concurrency.',
}
checks = []
for line in open('properties.jsonl', encoding='utf8'):
    d = json.loads(line)
    p = d['id']
    if p in NA:
        continue
    mod = importlib.import_module('sim.props.' + p.lower())
    checks.append({
        'property': p,
        'quick_cmd': './check %s quick' % p,
        'thorough_cmd': './check %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': TECH[p],
        'level': mod.LEVEL,
        'level_note': LEVEL_NOTE % '; '.join(mod.ASSUMPTIONS),
    })
doc = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -m sim.selftest_models',
    'checks': checks,
    'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
    'notes': 'No hooks in /repo: the seams the simulator owns (os.urandom, byte buffers, threads and interrupts through '
             "the interpreter's tracing, the copy module) exist already. ./check replay FILE re-executes a recorded "
             'violation exactly. SIM_THOROUGH_SECONDS, SIM_RUNS and SIM_WORKERS scale a run.',
}
with open('MANIFEST.json', 'w', encoding='utf8') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
