from . import streams

LEVEL = 'exploration'
SCENARIOS = [('transfers', 25), ('far', 1)]
SPECIAL = ['whale'] * 6 + ['one_piece'] * 6 + ['endurance'] * 4 + ['long_endurance']
QUICK_RUNS = 6000
RULE = ('Each run: 1-3 concurrent transfers whose bytes reach a real HMAC object through a simulated '
        'lossy network or faulty disk, with progress digests, checkpoints, roll-backs, restarts and '
        'reused buffers at decided points; every digest is compared with a one-shot reference.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['network', 'disk', 'event clock', 'application I/O buffers', 'process restart (objects dropped)']
ASSUMPTIONS = ['the one-shot reference in sim/models agrees with the standard (validated on published vectors at set-up)',
               'lengths past 2^24 bits are reached by setting the length counter forward in the object (sim/leap.py), '
               'after a trial has shown that the object then continues as the reference does']


def transfers(ctx):
    streams.scenario(ctx, streams.HmacKind, 8192)


def whale(ctx):
    kind = streams.HmacKind(ctx)
    streams.whale(ctx, kind, ctx.pick((20000, 66000, 140000), 'size'),
                  [(1 << 13) - 64, 1 << 13, 1 << 14, (1 << 16) - 64, 1 << 16, 1 << 17])


def far(ctx):
    streams.far(ctx, streams.HmacKind(ctx))


def one_piece(ctx):
    streams.whale(ctx, streams.HmacKind(ctx), ctx.pick((4096, 8192, 16384, 65536, 70000, 131072, 140000, 270000), 'size'), [], whole=True)


def endurance(ctx):
    streams.endurance(ctx, streams.HmacKind(ctx), ctx.pick((300, 1100, 4500), 'updates'))


def long_endurance(ctx):
    streams.endurance(ctx, streams.HmacKind(ctx), 66000)
