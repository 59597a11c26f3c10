from . import streams

LEVEL = 'exploration'
SCENARIOS = [('transfers', 1)]
SPECIAL = ['whale', 'whale', 'one_piece'] + ['one_piece'] * 9 + ['small_whale'] * 8 + ['endurance'] * 4 + ['long_endurance']
QUICK_RUNS = 6000
RULE = ('Each run: 1-3 concurrent transfers whose bytes reach a real MAC object through a simulated '
        'lossy network or faulty disk, with progress digests, checkpoints, roll-backs, restarts and '
        'reused buffers at decided points; every digest is compared with a one-shot reference.')
REAL = ['gostcrypto (whole package, unmodified working tree)']
STUB = ['network', 'disk', 'event clock', 'application I/O buffers', 'process restart (objects dropped)']
ASSUMPTIONS = ['the one-shot reference in sim/models agrees with the standard (validated on published vectors at set-up)']


def transfers(ctx):
    streams.scenario(ctx, streams.MacKind, 2048)


def whale(ctx):
    kind = streams.MacKind(ctx)
    u = kind.unit
    streams.whale(ctx, kind, 65536 * u // 8 + 64 * u, [256 * u, 1 << 12, 4096 * u, 1 << 16])


def one_piece(ctx):
    kind = streams.MacKind(ctx)
    size = ctx.pick((4096, 8192, 16384, 32768, 65536), 'bytes') if ctx.flag(50, 'round-size') else \
        ctx.pick((2100, 4200, 8300), 'blocks') * kind.unit
    streams.whale(ctx, kind, size, [], whole=True)


def small_whale(ctx):
    kind = streams.MacKind(ctx)
    u = kind.unit
    streams.whale(ctx, kind, ctx.pick((300, 1100, 4100), 'size') * u, [128 * u, 256 * u, 1024 * u, 4096 * u])


def endurance(ctx):
    streams.endurance(ctx, streams.MacKind(ctx), ctx.pick((300, 1100, 4500), 'updates'))


def long_endurance(ctx):
    streams.endurance(ctx, streams.MacKind(ctx), 66000)
