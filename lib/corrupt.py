"""C20: corrupted events and packets: behaviours of Decode.tla in which bodies
and types are altered (mix C20), and sessions (Session.tla, fault "flip") in
which the packets of the server are."""
import random
from collections import Counter
from core import cfg, short
from cut import exchanges, play
from decode import INV, compare, scenes

VALUES = [0, 1, 127, 128, 250, 251, 252, 253, 254, 255]


def sessions(ctx, rng, stats):
    cases = []
    ex = exchanges(ctx, rng, True)
    for w, c, at, sizes in ex:
        for i, n in enumerate(sizes):
            def add(*changes):
                # one change of a byte: [place, value, whether the value is a mask]
                cases.append((dict(w, at=at, how='flip'), dict(c, sessions=[dict(at=at, how='flip', pkt=i, set=list(changes))])))

            def change(p):
                return [p, rng.choice(VALUES), False] if rng.random() < .7 else [p, 1 << rng.randrange(8), True]
            for p in range(-4, n):
                if p >= 0 and n > 120 and rng.random() > 120 / n:
                    continue
                if ctx.quick and p == -1:
                    add([p, 255, False])
                elif ctx.quick:
                    add(change(p))
                else:
                    for v in VALUES:
                        add([p, v, False])
                    for k in range(8):
                        add([p, 1 << k, True])
            # the numbers and sizes of packets are those of places -4..-1
            for _ in range(4 if ctx.quick else 60):
                add(*[change(rng.randrange(n)) for _ in range(rng.randrange(2, 5))])
    ctx.log(f'{len(cases)} sessions with an altered packet in {len(ex)} exchanges')
    play(ctx, cases, stats)
    return len(cases)


HUGE = [[255] * 8, [254] + [255] * 7 + [127], [254] + [255] * 4 + [0] * 4, [254, 0, 0, 0, 0, 0, 0, 0, 128], [253, 255, 255, 255],
        [252, 255, 255], [255, 255, 255, 127], [0, 0, 0, 0], [0, 0, 0, 128]]


def altered(b, rng, quick):
    """the body with a byte set, put in or taken out, or a number overwritten, at every place"""
    places = range(len(b)) if len(b) <= 80 else sorted(rng.sample(range(len(b)), 80))
    for p in places:
        # the bytes of small numbers around the ones in use, too
        vs = set(VALUES) | set(range(2, 18, 3)) | set(rng.sample(range(2, 64), 4)) | {b[p] ^ 1 << rng.randrange(8)} if quick else range(256)
        for v in vs:
            if v != b[p]:
                yield b[:p] + [v] + b[p + 1:]
        for h in HUGE:
            yield b[:p] + h + b[p + len(h):]        # longer than the body, if need be
            if not quick:
                yield b[:p] + h + b[p:]
        yield b[:p] + [rng.choice(VALUES)] + b[p:]
        yield b[:p] + b[p + 1:]


def run(ctx):
    rng = random.Random(ctx.seed * 23 + 1)
    steps, num, jvms = (40, 100, 8) if ctx.quick else (60, 1000, 8)
    stats, ss = Counter(), Counter()

    def decoder():
        cases = ctx.simulate('Decode', cfg({'MIX': 'C20', 'STEPS': steps}, invariants=INV), num, steps + 6, jvms)
        ctx.log(f'{len(cases)} behaviours generated')
        more, k = scenes(ctx, lambda b: altered(b, rng, ctx.quick))
        ctx.log(f'{k} altered events of every type and column type, in {len(more)} streams')
        compare(ctx, more, ctx.execute('decode', more), ss)
        stats['scenes'] = k
        compare(ctx, cases, ctx.execute('decode', cases), stats)
        return cases
    n = sessions(ctx, rng, ss)
    cases = decoder()
    random_ones = [i for c in cases for s in c['segs'] for i in s if i['x'][0] == 'any']
    ctx.level = 'exploration'
    ctx.cov.update(evaluations=stats['items'] + ss['items'] + n, distinct_nontrivial=len({short(i['b'], 10**6) for i in random_ones}) + n + stats['scenes'],
                   altered_events=len(random_ones), altered_everywhere=stats['scenes'], altered_sessions=n,
                   rule='behaviours of Decode.tla, mix C20: after every altered event the decoder must go on with the events that follow; the scenes of DecodeAll.tla, an event of every type and column type '
                        'with a byte or a number changed, put in or taken out at every place; sessions of Session.tla with one packet of the server altered; counted: distinct altered bodies, altered sessions',
                   classes={k: v for k, v in sorted((stats + ss).items())},
                   samples=[short(i['b'], 300) for i in random_ones[:5]])
