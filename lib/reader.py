"""C09: Reader.tla model checked; every file it describes is written and read
with the real reader."""
import random
from collections import Counter
from core import cfg, short, read_csv_json, distinct
import events
from stream import compare, many

INV = ['Prefix', 'Everything', 'Signature']
SIG = [0xfe, 0x62, 0x69, 0x6e]
BUF = 32 * 1024      # sizes around this one are of special interest: readers keep a buffer
SMALL = [1, 2, 20, 60, 250, 300, 1000]
FULL = [BUF - 19 - 4, BUF - 20, BUF - 19, BUF - 18, BUF - 4, BUF - 1, BUF]
OVER = [BUF + 1, BUF + 2, BUF + 4, BUF + 19, 2 * BUF, 2 * BUF + 1, 65535, 65536, 100000, 300000]


def event(k, z, rng, pl, crc):
    tail = 4 if crc else 0
    n = 0 if z == 'none' else rng.choice({'small': SMALL, 'full': FULL, 'over': OVER}[z])
    if k == 'event':
        e = events.take(rng.choice(pl[rng.choice(['event', 'event', 'hb'])]), crc) if z == 'small' and rng.random() < .8 else events.big(rng, n, crc)
    elif k == 'bad':
        e = events.bad(rng, n if z != 'small' else 20, crc)
    else:
        e = events.unknown(rng, n, crc)
    x = ('err', None) if e['x'][0] == 'err' else ('ok', e['h'], e['x'][1])
    return {a: b for a, b in e.items() if a != 'x'}, x


def fde(pl, rng, crc):
    """a format description that announces the algorithm"""
    f = rng.choice(pl['fde1' if crc else 'fde0'])
    return dict(f['i']), ('ok', f['i']['h'], f['x'])


def build(rec, rng, pl, cut=None):
    crc = rng.random() < .4
    pk, xs, lens = [], [], []
    for e in rec['file']:
        p, x = event(e['k'], e['z'], rng, pl, crc)
        pk.append(p)
        xs.append(x)
        n = events.size(p)
        lens.append([7, 12] if n == 19 and e['z'] == 'none' else [7, 12, (n - 19) // 2, n - 19 - (n - 19) // 2])
        if e['z'] == 'none' and n > 19:      # a body of nothing but the checksum
            lens[-1] = [7, 12 + n - 19]
    sig = SIG
    if rec['sig'] == 'wrong':
        sig = list(SIG)
        sig[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif rec['sig'] == 'short':
        sig, pk = SIG[:rng.randrange(4)], []
    head, want = [], []
    if rec['sig'] == 'good' and (crc or rng.random() < .3):
        f, x = fde(pl, rng, crc)
        head, want = [f], [x]
    at = len(sig) + sum(events.size(p) for p in head)
    left = rec['have']
    for l in lens:
        if left <= 0:
            break
        if left >= len(l):
            at += sum(l)
        else:       # the file ends inside this part or with it, but before the end of the event
            at += min(sum(l[:left - 1]) + rng.randrange(l[left - 1] + 1), sum(l) - 1)
        left -= len(l)
    for i, x in enumerate(rec['items']):
        want.append(xs[i])
    want.append(('end',))
    if not rec['open']:
        want = [('rejected',)]
    return {'live': False, 'sig': sig, 'pk': head + pk, 'cut': at if rec['sig'] == 'good' else None, 'n': len(want) + 2, 'want': want}


def every_cut(rng, pl, n, crc):
    """one file cut after every byte"""
    f, fx = fde(pl, rng, crc)
    seq = [(f, fx)] + [event(rng.choice(['event', 'event', 'unknown', 'bad']), 'small', rng, pl, crc) for _ in range(n)]
    ends, at = [], 4
    for p, _ in seq:
        at += events.size(p)
        ends.append(at)
    out = []
    for c in range(at + 1):
        want = [x for (_, x), e in zip(seq, ends) if e <= c] + [('end',)] if c >= 4 else [('rejected',)]
        out.append({'live': False, 'sig': SIG, 'pk': [p for p, _ in seq], 'cut': c, 'n': len(want) + 2, 'want': want})
    return out


def fdes(ctx, pl):
    pl['fde0'], pl['fde1'] = [], []
    for c in ctx.simulate('Decode', cfg({'MIX': 'C10', 'STEPS': 24}), 25, 30, 1, seedbase=700):
        for s in c['segs']:
            for it in s:
                if it['h'][4] == 15 and it['x'][0] == 'ok' and it['c'] == 1:
                    # the first event of a file: nothing is in force before it
                    alg = it['b'][-1]
                    pl['fde1' if alg == 1 else 'fde0'].append({'i': {'h': it['h'], 'b': it['b'], 'c': 1}, 'x': it['x'][1]})
    return pl


def run(ctx):
    rng = random.Random(ctx.seed * 13 + 1)
    out = ctx.path('reader.out')
    kinds, sizes = {'event', 'unknown', 'bad'}, {'none', 'small', 'full', 'over'}
    _, pl = ctx.together(
        lambda: ctx.tlc('Reader', cfg({'MAXE': 2 if ctx.quick else 3, 'KINDS': kinds, 'SIZES': sizes, 'V': set()}, spec='Spec', invariants=INV,
                                      properties=['Ends']), ['-workers', 1], out=out, timeout=600),
        lambda: fdes(ctx, events.pool(ctx)))
    recs = distinct(read_csv_json(out))
    # the reader's algorithm in force while it decodes the format description is none: its checksum bytes are then part of the event
    cases = [build(r, rng, pl) for r in recs]
    for i in range(6 if ctx.quick else 60):
        cases += every_cut(rng, pl, 2 + i % 6, i % 2 == 0)
    n_cut = len(cases) - len(recs)
    for _ in range(300 if ctx.quick else 6000):
        n = rng.choice([5, 20, 60])
        es = [{'k': rng.choice(['event', 'event', 'event', 'unknown', 'bad']), 'z': rng.choice(['small'] * 6 + ['full', 'over'])} for _ in range(n)]
        item = {'event': 'event', 'unknown': 'unknown', 'bad': 'error'}
        have = rng.randrange(4 * n + 1) if rng.random() < .6 else 4 * n
        cases.append(build({'sig': 'good', 'file': es, 'have': have, 'items': [item[e['k']] for e in es][:have // 4], 'open': True}, rng, pl))
    # more events than 16 bits count; the file ends within the last one
    c = many(rng, pl, 66000, False, False)
    c.update(sig=SIG, cut=4 + 27 * 65999 + rng.randrange(27), want=c['want'][:-2] + c['want'][-1:])
    cases.append(c)
    ctx.log(f'{len(recs)} files of the model, {n_cut} cuts of files at every byte, {len(cases) - len(recs) - n_cut} longer files')
    obs = ctx.execute('stream', cases, threads=8, timeout=700, each=120)
    stats = Counter()
    for c, o in zip(cases, obs):        # an open file that is rejected
        if o and isinstance(o, list) and o[0] and o[0][0] == 'open':
            o[0] = ['rejected', o[0][1]]
    compare(ctx, cases, obs, stats)
    if not ctx.quick and not ctx.n_viol:
        res = {}
        for v in ('quiet', 'loud'):
            t = ctx.tlc('Reader', cfg({'MAXE': 2, 'KINDS': kinds, 'SIZES': sizes, 'V': {v}}, spec='Spec', invariants=INV), ['-workers', 4], out=ctx.path('x'), expect_ok=False)[2]
            res[v] = next((i for i in INV if f'Invariant {i} is violated' in t), 'none')
        ctx.cov['design_flaws_noticed'] = res
    ctx.level = 'model_checking'
    ctx.cov.update(evaluations=len(cases), distinct_nontrivial=len({short([c['sig'], c['pk'], c['cut']], 10**6) for c in cases}),
                   rule='files of Reader.tla (every sequence of up to %d events of every kind and size class, ended after every part), files ended '
                        'after every byte and longer files, written and read with the real reader; distinct if the bytes differ' % (2 if ctx.quick else 3),
                   items=dict(stats), samples=[short(r, 300) for r in recs[::max(1, len(recs) // 4)]][:4])
