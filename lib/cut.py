"""C17: everything a server sends, cut short at every byte: the packets of
Session.tla (played and validated like in C06/C07), the events of Stream.tla
and Reader.tla (kind "cut")."""
import json, random
from collections import Counter
from core import cfg, bad, short, read_csv_json
import events
from reader import SIG, fdes
import decode
from session import concrete, fits
from stream import compare, refusal

# worlds in which every exchange of Session.tla occurs
BASE = dict(plugin='native', r1='ok', plugin2='none', r2='ok', pw=True, db=False, at='none', how='none', maria=False, strat='start', ssl='off', cap='any')
WORLDS = [
    dict(BASE, strat='end'),
    dict(BASE, maria=True, strat='gtid'),
    dict(BASE, plugin='sha2', r1='fast'),
    dict(BASE, plugin='sha2', r1='full'),
    dict(BASE, plugin='sha2', r1='switch', plugin2='native'),
    dict(BASE, plugin='native', r1='switch', plugin2='sha2', r2='full'),
    dict(BASE, plugin='native', r1='switch', plugin2='sha2', r2='fast', maria=True, strat='end'),
]


def exchanges(ctx, rng, quick):
    """Plays every world whole: (world, case, exchange, sizes of its packets) for every reply of the server there is."""
    plays, seen, out = [], set(), []
    for w in WORLDS * (1 if quick else 4):
        c = concrete(w, rng)
        if len(c['srv']['status']) > 4 and len(c['srv']['status'][4]) > 300:
            c['srv']['status'][4] = c['srv']['status'][4][:255]
        plays.append((w, c))
    obs = ctx.execute('session', [c for _, c in plays], threads=32)
    for (w, c), o in zip(plays, obs):
        if bad(o) or o == 'skipped' or o['sessions'][0]['res'][0] != 'stream':
            # that whole sessions work is the business of C06 and C07; without one nothing can be altered
            ctx.violation(f'a session without any fault does not lead to a stream: {short(o)}', 'session', c, w, o)
            continue
        for e in o['sessions'][0]['log']:
            if e['d'] != 's':
                continue
            k = (e['at'], tuple(e['sizes']), w['maria'], w['plugin'] if e['at'] in ('greet', 'auth') else '')
            if k not in seen:
                seen.add(k)
                out.append((w, c, e['at'], e['sizes']))
    return out


def play(ctx, cases, stats):
    """Sessions (world, case) with one fault, validated by SessionTrace."""
    obs = ctx.execute('session', [c for _, c in cases], threads=96, timeout=700)
    traces, back = [], []
    for (w, c), o in zip(cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        if bad(o) or 'sessions' not in o:
            ctx.violation(f'the client {short(o)}', 'session', c, w, o)
            continue
        s = o['sessions'][0]
        stats[f"{w['how']} at {w['at']}: {s['res'][0]}"] += 1
        log = [e if e['d'] != 'c' else {k: e[k] for k in ('d', 'm', 'seq', 'proof', 'plugin', 'who')} | {'fit': w['how'] != 'mid' or fits(c, e)}
               for e in s['log']]
        traces.append({'w': w, 'ss': [{'log': log, 'res': s['res'][0], 'msg': False}]})
        back.append((w, c, o))
    tp, vp = ctx.path('traces.json'), ctx.path('verdicts.out')
    for lo in range(0, len(traces), 3000):
        with open(tp, 'w') as f:
            json.dump(traces[lo:lo + 3000], f)
        ctx.tlc('SessionTrace', cfg({}), ['-workers', 4], out=vp, env={'TRACES': tp}, timeout=300)
        for r in read_csv_json(vp):
            w, c, o = back[lo + r['i'] - 1]
            s = o['sessions'][0]
            if r['why'] == 'message' and w['how'] != 'mid':
                continue        # before the fault: not a matter of this property
            ctx.violation(f"{short(c['sessions'][0], 200)}: the call ended with {short(s['res'])}", 'session', c, r, o)


def sessions(ctx, rng, stats):
    """Cuts every packet of every exchange at every byte."""
    cases = []
    ex = exchanges(ctx, rng, ctx.quick)
    for w, c, at, sizes in ex:
        def add(how, **kw):
            cases.append((dict(w, at=at, how=how), dict(c, sessions=[dict(at=at, how=how, **kw)])))
        for i, n in enumerate(sizes):
            for keep in range(n):
                add('cut', pkt=i, keep=keep)
        total = sum(sizes) + 4 * len(sizes)
        for keep in range(total) if not ctx.quick else sorted(rng.sample(range(total), min(total, 25))):
            add('mid', keep=keep)
        for keep in range(3 + 6 + 10):
            add('cuterr', keep=keep)
    ctx.log(f'{len(cases)} sessions with a cut in {len(ex)} exchanges')
    play(ctx, cases, stats)
    return len(cases)


def gather(ctx, quick):
    """whole events with what has to precede and may follow them"""
    res = []
    n = 5 if quick else 60

    def one(mix, steps, k):
        for c in ctx.simulate('Decode', cfg({'MIX': mix, 'STEPS': steps}), n * k, steps + 6, 1, seedbase=800 + int(mix[1:])):
            seg = c['segs'][0]
            used = Counter()
            for i, it in enumerate(seg):
                t = it['h'][4]
                used[t] += 1
                if it['x'][0] != 'ok' or used[t] > 3 or max(it['b'], default=0) > 255:
                    continue
                before = []
                rows = t in (23, 24, 25, 30, 31, 32)
                if rows:        # its table definition
                    tid = it['b'][:6]
                    before = [x for x in seg[:i] if x['h'][4] == 19 and x['b'][:6] == tid][-1:]
                    if not before:
                        continue
                res.append((mix, before, it))
    ctx.together(lambda: one('C12', 16, 1), lambda: one('C13', 16, 4), lambda: one('C14', 10, 2), lambda: one('C15', 30, 3), lambda: one('C10', 24, 1))
    return res


def plain(it, crc):
    return events.take({'h': it['h'], 'b': it['b'], 'x': it['x'][1]}, crc)


def strip(e):
    return {k: v for k, v in e.items() if k != 'x'}


def streams(ctx, rng, stats):
    pl = events.pool(ctx, 15)
    fdes(ctx, pl)
    cases = []
    for mix, before, it in gather(ctx, ctx.quick):
        for live in (True, False):
            crc = rng.random() < .5
            fde = it['h'][4] == 15
            e = plain(it, crc or fde)
            size = events.size(e)
            lo = 0 if live else 19
            keeps = list(range(lo, size))
            if len(keeps) > 160:
                keeps = keeps[:60] + sorted(rng.sample(keeps[60:-20], 80)) + keeps[-20:]
            pk, want = [], []

            def put(x, w):
                pk.append(strip(x))
                want.append(w)

            def whole(x):
                put(x, ('ok', x['h'], x['x'][1]))
            if not live and crc:
                f = rng.choice(pl['fde1'])
                put(f['i'], ('ok', f['i']['h'], f['x']))
            for x in before:
                whole(plain(x, crc))
            for k in keeps:
                c = dict(e, keep=k)
                if not live:
                    c['h'] = events.with_length(e['h'], k)
                put(c, ('any',))
                if not fde:
                    whole(events.take(rng.choice(pl['event']), crc))
                elif rng.random() < .1:
                    put(events.take(rng.choice(pl['event']), crc), ('any',))
            if not fde:
                whole(e)
            if live:
                for k in (0, 1, 2, 3, 5, 8, 12):
                    put({'raw': refusal(rng)[0][:k]}, ('any',))
                if not fde:
                    whole(events.take(rng.choice(pl['event']), crc))
                left = rng.randint(1, 5)
                pk.append({'raw': [254, 0, 0, 0, 0][:left]})
            # an end of the stream that is cut may be one or an error
            want.append(('end',) if not live or left == 5 else ('over',))
            case = {'live': live, 'maria': rng.random() < .5, 'nego': 'CRC32' if crc else 'NONE', 'pk': pk, 'cuts': [], 'close': None,
                    'n': len(want) + (want[-1][0] == 'end'), 'want': want, 'gap': 0}
            if not live:
                case['sig'] = SIG
            stats['cuts of type %d' % it['h'][4]] += len(keeps)
            cases.append(case)
    ctx.log(f'{len(cases)} streams and files with cut events')
    compare(ctx, cases, ctx.execute('stream', cases, threads=16, timeout=700, each=120), stats)
    return len(cases)


def run(ctx):
    rng = random.Random(ctx.seed * 17 + 9)
    stats = Counter()
    a = sessions(ctx, rng, stats)
    b = streams(ctx, rng, stats)
    # an event of every type and column type, cut at every byte
    more, k = decode.scenes(ctx, lambda b: [b[:n] for n in range(len(b))])
    ctx.log(f'{k} cuts of events of every type and column type')
    decode.compare(ctx, more, ctx.execute('decode', more), stats)
    stats['cuts of scenes'] = k
    cuts = sum(v for k, v in stats.items() if k.startswith('cuts of'))
    ctx.level = 'exploration'
    ctx.cov.update(evaluations=a + cuts, distinct_nontrivial=a + cuts,
                   rule='every packet of the exchanges of Session.tla cut at every byte (payload, and the connection closed in the middle), and events of '
                        'every type cut at every byte (at most 160 places each) on a stream and in a file, a whole event after each; counted: cuts',
                   classes={k: v for k, v in sorted(stats.items())}, samples=[k for k in list(stats)[:5]])
