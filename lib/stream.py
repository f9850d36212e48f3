"""C08: Stream.tla model checked; its behaviours (StreamGen.tla) played to the
real client over TCP, in the pieces the specification prescribes."""
import random, re
from collections import Counter
from core import cfg, bad, short, read_csv_json
import events

KINDS = {'event', 'unknown', 'bad', 'hb', 'refusal', 'odd', 'empty', 'eof'}
INV = ['Exact', 'Honest', 'Torn']
MAX = 0xFFFFFF
SIZES = [0, 1, 50, 200, 250, 251, 252, 255, 256, 300, 1000, 4095, 4096, 8192, 16384, 32748, 32749, 32750, 32768, 65516, 65535, 65536, 70000,
         131072, 262144, 1048576]


def refusal(rng):
    code, state = rng.choice([1236, 1045, 0, 65535, 255, 256, rng.randrange(65536)]), rng.choice(['HY000', '08S01', '28000', ''])
    msg = rng.choice(['Could not find first log file name in binary log index file', 'x', '', 'säid ' + 'y' * 300, 'a#b', 'é', 'Nö'])
    raw, whole = msg.encode(), True
    if rng.random() < .2:       # cut in the middle of a character, or in another character set
        msg = rng.choice(['Datei nicht gefunden: ', 'x', ''])
        raw, whole = msg.encode() + rng.choice([b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xe4hnlich', b'\xff\xfe', b'\x80 y']), False
    p = [255] + events.le(code, 2) + (list(b'#') + list(state.encode()) if state else []) + list(raw)
    return p, (code, state, msg, whole)


def quoted(text, whole=(True, True)):
    """text printed by itself, as it is or escaped; whole: its first, its last character ends it"""
    alts = {re.escape(text), re.escape(text.replace('\\', '\\\\').replace('"', '\\"'))}
    return (r'(?<![^\W_])' if whole[0] else '') + '(' + '|'.join(alts) + ')' + (r'(?![^\W_])' if whole[1] else '')


def reports(text, refused):
    """whether text carries the code, the state and the message of a refusal"""
    code, state, msg, whole = refused
    return all(re.search(x, text) for x in [quoted(str(code))] + ([quoted(state)] if state else []) + ([quoted(msg, (True, whole))] if msg else []))


def packet(k, rng, pl, crc, n=None):
    """-> (packet for the harness, expectation, lengths of the parts of its payload)"""
    if k == 'eof':
        r = rng.choice([[254, 0, 0, 2, 0], [254, 0, 0, 0, 0], [254, 255, 255, 255, 255], [254]])
        return {'raw': r}, ('end',), [len(r)]
    if k == 'odd':
        r = [rng.choice([1, 2, 3, 10, 128, 251, 253, rng.randrange(1, 254)])] + [rng.randrange(256) for _ in range(rng.choice([0, 1, 19, 40]))]
        return {'raw': r}, ('err', None), [len(r)]
    if k == 'empty':
        return {'raw': []}, ('err', None), []
    if k == 'refusal':
        r, x = refusal(rng)
        return {'raw': r}, ('err', x), [1, 2, len(r) - 3]
    if k == 'huge' or n is not None:
        e = events.big(rng, n, crc)
    elif k == 'bad':
        e = events.bad(rng, rng.choice([0, 20, 20, 20, 100, 40000]), crc)
    elif k == 'unknown' and rng.random() < .5:
        e = events.unknown(rng, rng.choice(SIZES[:12] if rng.random() < .9 else SIZES[:-2]), crc)
    elif k == 'event' and rng.random() < .3:
        e = events.big(rng, rng.choice(SIZES[:12] if rng.random() < .7 else SIZES[:-2]), crc)
        if e['x'][1][0] != 'big' and e['b'] == [] and e['h'][4] == 29:
            e['h'][4] = 160
    else:
        e = events.take(rng.choice(pl[k]), crc)
    x = ('err', None) if e['x'][0] == 'err' else ('ok', e['h'], e['x'][1])
    e = {k: v for k, v in e.items() if k != 'x'}
    return e, x, [1, 19, events.size(e) - 19]


def frame_parts(parts):
    """(absolute lengths of all parts of a packet on the wire, for a packet up to 16 MB)"""
    return [3, 1] + parts


def nest(rng):
    """an event whose text is a sequence of framed heartbeat packets; -> (packet, expectation, parts, lengths of these)"""
    def low(k):
        return [rng.randrange(128) for _ in range(k)]
    text, lens = [], []
    for _ in range(rng.choice([1, 2, 5])):
        body = list(b'mysql-bin.%06d' % rng.randrange(10**6))
        f = low(4) + [27] + low(4) + events.le(19 + len(body), 4) + low(4) + [0, 0] + body
        text += [len(f) + 1, 0, 0, rng.randrange(128), 0] + f
        lens.append(len(f) + 5)
    e = {'h': events.header(rng, 160, 19 + len(text)), 'b': text, 'c': 0}
    return e, ('ok', e['h'], ['rowsquery', text]), [1, 19, len(text)], lens


def build(rec, rng, pl, exact=None):
    """Concrete packets for a record of StreamGen; parts cut at their end or inside."""
    crc = rng.random() < .5 and 0 not in rec['chunks']
    nests, total = {}, 0
    for i, c in enumerate(rec['chunks']):       # a pause between the head and the body of an event
        total += c
        if c == 0 and total % 5 == 4 and all(k in ('event', 'bad', 'hb', 'unknown', 'refusal') for k in rec['sent'][:total // 5 + 1]):
            if rec['sent'][total // 5] == 'event' and rng.random() < .8:
                nests[total // 5] = i
    pk, xs, lens = [], [], []
    pauses = {}
    for j, k in enumerate(rec['sent']):
        if j in nests:
            p, x, parts, inner = nest(rng)
            pauses[nests[j]] = sum(map(sum, lens)) + 24 + sum(inner[:rng.randrange(len(inner))])
        else:
            p, x, parts = packet(k, rng, pl, crc)
        pk.append(p)
        xs.append(x)
        lens.append(frame_parts(parts))
    at, inside = 0, [0]
    for l in lens:
        end = at + sum(l)
        for i, n in enumerate(l):
            # a delivery that ends with this part may also end inside it, unless it completes its packet
            x = at + (rng.randrange(n) if n and i < len(l) - 1 and rng.random() < .5 else n)
            inside.append(x if i == len(l) - 1 else min(x, end - 1))
            at += n
    cuts, done, stalls = [], 0, []
    for i, c in enumerate(rec['chunks']):
        done += c
        if c == 0:
            stalls.append(pauses.get(i, inside[done]))
            cuts += stalls[-1:]
        else:
            cuts.append(inside[done])
    items, i = [], 0
    for x in rec['items']:
        items.append((x,) if x in ('lost', 'late') else xs[i])
        i += x != 'late'
    if stalls:
        starts = [sum(map(sum, lens[:i])) for i in range(len(lens))]
        ends = [sum(map(sum, lens[:i + 1])) for i in range(len(lens))]
        return {'live': True, 'maria': rng.random() < .3, 'nego': 'NONE', 'pk': pk, 'cuts': cuts, 'close': (cuts[-1] if cuts else 0) if rec['lost'] else None,
                'whole': [sum(e <= x for e in ends) for x in stalls], 'n': len(items) + 3, 'gap': 500, 'want': items, 'stalls': stalls, 'torn': [x not in starts for x in stalls], 'hb_ms': rng.choice([1, 200])}
    return {'live': True, 'maria': rng.random() < .3, 'nego': 'CRC32' if crc else 'NONE', 'pk': pk, 'cuts': cuts,
            'close': (cuts[-1] if cuts else 0) if rec['lost'] else None, 'n': len(items) + (0 if rec['lost'] else 1), 'gap': rng.choice([300, 700, 1500]),
            'want': items}


def fits(x, o):
    if x[0] == 'end':
        return o[0] == 'end'
    if x[0] == 'rejected':
        return o[0] == 'rejected'
    if x[0] == 'any':
        return o[0] in ('ok', 'err')
    if x[0] == 'over':
        return o[0] == 'end' or o[0] == 'err' and not late(o)
    if x[0] == 'lost':
        return o[0] == 'err' and o[-1] not in ('WouldBlock', 'TimedOut')
    if x[0] == 'ok':
        return o[0] == 'ok' and o[1] == x[1] and o[2] == x[2]
    if o[0] != 'err' or o[-1] in ('WouldBlock', 'TimedOut'):
        return False
    if x[1] is None:
        return True
    return reports(o[1], x[1])


def late(o):
    return o[0] == 'err' and o[-1] in ('WouldBlock', 'TimedOut')


def paused(case, o):
    """o with pauses: the first item the specification does not allow, or None.
    Whether the client tires is another property's (C17) concern; once it does inside a packet it may give the connection up"""
    want = [x for x in case['want'] if x[0] != 'late']
    seen = torn = j = 0
    for i, a in enumerate(o):
        if late(a):
            if seen == len(case['stalls']):
                return i, 'no further pause'
            # what had arrived before the pause has been yielded
            if case['whole'][seen] > j and not torn:
                return i, want[j]
            torn |= any(t for t, w in list(zip(case['torn'], case['whole']))[seen:] if w <= j)
            seen += 1
        elif torn:      # nothing but what is still to come, errors and an end
            m = next((m for m in range(j, len(want)) if fits(want[m], a)), None)
            if m is not None:
                j = m + 1
            elif a[0] not in ('err', 'end'):
                return i, 'an error, or what is still to come'
        elif j < len(want) and fits(want[j], a):
            j += 1
        elif j < len(want) or not (a[0] == 'err' and want and want[-1][0] == 'lost'):
            return i, want[j] if j < len(want) else 'nothing more'
    return (len(o), want[j]) if j < len(want) and not torn else None


def compare(ctx, cases, obs, stats, mode='stream'):
    for case, o in zip(cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        want = case['want']
        if bad(o):
            ctx.violation(f'the client {short(o)}', mode, case, None, o)
            continue
        if 'stalls' in case:
            stats['paused'] += 1
            stats['tired inside a packet'] += any(case['torn'])
            x = paused(case, o)
            if x:
                ctx.violation(f'item {x[0] + 1}, with pauses after bytes {case["stalls"]}: expected {short(x[1])}, got {short(o[x[0]] if x[0] < len(o) else None)}',
                              mode, case, x[1], o)
            continue
        for i, x in enumerate(want):
            a = o[i] if i < len(o) else ['nothing']
            stats[x[0]] += 1
            if not fits(x, a):
                ctx.violation(f'item {i + 1} of {len(want)}: expected {short(x)}, got {short(a)} (delivered in pieces up to {short(case.get("cuts"), 120)}'
                              f'{", then lost" if case.get("close") is not None else ""})', mode, case, x, a)
                break
        else:
            if len(o) > len(want):
                ctx.violation(f'an item too many: {short(o[len(want)])}', mode, case, want, o)


def many(rng, pl, n, crc, live=True):
    """a long stream of numbered events, now and then another packet"""
    pk, want = [], []
    for i in range(n):
        if live and rng.random() < .002:
            p, x, _ = packet(rng.choice(['hb', 'unknown', 'bad', 'refusal', 'odd', 'empty']), rng, pl, crc)
        else:
            e = events.numbered(rng, i, crc)
            p, x = {k: v for k, v in e.items() if k != 'x'}, ('ok', e['h'], e['x'][1])
        pk.append(p)
        want.append(x)
    if live:
        p, x, _ = packet('eof', rng, pl, crc)
        pk.append(p)
    return {'live': live, 'maria': rng.random() < .5, 'nego': 'CRC32' if crc else 'NONE', 'pk': pk, 'cuts': [], 'close': None,
            'n': n + 1, 'gap': 300, 'want': want + [('end',)], '_total': 0}


def directed(rng, pl, quick):
    """sizes around every limit of the framing, many packets in one piece, one byte at a time, a loss after every byte"""
    out = []

    def one(specs, crc=False, cuts='none', close=None, gap=300):
        pk, xs, total, starts = [], [], 0, []
        for k, n in specs:
            p, x, parts = packet(k, rng, pl, crc, n)
            pk.append(p)
            xs.append(x)
            starts.append(total)
            size = sum(parts)
            total += size + 4 * (size // MAX + 1)
        c = list(range(1, total)) if cuts == 'bytes' else [] if cuts == 'none' else cuts(total, starts)
        cl = None
        if close is not None:
            cl = close(total, starts)
            xs = [x for i, x in enumerate(xs) if (starts + [total])[i + 1] <= cl] + [('lost',)]
        return {'live': True, 'maria': rng.random() < .5, 'nego': 'CRC32' if crc else 'NONE', 'pk': pk, 'cuts': c, 'close': cl,
                'n': len(xs) + (0 if cl is not None else 1), 'gap': gap, 'want': xs, '_total': total}
    for n in SIZES[1:]:
        for crc in (False, True):
            out.append(one([('event', None), ('event', n), ('unknown', None), ('eof', None)], crc,
                           lambda t, st: sorted(rng.sample(range(1, t), min(t - 1, rng.choice([1, 3, 30]))))))
    # payloads around 16 MB: status byte + 19 + n
    for n in [MAX - 21, MAX - 20, MAX - 19, 2 * MAX - 20] + ([] if quick else [MAX - 22, 2 * MAX - 21, 2 * MAX - 19, 3 * MAX - 20, 3 * MAX]):
        out.append(one([('event', None), ('huge', n), ('event', None), ('hb', None), ('eof', None)], False,
                       lambda t, st: [st[1] + 3, st[1] + 4 + 100, st[2] - 1, st[2] + 1]))
        if n >= MAX - 20:
            out.append(one([('event', None), ('huge', n), ('event', None)], False, 'none', lambda t, st: st[1] + MAX + rng.choice([3, 4, 5, 7])))
    for crc in (False, True):
        out.append(one([(rng.choice(['event', 'hb', 'unknown', 'bad', 'refusal', 'odd']), None) for _ in range(700)] + [('eof', None)], crc))
        out.append(one([('event', None), ('hb', None), ('refusal', None), ('unknown', None), ('bad', None), ('eof', None)], crc, 'bytes', gap=150))
    # more packets than 8 or 16 bits count
    out.append(many(rng, pl, 66000, rng.random() < .5))
    for kinds in ['event hb', 'bad event', 'refusal unknown', 'hb eof'] + ([] if quick else ['unknown bad', 'odd event', 'event event', 'empty event']):
        probe = None
        st = rng.getstate()
        probe = one([(k, None) for k in kinds.split()])
        for i in range(min(probe['_total'], 150 if quick else 2000)):
            rng.setstate(st)
            out.append(one([(k, None) for k in kinds.split()], close=lambda t, st: i))
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 11 + 5)
    mc = {'event', 'bad', 'refusal', 'empty', 'eof'}
    out = ctx.path('stream.out')
    slow = ctx.path('slow.out')
    common = {'V': set(), 'HIST': True, 'MINP': 0}
    small = dict(common, MAXP=2, SMALL=True)
    long_, pl, lag = ctx.together(
        lambda: ctx.simulate('StreamGen', cfg(dict(common, MAXP=20, SMALL=False, KINDS=KINDS - {'eof'}, TIMES=0), init='GInit',
                                              next_='GNext', invariants=INV), 60 if ctx.quick else 1500, 400, 4 if ctx.quick else 8),
        lambda: events.pool(ctx),
        lambda: ctx.simulate('StreamGen', cfg(dict(common, MAXP=8, SMALL=False, KINDS={'event', 'unknown', 'bad', 'hb', 'refusal'}, TIMES=1 if ctx.quick else 2),
                                              init='GInit', next_='GNext', invariants=INV), 60 if ctx.quick else 400, 400, 2, seedbase=900),
        lambda: ctx.tlc('Stream', cfg({'MAXP': 2 if ctx.quick else 3, 'KINDS': mc, 'V': set(), 'HIST': False, 'TIMES': 1 if ctx.quick else 2}, spec='Spec',
                                      invariants=INV, properties=['Every', 'Noticed']), ['-workers', 4], timeout=800),
        lambda: ctx.tlc('StreamGen', cfg(dict(small, KINDS=KINDS, TIMES=0), init='GInit', next_='GNext', invariants=INV), ['-workers', 1], out=out,
                        timeout=300),
        lambda: ctx.tlc('StreamGen', cfg(dict(small, KINDS={'event', 'bad', 'eof'}, TIMES=1), init='GInit', next_='GNext', invariants=INV),
                        ['-workers', 1], out=slow, timeout=300))[:3]
    recs = read_csv_json(out)
    few = [r for r in recs if len(r['sent']) < 2 or r['sent'][1] == 'eof']
    two = [r for r in recs if len(r['sent']) == 2 and r['sent'][1] != 'eof']
    if ctx.quick:
        few = [r for r in few if len(r['sent']) < 2] + rng.sample(few, min(len(few), 1500))
        two = rng.sample(two, min(len(two), 1200))
    # pauses: most of them between the head and the body of an event
    slow = [r for r in read_csv_json(slow) if 0 in r['chunks']]
    mid = [r for r in slow if any(c == 0 and sum(r['chunks'][:i]) % 5 == 4 and r['sent'][sum(r['chunks'][:i]) // 5] == 'event' for i, c in enumerate(r['chunks']))]
    lag = [r for r in lag if 0 in r['chunks']]
    slow = rng.sample(slow, min(len(slow), 50 if ctx.quick else 500)) + rng.sample(mid, min(len(mid), 60 if ctx.quick else 500)) + lag[:60 if ctx.quick else 800]
    slow = [build(r, rng, pl) for r in slow]
    cases = [build(r, rng, pl) for r in few + two + long_] + directed(rng, pl, ctx.quick)
    ctx.log(f'{len(few)} + {len(two)} exhaustive, {len(long_)} random streams, {len(cases) - len(few) - len(two) - len(long_)} directed')
    stats = Counter()
    # big ones apart: each needs memory
    small = [c for c in cases if all(p.get('fill', 0) < 4 << 20 for p in c['pk'])]
    huge = [c for c in cases if any(p.get('fill', 0) >= 4 << 20 for p in c['pk'])]
    a, b, c = ctx.together(lambda: ctx.execute('stream', small, threads=64, each=120, timeout=700),
                           lambda: ctx.execute('stream', slow, threads=200, each=120, timeout=700),
                           lambda: ctx.execute('stream', huge, threads=4, each=120, timeout=200))
    compare(ctx, small, a, stats)
    compare(ctx, slow, b, stats)
    compare(ctx, huge, c, stats)
    if not ctx.quick and not ctx.n_viol:
        res = {}
        for v in ('short', 'gulp', 'polite', 'forget'):
            t = ctx.tlc('Stream', cfg({'MAXP': 2, 'KINDS': mc, 'V': {v}, 'HIST': False, 'TIMES': 1}, spec='Spec', invariants=INV), ['-workers', 4], expect_ok=False)[2]
            res[v] = next((i for i in INV if f'Invariant {i} is violated' in t), 'none')
        ctx.cov['design_flaws_noticed'] = res
    ctx.level = 'model_checking'
    ctx.cov.update(evaluations=len(cases), distinct_nontrivial=len({short([c['pk'], c['cuts'], c['close']], 10**6) for c in small}) + len(huge),
                   rule='streams of StreamGen.tla (every piecewise delivery of one packet with every loss, two packets sampled in the quick tier, '
                        'random longer ones) and of every size around the limits, played to the real client; two are distinct if packets or pieces differ',
                   items=dict(stats), pieces=sum(len(c['cuts']) + 1 for c in cases), largest=max(sum(events.size(p) if 'h' in p else len(p['raw']) for p in c['pk']) for c in huge),
                   samples=[{'sent': r['sent'], 'chunks': r['chunks'], 'items': r['items']} for r in long_[:3]])
