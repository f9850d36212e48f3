"""C01-C03: Replica.tla model checked, its random behaviours (ReplicaGen.tla)
executed on a real client and compared step by step."""
import re
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from core import cfg, bad, short

INV = {'C01': ['GtidExact'], 'C02': ['NoLoss', 'Decodable', 'InOrder'], 'C03': ['NoRepeat', 'RealPlace']}
GTID = [('mysql', 'gtid'), ('maria', 'gtid')]
FILE = [('mysql', 'start'), ('maria', 'pos'), ('mysql', 'end'), ('maria', 'start'), ('mysql', 'pos'), ('maria', 'end')]


def num(b):
    return int.from_bytes(bytes(b), 'little')


def gtid_text(maria, gt):
    """the text a program hands over for the position gt of the specification"""
    if maria:
        return ','.join(f'{num(d)}-{num(s)}-{num(n)}' for d, s, n in gt)
    def u(b):
        h = bytes(b).hex()
        return f'{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}'
    return ','.join(u(x) + ''.join(f':{num(a)}-{num(b)}' if a != b else f':{num(a)}' for a, b in iv) for x, iv in gt)


def gtid_value(maria, gt):
    """order-free value of a position of the specification"""
    if maria:
        return frozenset((num(d), num(s), num(n)) for d, s, n in gt)
    return frozenset((bytes(x).hex(), tuple((num(a), num(b)) for a, b in iv)) for x, iv in gt)


def parse_text(maria, text):
    """order-free value of a printed position"""
    try:
        parts = [p.strip() for p in text.split(',') if p.strip()]
        if maria:
            return frozenset(tuple(int(y) for y in p.split('-')) for p in parts)
        res = set()
        for p in parts:
            f = p.split(':')
            iv = tuple((int(x.split('-')[0]), int(x.split('-')[-1])) for x in f[1:])
            res.add((f[0].replace('-', '').lower(), iv))
        return frozenset(res)
    except ValueError:
        return text


def parse_dump(b):
    """(file, pos, gtid value or None) of a request for events"""
    b = bytes(b)
    try:
        if b[0] == 18:
            return b[11:], num(b[1:5]), None
        n = num(b[7:11])
        name = b[11:11 + n]
        p = 11 + n
        pos = num(b[p:p + 8])
        d = b[p + 12:]
        k = num(d[:8])
        d = d[8:]
        res = set()
        for _ in range(k):
            u, m = d[:16].hex(), num(d[16:24])
            d = d[24:]
            iv = []
            for _ in range(m):
                iv.append((num(d[:8]), num(d[8:16]) - 1))
                d = d[16:]
            res.add((u, tuple(iv)))
        return name, pos, frozenset(res) if not d else 'trailing bytes'
    except IndexError:
        return None


def recorded(prop, maria, gtid, o, a):
    """what differs between the recorded position demanded and the one seen"""
    r = []
    if prop != 'C01' and [o['file'], num(o['pos'])] != a[:2]:
        r.append(f'file and position {bytes(o["file"]).decode()}:{num(o["pos"])}, got {bytes(a[0]).decode("latin1")}:{a[1]}')
    if prop != 'C03' and gtid and gtid_value(maria, o['gt']) != parse_text(maria, a[2]):
        r.append(f'GTID position {gtid_text(maria, o["gt"])}, got {a[2]}')
    return r


def connect_state(queries):
    for q in queries:
        m = re.search(r"(?is)slave_connect_state\s*:?=\s*['\"]([^'\"]*)['\"]", q)
        if m:
            return m.group(1)
    return None


def step(prop, case, st, a):
    maria, gtid = case['maria'], case['strat'] == 'gtid'
    if a[0] in ('panic', 'err', 'nodump', 'restart'):
        return [f'a normal step, got {short(a)}']
    if st['a'] in ('commit', 'init'):
        return recorded(prop, maria, gtid, st['o'], a[1]) if a[0] == 'rec' else [f'a record, got {short(a)}']
    if st['a'] == 'connect':
        if a[0] != 'dump':
            return [f'a request for events, got {short(a)}']
        d = parse_dump(a[1])
        q = st['req']
        r = recorded(prop, maria, gtid, st['o'], a[3])
        if d is None:
            return r + ['a well formed request for events']
        if prop != 'C01' and not (maria and gtid) and (d[0] != bytes(q['file']) or d[1] != num(q['pos'])):
            r.append(f'a request from {bytes(q["file"]).decode()!r}:{num(q["pos"])}, got {d[0]!r}:{d[1]}')
        if gtid and prop != 'C03':
            if maria:
                cs = connect_state(a[2])
                if cs is None or parse_text(True, cs) != gtid_value(True, q['gt']):
                    r.append(f'connect state {gtid_text(True, q["gt"])}, got {cs}')
            elif d[2] != gtid_value(False, q['gt']):
                r.append(f'a request for all but {gtid_text(False, q["gt"])}, got {short(sorted(d[2]) if d[2] is not None else None)}')
        return r
    if st['a'] == 'event':
        if a[0] != 'event' or a[1] != st['e']['h']:
            return [f'event {st["k"]}, got {short(a)}']
        return recorded(prop, maria, gtid, case['last'], a[3])
    if st['a'] == 'drop':
        want = 'end' if st['end'] else 'err'
        return [] if a == ['dropped', want] else [f'{want} when the stream is over, got {short(a)}']
    return []


def compare(ctx, cases, obs, stats):
    for case, o in zip(cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        if bad(o):
            ctx.violation(f'the client {short(o)}', 'replica', case, None, o)
            continue
        for i, st in enumerate(case['steps']):
            a = o[i] if i < len(o) else ['nothing']
            r = step(ctx.prop, case, st, a)
            stats[st['a']] += 1
            if st['a'] == 'event':
                stats['event ' + st['k']] += 1
            if 'o' in st:
                case['last'] = st['o']
            if st['a'] == 'crash' and a[0] == 'rec':
                case['last'] = {'file': a[1][0], 'pos': list(a[1][1].to_bytes(4, 'little')), 'gt': case['saved']['gt']}
            if st['a'] == 'save':
                case['saved'] = case['last']
            if st['a'] == 'init':
                case['saved'] = st['o']
            if r:
                ctx.violation(f'step {i} ({st["a"]}) of {case["strat"]}/{"maria" if case["maria"] else "mysql"}: expected ' + '; '.join(r),
                              'replica', case, st, a)
                break


def prepare(c):
    i = c['steps'][0]['o']
    c['init'] = {'file': i['file'], 'pos': num(i['pos']), 'gtid': gtid_text(c['maria'], i['gt']) if c['strat'] == 'gtid' else ''}


# the specification alone: (NG, kinds, sources, interruptions, saves, lag, grow)
MC = {
    'C01': [((1, set(range(1, 15)), {1}, 2, 1, 2, False), GTID), ((2, {1, 4, 13}, {1, 2}, 1, 0, 1, False), GTID)],
    'C02': [((1, set(range(1, 15)), {1}, 2, 1, 2, False), GTID + FILE[:3]), ((2, {4, 12}, {1}, 1, 0, 1, False), GTID + FILE[:2])],
    'C03': [((1, set(range(1, 15)), {1}, 2, 1, 2, False), FILE), ((2, {4, 12}, {1}, 1, 0, 1, True), FILE[:4])],
}
MCT = {
    'C01': [((1, set(range(1, 15)), {0, 1}, 4, 2, 3, True), GTID), ((2, {1, 4, 6, 7, 13}, {1, 2}, 2, 1, 2, False), GTID)],
    'C02': [((1, set(range(1, 15)), {0, 1}, 3, 1, 3, True), GTID + FILE), ((2, {2, 4, 12}, {1, 2}, 2, 1, 2, True), GTID + FILE)],
    'C03': [((1, set(range(1, 15)), {0, 1}, 4, 2, 3, True), FILE), ((2, {2, 4, 6}, {1}, 2, 1, 2, True), FILE)],
}


def model_check(ctx):
    jobs = [(m, fs) for m, fss in (MC if ctx.quick else MCT)[ctx.prop] for fs in fss]

    def one(j):
        (ng, kinds, srcs, nb, ns, lag, grow), (fl, st) = j
        srcs = srcs - {0} if fl == 'maria' else srcs
        ctx.tlc('ReplicaMC', cfg({'FLAVOR': fl, 'STRAT': st, 'V': set(), 'MAXLAG': lag, 'HIST': False, 'NG': ng, 'KINDS': kinds,
                                  'SRCS': srcs, 'MAXBREAK': nb, 'MAXSAVE': ns, 'GROW': grow},
                                 'MCInit', 'MCNext', INV[ctx.prop]), ['-workers', 2 if ctx.quick else 4], partial_ok=not ctx.quick,
                timeout=200 if ctx.quick else 700)
    with ThreadPoolExecutor(4 if ctx.quick else 2) as ex:
        list(ex.map(one, jobs))


# flaws of the design that the invariants have to notice (thorough tier): variant -> configuration
CONTROL = {
    'C01': [('nostandalone', 'maria', 'gtid', (1, {3}, {1}, 1, 0, 1)), ('noxa', 'mysql', 'gtid', (1, {6}, {1}, 1, 0, 1)),
            ('keeptr', 'mysql', 'gtid', (2, {1, 4}, {1, 2}, 2, 0, 1)), ('nopayload', 'mysql', 'gtid', (1, {13}, {1}, 1, 0, 1)), ('keeppend', 'mysql', 'gtid', (2, {4, 10}, {0, 1}, 2, 0, 1))],
    'C02': [('gdumpfile', 'mysql', 'gtid', (2, {2}, {1}, 2, 0, 1)), ('stmtpos', 'mysql', 'start', (1, {2}, {1}, 1, 0, 1)), ('opaque', 'maria', 'start', (1, {12}, {1}, 1, 0, 1)),
            ('nostandalone', 'maria', 'gtid', (1, {3}, {1}, 1, 0, 1))],
    'C03': [],
}


def controls(ctx):
    res = {}
    for v, fl, st, (ng, kinds, srcs, nb, ns, lag) in CONTROL[ctx.prop]:
        o = ctx.tlc('ReplicaMC', cfg({'FLAVOR': fl, 'STRAT': st, 'V': {v}, 'MAXLAG': lag, 'HIST': False, 'NG': ng, 'KINDS': kinds,
                                      'SRCS': srcs, 'MAXBREAK': nb, 'MAXSAVE': ns, 'GROW': True}, 'MCInit', 'MCNext', INV[ctx.prop]),
                    ['-workers', 4], expect_ok=False, timeout=400)[2]
        m = re.search(r'Invariant (\w+) is violated', o)
        res[v] = m.group(1) if m else 'none'
    return res


def run(ctx):
    cfgs = {'C01': GTID, 'C02': GTID * 2 + FILE, 'C03': FILE + GTID}[ctx.prop]
    steps, num_, rounds = (70, 45, 1) if ctx.quick else (110, 160, 4)
    foci = [(f, s, 'mix') for f, s in cfgs] + [(f, s, 'switch') for f, s in cfgs if s == 'gtid']
    mix = [cfg({'FLAVOR': f, 'STRAT': s, 'V': set(), 'MAXLAG': 6, 'HIST': True, 'STEPS': steps, 'FOCUS': x}, next_='GNext',
               invariants=[] if ctx.quick else [x + 'G' for x in INV[ctx.prop]]) for f, s, x in foci]
    stats = Counter()
    n, distinct = 0, set()
    samples = []
    for r in range(rounds):
        cases = ctx.simulate('ReplicaGen', mix, num_, steps + 8, 8 if len(mix) <= 8 else len(mix), seedbase=100 * r)
        for c in cases:
            prepare(c)
        ctx.log(f'{len(cases)} behaviours generated')
        obs = ctx.execute('replica', cases, timeout=400)
        compare(ctx, cases, obs, stats)
        n += len(cases)
        distinct |= {hash(str(c['steps'])) for c in cases}
        samples = samples or [[short(s, 160) for s in c['steps'][:8]] for c in cases[:2]]
        if ctx.n_viol:
            break
    if not ctx.n_viol:
        model_check(ctx)
        if not ctx.quick:
            ctx.cov['design_flaws_noticed'] = controls(ctx)
    ctx.level = 'model_checking'
    ctx.cov.update(
        evaluations=sum(v for k, v in stats.items() if k in ('connect', 'event', 'commit', 'init', 'drop')), distinct_nontrivial=len(distinct),
        rule='Replica.tla checked exhaustively within the bounds of the ReplicaMC runs listed (invariants %s); %d random behaviours of '
             'ReplicaGen.tla executed on a real client, the recorded position and the request for events compared after every step'
             % (', '.join(INV[ctx.prop]), n),
        behaviours=n, skipped=stats['skipped'], steps={k: v for k, v in sorted(stats.items()) if k != 'skipped'}, samples=samples)
