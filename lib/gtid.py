"""C04, C05: GtidSet.tla / GtidList.tla model checked, every transition and
random texts executed on the real GtidSet / GtidList."""
import random
from collections import Counter
from core import cfg, bad, short, read_csv_json

BASES = [0, 1, 2**31 - 5, 2**32 - 5, 2**53 - 3, 2**63 - 1 - 500, 10**12 - 4]
SMALL = [0, 1, 9, 95, 2**31 - 3, 2**32 - 4, 2**63 - 1 - 12]
# three servers in ascending order: told apart by the first byte, the last, one in the middle
UUIDS = [['0a5fc2ee-b4d1-4c7b-9c29-0242ac11000' + x for x in '279'],
         ['10000000-0000-0000-0000-000000000000', '7fffffff-ffff-ffff-ffff-ffffffffffff', 'ffffffff-ffff-ffff-ffff-fffffffffffe'],
         ['24bc7850-2c16-11e6-a073-0242ac110001', '24bc7850-2c16-11e6-b073-0242ac110001', '24bc7850-2c17-11e6-a073-0242ac110001']]
FLAWED = {'U': UUIDS[0][0], 'Ushort': UUIDS[0][0][:-1], 'Ulong': UUIDS[0][0] + 'a', 'Unonhex': 'z' + UUIDS[0][0][1:],
          'Uwide': 'ü' + UUIDS[0][0][1:], 'Uwide2': UUIDS[0][0][:-2] + 'ü', 'Uhalf': UUIDS[0][0][:17]}


def letters(u, c, i):
    return u if c == 'lower' else u.upper() if c == 'upper' else ''.join(x.upper() if (k + i) % 3 == 0 else x for k, x in enumerate(u))


def iv_text(q, b):
    return ''.join(f':{x + b}' if x == y else f':{x + b}-{y + b}' for x, y in q)


def canon(post, us, b):
    """structure and text of a canonical set: post is one list of intervals per server"""
    live = [(us[i], q) for i, q in enumerate(post) if q]
    return ([[u, u.replace('-', ''), u, [[str(x + b), str(y + b)] for x, y in q]] for u, q in live],
            ','.join(u + iv_text(q, b) for u, q in live))


def seen(o, ret, struct, text, gt):
    if o[0] != 'ok':
        return f'no {o[0]}: {short(o)}'
    if ret is not None and o[1][0] != ret:
        return f'the addition to report {ret}, got {o[1][0]}'
    if gt is not None and o[1][1] != gt:
        return f'the GTID to print as {gt}, got {o[1][1]}'
    if o[2] != struct:
        return f'the contents {short(struct)}, got {short(o[2])}'
    if o[3] != text:
        return f'the text {text!r}, got {o[3]!r}'
    if o[4] != [struct, text]:
        return f'the printed text to parse back to the same, got {short(o[4])}'
    return None


def mysql_cases(recs, rng, quick):
    """[(ops, expectation per op)]"""
    out = []
    for r in recs:
        if r['k'] == 'bad':
            out.append(([{'parse': ''.join(FLAWED.get(t, t) for t in r['t'])}], [None]))
        elif r['k'] == 'rev':
            b, us = rng.choice(SMALL), rng.choice(UUIDS)
            out.append(([{'parse': us[0] + ''.join(f':{x + b}' if x == y else f':{x + b}-{y + b}' for x, y in r['list'])}],
                        [('may', None, *canon([r['post']], us, b), None)]))
        elif r['k'] == 'parse':
            for b in SMALL if len(r['list']) < 3 or not quick else [rng.choice(SMALL)]:
                us = rng.choice(UUIDS)
                text = us[0] + ''.join(f':{x + b}' if x == y and rng.random() < .8 else f':{x + b}-{y + b}' for x, y in r['list']) if r['list'] else ''
                out.append(([{'parse': text}], [(None, *canon([r['post']], us, b), None)]))
        elif r['k'] == 'add':
            for b in rng.sample(SMALL, 2) if quick else SMALL:
                us = rng.choice(UUIDS)
                s0, t0 = canon(r['pre'], us, b)
                u = us[r['v'] - 1]
                out.append(([{'parse': t0}, {'add': [u, str(r['n'] + b)], 'bin': rng.random() < .5}],
                            [(None, s0, t0, None), (r['new'], *canon(r['post'], us, b), f'{u}:{r["n"] + b}')]))
        else:
            b, us = BASES[r['base']], UUIDS[r['uuids']]
            ops, exp = [], []
            for op in r['ops']:
                if op['op'] == 'parse':
                    text = ','.join(e['w'] + letters(us[e['v'] - 1], e['c'], e['v']) + iv_text(e['list'], b) + e['x'] for e in op['e'])
                    ops.append({'parse': text})
                    exp.append((None, *canon(op['post'], us, b), None))
                else:
                    u = us[op['v'] - 1]
                    ops.append({'add': [letters(u, rng.choice(['lower', 'upper', 'mixed']), 1), str(op['n'] + b)], 'bin': rng.random() < .5})
                    exp.append((op['new'], *canon(op['post'], us, b), f'{u}:{op["n"] + b}'))
            out.append((ops, exp))
    return out


def maria_cases(recs, rng, quick):
    def tables():
        pool32 = [0, 1, 2, 10, 11, 255, 256, 65536, 2**31 - 1, 2**31, 2**32 - 1]
        pool64 = [0, 1, 2, 9, 10, 271, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]
        return rng.sample(pool32, 8), rng.sample(pool32, 6), sorted(rng.sample(pool64, 8))

    def lst(q, t):
        return [[t[0][d - 1], t[1][v - 1], str(t[2][n - 1])] for d, v, n in q]

    def text(q):
        return ','.join(f'{d}-{v}-{n}' for d, v, n in q)
    out = []
    for r in recs:
        t = tables()
        if r['k'] == 'bad':
            out.append(([{'parse': r['t']}], [None]))
        elif r['k'] == 'add':
            q, p = lst(r['pre'], t), lst(r['post'], t)
            g = lst([r['g']], t)[0]
            out.append(([{'parse': text(q)}, {'add': [str(x) for x in g]}],
                        [(None, q, text(q), None), (r['new'], p, text(p), text([g]))]))
        else:
            ops, exp = [], []
            for op in r['ops']:
                p = lst(op['post'], t)
                if op['op'] == 'parse':
                    ops.append({'parse': ','.join(w + text([g]) + x for g, (w, x) in zip(p, op['w']))})
                    exp.append((None, p, text(p), None))
                else:
                    g = lst([op['g']], t)[0]
                    ops.append({'add': [str(x) for x in g]})
                    exp.append((op['new'], p, text(p), text([g])))
            out.append((ops, exp))
    return out


def run(ctx):
    maria = ctx.prop == 'C05'
    rng = random.Random(ctx.seed)
    recs = []

    def exhaust(module, consts, invs):
        out = ctx.path(f'{module}-{len(recs)}.out')
        ctx.tlc(module, cfg(consts, invariants=invs), ['-workers', 1], out=out, timeout=300)
        recs.extend(read_csv_json(out))
    if maria:
        inv = ['OnePerDomain', 'Denotes']
        exhaust('GtidList', {'MODE': 'bad', 'D': 1, 'S': 1, 'N': 1}, inv)
        exhaust('GtidList', {'MODE': 'add', 'D': 3, 'S': 2, 'N': 2}, inv)
        if not ctx.quick:
            exhaust('GtidList', {'MODE': 'add', 'D': 4, 'S': 2, 'N': 2}, inv)
        recs += ctx.simulate('GtidList', cfg({'MODE': 'text', 'D': 6, 'S': 4, 'N': 8}, invariants=inv), 150 if ctx.quick else 3000, 40, 4)
        cases = maria_cases(recs, rng, ctx.quick)
    else:
        inv = ['Denotes', 'IsCanonical', 'Unique']
        exhaust('GtidSet', {'MODE': 'bad', 'N': 1, 'SRV': 1, 'LEN': 1}, inv)
        exhaust('GtidSet', {'MODE': 'add', 'N': 8 if ctx.quick else 11, 'SRV': 1, 'LEN': 0}, inv)
        exhaust('GtidSet', {'MODE': 'add', 'N': 2 if ctx.quick else 3, 'SRV': 3, 'LEN': 0}, inv)
        exhaust('GtidSet', {'MODE': 'parse', 'N': 4 if ctx.quick else 5, 'SRV': 1, 'LEN': 3}, inv)
        if not ctx.quick:
            exhaust('GtidSet', {'MODE': 'parse', 'N': 3, 'SRV': 1, 'LEN': 4}, inv)
        recs += ctx.simulate('GtidSet', cfg({'MODE': 'text', 'N': 1, 'SRV': 3, 'LEN': 1}, invariants=inv), 40 if ctx.quick else 1000, 95, 8)
        cases = mysql_cases(recs, rng, ctx.quick)
    ctx.log(f'{len(recs)} transitions and scripts, {len(cases)} cases')
    inputs = [{'maria': maria, 'ops': ops} for ops, _ in cases]
    obs = ctx.execute('gtid', inputs, timeout=400)
    stats = Counter(r['k'] for r in recs)
    n = 0
    for inp, (ops, exp), o in zip(inputs, cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        if bad(o):
            ctx.violation(f'the process {short(o)}', 'gtid', inp, None, o)
            continue
        for i, (op, e) in enumerate(zip(ops, exp)):
            a = o[i] if i < len(o) else ['nothing']
            n += 1
            if e is None:
                why = None if a[0] == 'err' else f'an error, got {short(a)}'
            elif e[0] == 'may':
                why = None if a[0] == 'err' else seen(a, *e[1:])
            else:
                why = seen(a, *e)
            if why:
                ctx.violation(f'{short(op, 200)}: expected {why}', 'gtid', inp, e, a)
                break
    ctx.level = 'model_checking'
    ctx.cov.update(
        evaluations=n, distinct_nontrivial=len({short(i['ops'], 10**6) for i in inputs}),
        rule='every transition of the exhaustive runs listed (additions to every set of small numbers, every short list of intervals), '
             'rendered at several bases up to 2^63, plus random texts followed by random additions; contents, printed text, parse of the '
             'printed text and return value compared with the specification after every operation',
        records=dict(stats), exhaustive_within_bounds=True, samples=[short(i['ops'][:3], 300) for i in inputs[::max(1, len(inputs) // 5)]][:5])
