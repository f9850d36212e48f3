"""C10-C15: behaviours of Decode.tla executed on the real decoder."""
import os, re
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from core import cfg, bad, short, read_csv_json
from events import with_length

INV = ['OneDefPerId', 'LengthOk', 'AlgInForce']
# property -> (steps, behaviours per TLC process, processes) for each tier
SIZE = {
    'C10': ((24, 120, 4), (40, 900, 8)),
    'C11': ((40, 120, 4), (60, 700, 8)),
    'C12': ((16, 45, 8), (16, 900, 8)),
    'C13': ((16, 45, 8), (16, 900, 8)),
    'C14': ((10, 45, 8), (10, 900, 8)),
    'C15': ((30, 120, 6), (40, 1500, 8)),
}
# the small domains taken in full (DecodeAll.tla): (columns, rows per declaration, processes)
FULL = {'C10': ((3, 1, 2), (3, 1, 2)), 'C11': ((3, 1, 4), (3, 1, 8)), 'C12': ((3, 1, 8), (4, 1, 8)), 'C13': ((3, 2, 8), (3, 12, 8)), 'C14': ((3, 1, 8), (3, 1, 8)),
        'C15': ((3, 1, 2), (3, 1, 2)), 'C20': ((3, 1, 2), (3, 1, 8))}
NOMAP = re.compile(r'(?i)table.?map|definition')


def matches(x, a, h):
    """expected x, observed a"""
    if x[0] == 'any':
        return a[0] in ('ok', 'err')
    if x[0] == 'ok':
        return a[0] == 'ok' and a[2] == x[1] and a[1] == h
    if a[0] != 'err':
        return False
    return x[1] != 'nomap' or NOMAP.search(a[1]) is not None


def compare(ctx, cases, obs, stats):
    for case, o in zip(cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        if bad(o):
            ctx.violation(f'the decoder {short(o)} on a behaviour of the specification', 'decode', case, None, o)
            continue
        if case.get('refused'):
            stats['items'] += 1
            if o[0][0][0] != 'open':
                ctx.violation(f'a server with checksum algorithm {case["nego"]!r}: expected an error, got {short(o[0][0])}', 'decode', case, ['open'], o)
            continue
        for si, seg in enumerate(case['segs']):
            os_ = o[si] if si < len(o) else []
            for k in range(len(seg) + 1):
                a = os_[k] if k < len(os_) else ['nothing']
                if k == len(seg):
                    if a != ['end']:
                        ctx.violation(f'after the last event: expected the end, got {short(a)}', 'decode', case, ['end'], a)
                    break
                it = seg[k]
                stats['items'] += 1
                stats['type %d' % it['h'][4]] += 1
                if not matches(it['x'], a, it['h']):
                    # text that is not UTF-8 and is reported as an error: recorded in KNOWN_FINDINGS.txt
                    odd = f'nonutf8-{case["odd"]}' if k in case.get('oddat', ()) and a[0] == 'err' else None
                    ctx.violation(f'event {k} of stream {si} (type {it["h"][4]}): expected {short(it["x"])}, got {short(a)}',
                                  'decode', case, it['x'], a, key=odd)
                    if odd is None:
                        break


def full(ctx, mix=None):
    mix = mix or ctx.prop
    if mix not in FULL:
        return []
    nmax, rows, parts = FULL[mix][0 if ctx.quick else 1]
    salts = [ctx.seed] if ctx.quick or mix == 'C12' else [4 * ctx.seed + i for i in range(4)]
    outs = []

    def one(j):
        salt, part = j
        out = ctx.path(f'full-{salt}-{part}.out')
        ctx.tlc('DecodeAll', cfg({'MIX': mix, 'STEPS': 1, 'NMAX': nmax, 'ROWS': rows, 'SALT': salt, 'PART': part, 'PARTS': parts},
                                 'AInit', 'ANext'), ['-workers', 1], out=out, partial_ok=not ctx.quick, timeout=200 if ctx.quick else 400)
        return out
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, [(s, p) for s in salts for p in range(parts)]))
    res = []
    for o in outs:
        res += read_csv_json(o)
        os.remove(o)
    return res


def scenes(ctx, alter):
    """the scenes of DecodeAll with the victim replaced by what alter() makes of its body, a hundred or so in a stream"""
    cases, n = [], 0
    for s in full(ctx, 'C20'):
        sc, seg, count = s['scene'], [], 0
        v = sc['victim']
        b = [x for e in v['b'] for x in ([e] if e < 256 else [e % 256] * (e // 256))]

        def close():
            cases.append({'live': s['live'], 'nego': s['nego'], 'refused': False, 'segs': [list(seg)]})
            seg.clear()
        for a in alter(b):
            seg += sc['pre'] + [dict(v, b=a, h=with_length(v['h'], 19 + len(a) + 4 * v['c']), x=['any'])]
            seg += [dict(d, x=['any']) for d in sc['dep']] + sc['post']
            n += 1
            count += 1
            if count % 100 == 0:
                close()
        close()
    return cases, n


def run(ctx):
    steps, num, jvms = SIZE[ctx.prop][0 if ctx.quick else 1]
    cases = ctx.simulate('Decode', cfg({'MIX': ctx.prop, 'STEPS': steps}, invariants=INV), num, steps + 6, jvms)
    ctx.log(f'{len(cases)} behaviours generated')
    drawn = len(cases)
    cases += full(ctx)
    ctx.log(f'{len(cases) - drawn} chunks of the full domains')
    for i, c in enumerate(cases):
        c['maria'] = i % 3 == 1
    obs = ctx.execute('decode', cases)
    stats = Counter()
    compare(ctx, cases, obs, stats)
    items = set()
    for c in cases:
        for s in c['segs']:
            for i in s:
                items.add(hash((i['h'][4], tuple(i['b']), i['c'])))
    ctx.level = 'exploration'
    ctx.cov.update(
        evaluations=stats['items'], distinct_nontrivial=len(items),
        rule='events of random behaviours of Decode.tla (mix %s), executed on the real decoder over a replication connection or '
             'from a file and compared field by field with the report the specification demands; two events are distinct if type, '
             'body or checksum presence differ' % ctx.prop,
        behaviours=len(cases), skipped=stats['skipped'],
        live=sum(1 for c in cases if c['live']), with_crc32=sum(1 for c in cases if c['nego'] == 'CRC32'),
        events_by_type={k[5:]: v for k, v in sorted(stats.items()) if k.startswith('type ')},
        expected_errors=sum(1 for c in cases for s in c['segs'] for i in s if i['x'][0] == 'err'),
        samples=[{'event': i['b'][:60], 'type': i['h'][4], 'checksum': i['c'], 'expected': short(i['x'], 300)}
                 for c in cases[:3] for i in c['segs'][0][:2]])
