"""C18: random worlds of Start.tla, each played with the real client; the
request for events compared byte by byte with the one the specification
demands."""
import random
from collections import Counter
from core import cfg, bad, short
from replica import num, gtid_text, parse_text, connect_state
from session import concrete

FLOW = {'plugin': 'native', 'r1': 'ok', 'plugin2': 'none', 'r2': 'ok', 'pw': True, 'db': False, 'at': 'none', 'how': 'none',
        'ssl': 'off', 'cap': 'any'}


def make(rec, rng):
    w = rec['w']
    gtid = w['strat'] in ('gset', 'glist')
    c = concrete(dict(FLOW, maria=w['maria'], strat='start'), rng)
    c['opt'].update(strat=w['strat'], file=w['file'], pos=num(w['pos']), server_id=num(w['sid']), blocking=w['blocking'],
                    gtid='' if not gtid else gtid_text(False, [[p['u'], p['iv']] for p in w['gset']]) if w['strat'] == 'gset'
                    else gtid_text(True, [[g['d'], g['v'], g['n']] for g in w['glist']]))
    if w['rec']:
        c['opt']['rec'] = [w['rfile'], num(w['rpos'])]
    c['srv']['status'][0] = w['efile']
    c['srv']['status'][1] = list(str(num(w['epos'])).encode())
    c['sessions'] = [{'at': 'none', 'how': 'none'}] * 2       # connecting again without a commit asks for the same
    return c


def judge(rec, case, s):
    q, w = rec['req'], rec['w']
    dumps = [e for e in s['log'] if e['d'] == 'c' and e['m'] == 'dump']
    texts = [e['text'] for e in s['log'] if e['d'] == 'c' and isinstance(e['text'], str)]
    if q['k'] == 'none':
        if s['res'][0] != 'error':
            return f'an error, got {short(s["res"])}'
        return 'no request for events' if dumps else None
    if s['res'][0] != 'stream' or len(dumps) != 1:
        return f'one request for events, got {len(dumps)} and {short(s["res"])}'
    d = bytes(dumps[0]['text'])
    if q['k'] in ('file', 'state'):
        if d[0] != 18:
            return f'COM_BINLOG_DUMP, got {d[0]}'
        pos, flags, sid, name = d[1:5], num(d[5:7]), d[7:11], d[11:]
        if q['k'] == 'state':
            cs = [connect_state([t]) for t in texts if 'slave_connect_state' in t.lower()]
            want = frozenset((num(a), num(b), num(n)) for a, b, n in q['list'])
            if len(cs) != 1 or cs[0] is None or parse_text(True, cs[0]) != want:
                return f'connect state {sorted(want)}, got {cs}'
        elif (name, pos) != (bytes(q['file']), bytes(q['pos'])):
            return f'file {bytes(q["file"])!r} position {num(q["pos"])}, got {name!r} {num(pos)}'
    else:
        if d[0] != 30:
            return f'COM_BINLOG_DUMP_GTID, got {d[0]}'
        flags, sid, n = num(d[1:3]), d[3:7], num(d[7:11])
        name, p = d[11:11 + n], 11 + n
        if name or d[p:p + 8] != bytes(q['pos']):
            return f'no file name and position 4, got {name!r} {num(d[p:p + 8])}'
        data = d[p + 12:]
        if num(d[p + 8:p + 12]) != len(data) or num(data[:8]) != len(q['blocks']):
            return f'{len(q["blocks"])} servers in {8 + sum(map(len, q["blocks"]))} bytes, got {num(data[:8])} in {num(d[p + 8:p + 12])} ({len(data)} sent)'
        left, data = sorted(bytes(x) for x in q['blocks']), data[8:]
        while left:
            x = next((x for x in left if data.startswith(x)), None)
            if x is None:
                return f'the set {short([x.hex() for x in left], 300)} in any order, got {data.hex()[:300]}'
            left.remove(x)
            data = data[len(x):]
        if data:
            return f'nothing after the set, got {data.hex()}'
        flags &= ~6
    if sid != bytes(q['sid']):
        return f'server id {num(q["sid"])}, got {num(sid)}'
    if flags & ~(0 if w['blocking'] else 1):
        return f'flags 0, got {flags}'
    f, p = rec['rec']
    if s['rec'] != [f, num(p)]:
        return f'the recorded position {bytes(f)!r}:{num(p)}, got {short(s["rec"])}'
    return None


def run(ctx):
    rng = random.Random(ctx.seed)
    recs = ctx.simulate('Start', cfg({}), 120 if ctx.quick else 2500, 4, 8)
    cases = [make(r, rng) for r in recs]
    ctx.log(f'{len(cases)} worlds')
    obs = ctx.execute('session', cases, threads=64, timeout=600)
    stats = Counter()
    for r, c, o in zip(recs, cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        if bad(o) or 'sessions' not in o:
            ctx.violation(f'the client {short(o)}', 'session', c, r, o)
            continue
        w = r['w']
        stats[f"{w['strat']} {'maria' if w['maria'] else 'mysql'}{' recorded' if w['rec'] else ''}{'' if w['blocking'] else ' nonblocking'}"] += 1
        for s in o['sessions']:
            why = judge(r, c, s)
            if why:
                ctx.violation(f"{w['strat']}/{'maria' if w['maria'] else 'mysql'}: expected {why}", 'session', c, r, o)
                break
    ctx.level = 'exploration'
    ctx.cov.update(evaluations=2 * len(cases), distinct_nontrivial=len({short(r['w'], 10**6) for r in recs}),
                   rule='random worlds of Start.tla (strategy, server flavor, recorded position, blocking, server id, names, positions, GTID sets '
                        'and lists), each played twice with the real client; the request compared byte by byte (servers of a set in any order)',
                   classes=dict(sorted(stats.items())), samples=[short(r['req'], 300) for r in recs[:5]])
