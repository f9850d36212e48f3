"""C06, C07: Session.tla model checked (SessionMC.tla); the same worlds are
played with the real client and the recorded sessions checked against the
specification (SessionTrace.tla)."""
import json, random, re, string
from collections import Counter
from core import cfg, bad, short, read_csv_json
from replica import parse_dump, connect_state, parse_text, num
from stream import refusal, reports

NAMES = {'native': 'mysql_native_password', 'sha2': 'caching_sha2_password'}
OTHERS = ['sha256_password', 'client_ed25519', 'auth_gssapi_client', 'dialog', 'mysql_old_password', 'mysql_clear_password',
          'mysql_native_password2', 'Caching_sha2_password', '', 'x']
MYSQL = ['8.0.32', '5.7.44-log', '5.6.51', '8.4.0', '9.1.0-commercial']
MARIA = ['5.5.5-10.6.12-MariaDB-log', '10.11.2-MariaDB-1:10.11.2+maria~ubu2204', '11.4.2-MariaDB', '5.5.5-10.2.44-MariaDB']
UUID = '3e11fa47-71ca-11e1-9e33-c80aa9429562'


def b(s):
    return list(s.encode() if isinstance(s, str) else s)


def le(n, k):
    return list(n.to_bytes(k, 'little'))


def scramble(rng):
    # what servers generate: 7 bit, no NUL, no '$'
    c = [x for x in range(1, 128) if x != 36]
    return [rng.choice(c) for _ in range(20)]


def greeting(rng, version, sc, plugin, maria, ssl='any'):
    caps = 0x81FFF7FF if rng.random() < .7 else 0x00088200 | 0x1 | 0x8
    if ssl == 'yes' or ssl == 'any' and rng.random() < .3:
        caps |= 1 << 11
    else:
        caps &= ~(1 << 11)
    low, up = caps & 0xFFFF, caps >> 16
    ext = [0] * 4 if not maria or rng.random() < .5 else le(rng.choice([7, 0x1d, 0xff]), 4)
    return ([10] + b(version) + [0] + le(rng.choice([0, 1, 77, 255, 65536, 2**32 - 1, rng.randrange(2**32)]), 4)
            + sc[:8] + [0] + le(low, 2) + [rng.choice([8, 33, 45, 255])] + le(rng.choice([0, 2, 3, 0x4002]), 2) + le(up, 2)
            + [rng.choice([21, 21, 0])] + [0] * 6 + ext + sc[8:] + [0] + b(plugin) + [0])


def junk(w, status, rng):
    """a reply that does not answer the question: the cells of its row, None: no row"""
    if w['how'] != 'junk':
        return None
    if w['at'] == 'status':
        return rng.choice([None, status[:1]] + [[status[0], b(x)] + status[2:] for x in ('', 'abc', '-4', '4x', 'mysql-bin.000001', '9' * 30)])
    return rng.choice([None] + [[b(x)] for x in ('', 'SHA256', 'CRC33', 'NONE1', '2')])


def concrete(w, rng):
    maria = w['maria']
    word = lambda n: ''.join(rng.choice(string.ascii_letters + string.digits) for _ in range(n))
    pw = '' if not w['pw'] else rng.choice([word(6), word(5) + ' ', '\t ' + word(6), word(7) + '\n', word(8), word(19), word(20), word(21), word(32), word(33), word(63), word(190),
                                            'pÄss wörd€' + word(3), word(64), "it's\"\\" + word(4)])
    plugin = NAMES.get(w['plugin']) or rng.choice(OTHERS)
    plugin2 = NAMES.get(w['plugin2']) or rng.choice(OTHERS)
    sc1, sc2 = scramble(rng), scramble(rng)
    strat = {'gtid': 'glist' if maria else 'gset'}.get(w['strat'], w['strat'])
    hb = rng.choice([30_000_000_000, 30_000_000_000, 10**6, 500 * 10**6, 10**9, 1_500_000_001, 60 * 10**9, 4294967 * 10**6, 3600 * 10**9])
    status = [b(rng.choice(['mysql-bin.000001', 'binlog.999999', 'b.1', 'x' * 100 + '.000002'])),
              b(str(rng.choice([4, 154, 2**31, 2**32 - 1, rng.randrange(4, 2**32)]))),
              b(rng.choice(['', 'db1'])), b(rng.choice(['', 'db2,db3'])),
              b(rng.choice(['', UUID + ':1-5', ',\n'.join(f'{UUID[:-3]}{i:03d}:1-{i}' for i in range(100, 106)),
                            'y' * 250, 'y' * 251, 'y' * 65535, 'y' * 65536, 'y' * 70001]))]
    if maria:
        status = status[:4]
    err, refused = refusal(rng)
    return {
        'opt': {'user': b(rng.choice(['repl', 'u', ' u ', 'üser', 'a' * 32, 'root'])), 'pw': b(pw),
                'db': b(rng.choice(['test', 'd', 'dätabase', 'z' * 64])) if w['db'] else None,
                'strat': strat, 'file': b('mysql-bin.000007'), 'pos': 1234,
                'gtid': '' if w['strat'] != 'gtid' else rng.choice(['', '0-1-5', '0-1-5,7-2-18446744073709551615']) if maria
                        else rng.choice(['', UUID + ':1-5:7']),
                'hb_ns': str(hb), 'server_id': rng.choice([1, 65535, 2**32 - 1]), 'blocking': rng.random() < .7,
                'ssl': {'off': 0, 'try': 1, 'must': rng.choice([2, 3, 4])}[w['ssl']],
                'late': w['ssl'] != 'off' and rng.random() < .9},
        'srv': {'greet': greeting(rng, rng.choice(MARIA if maria else MYSQL), sc1, plugin, maria, w['cap']), 'scramble1': sc1, 'scramble2': sc2,
                'plugin2_name': b(plugin2), 'r1': w['r1'], 'r2': w['r2'], 'status': status, 'checksum': b(rng.choice(['CRC32', 'NONE']))},
        'err': err, 'refused': refused,
        'col': rng.randrange(8),
        'junk': junk(w, status, rng),
        'sessions': [{'at': w['at'], 'how': w['how']}] + ([{'at': 'none', 'how': 'none'}] if w['at'] != 'none' else []),
    }


CONTENT = {
    'status': r'show (master|binary log|binlog) status',
    'ckset': r"set (session )?@(@session\.)?master_binlog_checksum ?:?= ?(@@(global\.)?binlog_checksum|'(none|crc32)')",
    'ckget': r'select @(@session\.)?master_binlog_checksum.*',
    'cap': r'set (session )?@mariadb_slave_capability ?:?= ?4',
    'strict': r"set (session )?@slave_gtid_strict_mode ?:?= ?'?0'?",
    'ignoredup': r"set (session )?@slave_gtid_ignore_duplicates ?:?= ?'?0'?",
}


def registers(text, server_id):
    """COM_REGISTER_SLAVE with this server id"""
    if isinstance(text, str):
        return False
    p = bytes(text)
    if p[:1] != b'\x15' or int.from_bytes(p[1:5], 'little') != server_id:
        return False
    p = p[5:]
    for _ in range(3):
        if not p:
            return False
        p = p[1 + p[0]:]
    return len(p) == 10


def fits(case, e):
    """whether the contents of a request are the configured ones"""
    o = case['opt']
    if e['m'] in CONTENT:
        q = re.sub(r'\s+', ' ', e['text']).strip(' ;').lower()
        return e['fit'] and re.fullmatch(CONTENT[e['m']], q) is not None
    if e['m'] == 'register':
        return e['fit'] and registers(e['text'], o['server_id'])
    if e['m'] == 'cstate':
        t = connect_state([e['text']]) if isinstance(e['text'], str) else None
        return t is not None and parse_text(True, t) == parse_text(True, o['gtid'])
    if e['m'] == 'dump' and o['strat'] == 'end':
        d = None if isinstance(e['text'], str) else parse_dump(e['text'])
        return d is not None and d[0] == bytes(case['srv']['status'][0]) and d[1] == int(bytes(case['srv']['status'][1]))
    return e['fit']


def run(ctx):
    rng = random.Random(ctx.seed * 7 + 3)
    which = {'C07': 'auth', 'C06': 'setup', 'C19': 'ssl'}[ctx.prop]
    out = ctx.path('worlds.out')
    inv = ['Stops', 'Lockstep', 'All', 'Accepted', 'Proves', 'Outcome', 'Sealed']
    ctx.tlc('SessionMC', cfg({'WHICH': which, 'V': set()}, spec='Spec', invariants=inv, properties=['Ends']), ['-workers', 4], out=out, timeout=300)
    worlds = read_csv_json(out)
    copies = {'C07': 1, 'C06': 3, 'C19': 1}[ctx.prop] if ctx.quick else {'C07': 12, 'C06': 40, 'C19': 12}[ctx.prop]
    worlds = worlds * copies
    cases = [concrete(w, rng) for w in worlds]
    ctx.log(f'{len(cases)} sessions to play')
    obs = ctx.execute('session', cases, threads=64, timeout=600)
    stats = Counter()
    traces, back = [], []
    for w, case, o in zip(worlds, cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        if not bad(o) and 'refused' in o and w['ssl'] != 'off':
            stats['refused from the outset'] += 1
            continue
        if bad(o) or 'sessions' not in o:
            ctx.violation(f'the client {short(o)}', 'session', case, w, o)
            continue
        ss = []
        for s in o['sessions']:
            log = []
            for e in s['log']:
                stats[e['d'] + ' ' + e['m']] += 1
                if e['d'] == 'c':
                    e = {k: e[k] for k in ('d', 'm', 'seq', 'proof', 'plugin', 'who')} | {'fit': fits(case, e)}
                log.append(e)
            stats['returned ' + s['res'][0]] += 1
            ss.append({'log': log, 'res': s['res'][0], 'msg': len(s['res']) > 1 and reports(s['res'][1], case['refused'])})
        traces.append({'w': w, 'ss': ss})
        back.append((w, case, o))
    tp, vp = ctx.path('traces.json'), ctx.path('verdicts.out')
    for lo in range(0, len(traces), 2000):
        with open(tp, 'w') as f:
            json.dump(traces[lo:lo + 2000], f)
        ctx.tlc('SessionTrace', cfg({}), ['-workers', 4], out=vp, env={'TRACES': tp}, timeout=300)
        for r in read_csv_json(vp):
            i = lo + r['i'] - 1
            w, case, o = back[i]
            s = traces[i]['ss'][r['k'] - 1]
            e = s['log'][r['j'] - 1] if r['why'] == 'message' else [s['res'], o['sessions'][r['k'] - 1]['res']]
            ctx.violation(f'session {r["k"]} with {short(w, 300)}: in state {r["ph"]}/{r["cur"]} (challenge {r["chal"]}, {r["plug"]}; done '
                          f'{sorted(r["ok"])}) the specification does not allow {short(e, 300)}', 'session', case, r, o)
    if not ctx.quick and not ctx.n_viol:
        res = {}
        for v, wh in (('hasty', 'setup'), ('deaf', 'setup'), ('stale', 'auth'), ('naive', 'ssl')):
            t = ctx.tlc('SessionMC', cfg({'WHICH': wh, 'V': {v}}, spec='Spec', invariants=inv), ['-workers', 4], out=out, expect_ok=False)[2]
            res[v] = next((i for i in inv if f'Invariant {i} is violated' in t), 'none')
        ctx.cov['design_flaws_noticed'] = res
    ctx.level = 'model_checking'
    ctx.cov.update(
        evaluations=len(traces), distinct_nontrivial=len({short(t, 10**6) for t in traces}),
        rule='SessionMC.tla checked exhaustively for every world (%s); every world played with the real client, %d time(s) with random '
             'contents, and the recorded sessions (a failed one is followed by another with the same options) validated message by message '
             'by SessionTrace.tla' % (which, copies),
        worlds=len(worlds) // copies, messages={k: v for k, v in sorted(stats.items())},
        samples=[[e['m'] for e in t['ss'][0]['log']] + [t['ss'][0]['res']] for t in traces[::max(1, len(traces) // 5)]][:5])
