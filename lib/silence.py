"""C16: Silence.tla model checked; every world of it played with the real
client in real time."""
import random
from collections import Counter
from core import cfg, bad, short, read_csv_json, distinct
import events
from session import concrete

INV = ['Detected', 'OnlySilent', 'Patient']
BASE = dict(plugin='native', r1='ok', plugin2='none', r2='ok', pw=True, db=False, at='none', how='none', maria=False, strat='end', ssl='off', cap='any')
MARIA = dict(BASE, maria=True, strat='gtid')
FULL = dict(BASE, plugin='sha2', r1='full')
# a world of Session.tla in which the stage occurs
WORLD = {'greet': BASE, 'auth': BASE, 'switch': dict(BASE, plugin='sha2', r1='switch', plugin2='native'), 'fast': dict(BASE, plugin='sha2', r1='fast'),
         'keyreq': FULL, 'rsa': FULL, 'status': BASE, 'hb': BASE, 'ckset': BASE, 'ckget': BASE, 'cap': MARIA, 'cstate': MARIA, 'register': MARIA,
         'first': BASE, 'later': MARIA, 'beats': BASE}
EARLY, LATE = 20, 5000      # tolerance of the measurement, ms
RETRY = 60                  # cases played once more when the first measurement was off (this is real time on a machine that may be busy)


def judge(r, o):
    """what is wrong with an observation"""
    w = r['w']
    if bad(o):
        return f'{short(w)}: the client {short(o)}'
    tag = f"stage {w['at']}, heartbeat interval {w['hb']} s, {'silent' if w['gap'] == 'never' else 'pauses of %d s' % r['gap']} from piece {w['from']} on"
    if r['res'] == 'served':
        n = 6 if w['at'] == 'beats' else 3
        if o['res'] != ['end'] or o['items'] != n:
            return f'{tag}: a slow server was not waited for: {o["items"]} of {n} events, {short(o["res"])}'
    else:
        lim = (w['hb'] + 10) * 1000
        if o['res'][0] != 'error' or o['silent_ms'] is None or not lim - EARLY <= o['since_ms'] or o['silent_ms'] > lim + LATE:
            return f'{tag}: expected an error after {lim} ms of silence, got {short(o["res"])} after {o["silent_ms"]} to {o["since_ms"]} ms'


def run(ctx):
    rng = random.Random(ctx.seed)
    out = ctx.path('silence.out')
    ctx.tlc('Silence', cfg({'STAGES': set(WORLD), 'HBS': {0, 1, 2} if ctx.quick else {0, 1, 2, 3, 5, 9}, 'PIECES': 3, 'V': set()}, spec='Spec',
                           invariants=INV, properties=['Ends']), ['-workers', 4], out=out, timeout=300)
    recs = distinct(read_csv_json(out))
    pl = events.pool(ctx, 6)
    if ctx.quick:
        # two waits of nearly the limit exceed it already: the long pauses begin before the second piece at the latest
        recs = [r for r in recs if not (r['w']['gap'] == 'long' and r['w']['from'] == 1)]
    cases = []
    for r in recs:
        w = r['w']
        c = concrete(WORLD[w['at']], rng)
        c['opt'].update(hb_ns=str(w['hb'] * 10**9 + rng.choice([0, 0, 1, 999_999])))
        ev = {k: (lambda e: e['h'] + e['b'])(events.take(rng.choice(pl['hb' if k == 'hb' else 'event']), False)) for k in ('event', 'hb')}
        cases.append(dict(opt=c['opt'], srv=c['srv'], at=w['at'], ev=ev, gap_ms=None if w['gap'] == 'never' else r['gap'] * 1000, **{'from': w['from']}))
    ctx.log(f'{len(cases)} worlds in real time')
    obs = ctx.execute('silence', cases, threads=len(cases) if len(cases) < 900 else 900, timeout=400, each=200)
    # the period requested
    per = []
    for hb in ([ms * 10**6 for ms in (0, 1, 2, 999, 1000, 1001, 1500, 30000, 59999, 60000, 3600000, 4294967, 4294967295, 4294967296)]
               + [1, 500_000, 999_999, 1_000_001, 1_500_000, 30_000_000_001, 2**32 - 1, 2**32, 2**63 - 1]
               + [rng.randrange(1, 10**rng.randrange(3, 19)) for _ in range(30)]):
        for w in (BASE, MARIA):
            c = concrete(w, rng)
            c['opt'].update(hb_ns=str(hb))
            per.append(c)
    pobs = ctx.execute('session', per, threads=64, each=120)
    stats = Counter()
    left = list(zip(recs, cases, obs))
    for attempt in range(3):
        wrong = []
        for r, c, o in left:
            w = r['w']
            if o == 'skipped':
                stats['skipped'] += 1
                continue
            why = judge(r, o)
            if why:
                wrong.append((r, c, o, why))
            else:
                stats[f"{w['gap']}: {o['res'][0]}"] += 1
        if not wrong or attempt == 2:
            break
        wrong = rng.sample(wrong, min(len(wrong), RETRY))
        ctx.log(f'{len(wrong)} once more: {wrong[0][3]}')
        again = [x[1] for x in wrong]
        left = list(zip([x[0] for x in wrong], again, ctx.execute('silence', again, threads=len(again), timeout=400, each=200)))
    for r, c, o, why in wrong:
        ctx.violation(why, 'silence', c, r, o)
    for c, o in zip(per, pobs):
        if o == 'skipped':
            continue
        hb = [e for e in o['sessions'][0]['log'] if e['d'] == 'c' and e['m'] == 'hb'] if not bad(o) else []
        if len(hb) != 1 or not hb[0]['fit']:
            ctx.violation(f"heartbeat interval: expected a period of {c['opt']['hb_ns']} ns, requested {short([e['text'] for e in hb])}",
                          'session', c, None, o)
        stats['period'] += 1
    if not ctx.quick and not ctx.n_viol:
        res = {}
        for v in ('deaf', 'hasty', 'total'):
            t = ctx.tlc('Silence', cfg({'STAGES': {'greet'}, 'HBS': {0, 1}, 'PIECES': 3, 'V': {v}}, spec='Spec', invariants=INV), ['-workers', 2],
                        out=ctx.path('x'), expect_ok=False)[2]
            res[v] = next((i for i in INV if f'Invariant {i} is violated' in t), 'none')
        ctx.cov['design_flaws_noticed'] = res
    ctx.level = 'model_checking'
    ctx.cov.update(evaluations=len(cases) + len(per), distinct_nontrivial=len(cases) + len(per),
                   rule='every world of Silence.tla (stage of the session, heartbeat interval, silent from any piece on / pauses of nearly the limit / of one '
                        'second) played in real time; the moment of the error is measured against the last byte sent; and the period requested for 44 intervals',
                   outcomes=dict(stats), samples=[short(r, 200) for r in recs[:4]])
