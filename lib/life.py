"""C21: Life.tla model checked; its behaviours (several clients and streams at
once) executed by the real crate against two servers that watch their
connections."""
import json, random
from collections import Counter
from core import cfg, bad, short, read_csv_json, distinct
import events

INV = ['OneEach', 'Kept', 'Freed', 'Own']
CL = {'a', 'b', 'c'}
HOME = {'a': 0, 'b': 1, 'c': 0}
NAMES = sorted(CL)


def client(name, rng):
    maria = rng.random() < .5
    # exchanges before the stream begins at least: greeting, login, two or three set-up requests
    strat = rng.choice(['start', 'end', 'pos', 'mariadb' if maria else 'mysql'])
    host = '127.0.0.2' if HOME[name] else rng.choice(['127.0.0.1', '127.0.0.1', 'localhost'])
    return {'home': HOME[name], 'host': host, 'maria': maria, 'strat': strat, 'blocking': rng.random() < .5, 'id': rng.choice([1, 65535, rng.randrange(2**32)]),
            'user': rng.choice(['root', 'repl', 'ü']), 'pw': rng.choice(['', 'Qwertyu1', 'x' * 40])}


def build(steps, rng):
    clients = [client(n, rng) for n in NAMES]
    ops, want, sent, read, queue = [], [], Counter(), Counter(), {}
    for st in steps:
        s = st['s'] - 1
        op = {'op': st['op'], 'c': NAMES.index(st['c']), 's': max(s, 0), 'how': st['how'], 'socks': st['socks']}
        x = []
        if st['op'] == 'open':
            if st['how'] != 'ok':
                op['at'] = rng.randrange(5)
            x = ['ok' if st['how'] == 'ok' else 'failed']
        elif st['op'] == 'push':
            sent[s] += 1
            n = events.le(s * 1000 + sent[s], 8)
            op['ev'] = {'h': events.header(rng, 16, 27), 'b': n, 'c': 0}
            op['ev']['h'][0:2] = events.le(s * 256 + sent[s], 2)
            queue.setdefault(s, []).append(op['ev'])
        elif st['op'] == 'take':
            if st['how'] == 'event':
                e = queue[s][read[s]]
                read[s] += 1
                x = ['ok', e['h'], ['xid', e['b']]]
            else:
                x = ['end'] if st['how'] == 'eof' else ['err']
        ops.append(op)
        want.append(x)
    return {'clients': clients, 'ops': ops, 'want': want}


def judge(case, o):
    for i, (op, x) in enumerate(zip(case['ops'], case['want'])):
        tag = f"step {i + 1} ({op['op']}{' ' + op['how'] if op['how'] else ''} of client {NAMES[op['c']]}{'' if op['op'] in ('open', 'quit') else ', stream %d' % (op['s'] + 1)})"
        if i >= len(o):
            return f'{tag}: nothing', x, None
        a = o[i]
        r = a['r']
        if x == ['err']:
            ok = r[0] == 'err' and r[-1] not in ('WouldBlock', 'TimedOut')
        elif x[:1] in (['ok'], ['failed']) and op['op'] == 'open':
            ok = r[:2] == [x[0], '']
        else:
            ok = r == x
        if not ok:
            return f'{tag}: expected {short(x)}, got {short(r)}', x, a
        if a['extra']:
            return f'{tag}: {a["extra"]} further connections opened', 0, a
        for j, (w, g) in enumerate(zip(op['socks'], a['socks'])):
            if w == 'closed' and g != 'closed':
                return f'{tag}: connection {j + 1} is not closed ({g})', w, a
            if w == 'open' and g != 'open':
                return f'{tag}: connection {j + 1}: expected it open and silent, it is {"used for sending" if g == "data" else g}', w, a


def run(ctx):
    rng = random.Random(ctx.seed * 3 + 1)
    out = ctx.path('life.out')
    consts = {'CLIENTS': CL, 'MAXE': 3, 'V': set()}

    def conf(c, **kw):
        return cfg(dict(consts, **c), **kw) + 'CONSTANT HOME <- Home\n'
    small = {'CLIENTS': {'a', 'b'}, 'MAXC': 2, 'MAXE': 1, 'STEPS': 4 if ctx.quick else 6, 'SMALL': True}
    sims, _, _ = ctx.together(
        lambda: ctx.simulate('Life', conf({'MAXC': 8, 'MAXE': 6, 'STEPS': 40, 'KEEP': True, 'SMALL': False}, init='Init', next_='GNext', invariants=INV),
                             60 if ctx.quick else 600, 42, 2 if ctx.quick else 8),
        lambda: ctx.tlc('Life', conf(dict(small, MAXC=3, MAXE=1 if ctx.quick else 2, KEEP=False), spec='Spec', invariants=INV), ['-workers', 4], timeout=800,
                        out=ctx.path('none.out')),
        lambda: ctx.tlc('Life', conf(dict(small, KEEP=True), init='Init', next_='GNext', invariants=INV), ['-workers', 1], out=out, timeout=800))
    recs = distinct(read_csv_json(out))
    lim = 1500 if ctx.quick else 20000
    few = rng.sample(recs, min(len(recs), lim))
    cases = [build(s, rng) for s in few + sims]
    ctx.log(f'{len(recs)} short histories, {len(few)} of them and {len(sims)} random ones executed')
    stats = Counter()
    # a client that breaks the property costs time in every step: in portions
    rng.shuffle(cases)
    size = 400 if ctx.quick else 2000
    for lo in range(0, len(cases), size):
        part = cases[lo:lo + size]
        for case, o in zip(part, ctx.execute('life', part, threads=48, each=120, timeout=700)):
            if o == 'skipped':
                stats['skipped'] += 1
                continue
            if bad(o):
                ctx.violation(f'the client {short(o)}', 'life', case, None, o)
                continue
            for op in case['ops']:
                stats[op['op'] + (' ' + op['how'] if op['how'] else '')] += 1
            v = judge(case, o)
            if v:
                ctx.violation(v[0], 'life', case, v[1], v[2])
        if ctx.n_viol:
            break
    if not ctx.quick and not ctx.n_viol:
        res = {}
        for v in ('leak', 'again', 'astray', 'single', 'owner', 'linger', 'mixed'):
            t = ctx.tlc('Life', conf(dict(small, MAXC=2, MAXE=2, KEEP=False, V={v}), spec='Spec', invariants=INV), ['-workers', 4], expect_ok=False, timeout=200,
                        out=ctx.path('x'))[2]
            res[v] = next((i for i in INV if f'Invariant {i} is violated' in t), 'none')
        ctx.cov['design_flaws_noticed'] = res
    ctx.level = 'model_checking'
    ctx.cov.update(evaluations=len(cases), distinct_nontrivial=len(distinct(few + sims)),
                   rule='histories of Life.tla (every short one, sampled in the quick tier; random ones of 40 steps with up to 8 connections of 3 clients to 2 '
                        'servers), executed step by step by real clients; after each step the servers look at every connection',
                   steps=dict(stats), samples=[[f"{s['op']} {s['c']}{s['s']} {s['how']}" for s in x] for x in sims[:2]])
