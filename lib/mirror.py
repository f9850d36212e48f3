"""C22: a program that keeps copies of tables, as in MirrorGen.tla: its random
behaviours are executed by the real client, the program runs on what the client
yields, and its copies are compared with the tables of the server."""
import re
from collections import Counter
from core import cfg, bad, short
from replica import prepare, step as replica_step

WORLDS = [('mysql', 'gtid'), ('maria', 'gtid'), ('mysql', 'start'), ('maria', 'pos'), ('mysql', 'end'), ('maria', 'start'), ('mysql', 'pos'), ('maria', 'end')]
# faults of the design that the invariant has to notice (thorough tier)
FLAWS = [('nostandalone', 'maria', 'gtid'), ('stmtpos', 'mysql', 'start'), ('stmtpos', 'maria', 'pos'),
         ('gdumpfile', 'mysql', 'gtid')]


class Wrong(Exception):
    pass


def load(state):
    """8 tables, each a list of rows"""
    return {'t%d' % i: {key(r): r for r in rows} for i, rows in enumerate(state)}


def key(row):
    if not row or not row[0]:
        raise Wrong(f'a row without its key: {short(row)}')
    return repr(row[0])


class Program:
    """Keeps copies of the tables from what the client yields."""

    def __init__(self, gtid, tables):
        self.gtid, self.copy = gtid, load(tables)
        self.held, self.names = [], {}
        self.kept = {t: dict(r) for t, r in self.copy.items()}

    def connected(self, tables):
        self.held, self.names = [], {}
        if tables:
            self.copy = load(tables)

    def save(self):
        self.kept = {t: dict(r) for t, r in self.copy.items()}

    def crash(self):
        self.held, self.names = [], {}
        self.copy = {t: dict(r) for t, r in self.kept.items()}

    def yielded(self, e):
        """an event as it comes: rows get the name of their table at once"""
        if e[0] == 'tmap':
            self.names[repr(e[1])] = bytes(e[3]).decode()
        elif e[0] in ('write', 'update', 'delete'):
            t = self.names.get(repr(e[1]))
            if t is None:
                raise Wrong('a row event of a table not described before')
            return [t] + e
        return [None] + e

    def committed(self, x):
        """an event processed"""
        t, k = x[0], x[1]
        whole = False
        if k in ('write', 'update', 'delete'):
            self.held.append(x)
            whole = not self.gtid and x[3] & 1
        elif k == 'xid':
            whole = True
        elif k == 'query':
            q = bytes(x[7]).decode()
            m = re.fullmatch(r'(?:TRUNCATE|DROP) TABLE (\w+)', q)
            if m:
                self.held.append([m.group(1), 'clear'])
            whole = bool(m) or q == 'COMMIT'
        if whole:
            for y in self.held:
                self.apply(y)
            self.held = []

    def apply(self, x):
        rows = self.copy.setdefault(x[0], {})
        if x[1] == 'clear':
            rows.clear()
        elif x[1] == 'write':
            for r in x[6]:
                if key(r) in rows:
                    raise Wrong(f'a row of {x[0]} inserted twice: {short(r)}')
                rows[key(r)] = r
        elif x[1] == 'delete':
            for r in x[6]:
                self.find(x[0], rows, x[5], r)
                del rows[key(r)]
        else:
            for b, a in x[7]:
                old = self.find(x[0], rows, x[5], b)
                del rows[key(b)]
                new = [a[i] if x[6][i] else old[i] for i in range(len(old))]
                rows[key(new)] = new

    def find(self, t, rows, present, r):
        old = rows.get(key(r))
        if old is None:
            raise Wrong(f'a row of {t} that the copy does not have: {short(r)}')
        for i in range(len(r)):
            if present[i] and r[i] != old[i]:
                raise Wrong(f'a row of {t} whose column {i + 1} was {short(old[i])} before the change, not {short(r[i])}')
        return old


def judge(case, o, stats):
    p = Program(case['strat'] == 'gtid', case['steps'][0]['tabs'])
    queue = []
    for i, st in enumerate(case['steps']):
        a = o[i] if i < len(o) else ['nothing']
        tag = f'step {i} ({st["a"]}{" " + st["k"] if "k" in st else ""}) of {case["strat"]}/{"maria" if case["maria"] else "mysql"}'
        stats[st['a']] += 1
        if a[0] in ('panic', 'err', 'nodump', 'restart', 'nothing', 'end'):
            return i, f'{tag}: {short(a)}', st, a
        try:
            if st['a'] == 'connect':
                # the server goes on as in the behaviour, so the client has to ask for the same
                d = replica_step('C02', case, st, a)
                if d:
                    return i, f'{tag}: expected ' + '; '.join(d), st, a
                p.connected(st['tabs'])
                queue = []
            elif st['a'] == 'event':
                stats['event ' + st['k']] += 1
                queue.append((st, p.yielded(a[2])))
            elif st['a'] == 'commit':
                e, x = queue.pop(0)
                p.committed(x)
                if e['fin']:
                    stats['transactions'] += 1
                    src = case['src'][e['g'] - 1]
                    for m in (0, 1):
                        t = 't%d' % (2 * src + m)
                        want = {key(r): r for r in case['snap'][e['g'] - 1][m]}
                        stats['rows'] += len(want)
                        if p.copy.get(t, {}) != want:
                            d = [k for k in want.keys() | p.copy.get(t, {}).keys() if want.get(k) != p.copy.get(t, {}).get(k)]
                            return i, (f'{tag}: after transaction {e["g"]} the copy of {t} differs from the table: row {d[0]} is {short(want.get(d[0]))} '
                                       f'at the server and {short(p.copy.get(t, {}).get(d[0]))} in the copy'), want.get(d[0]), p.copy.get(t, {}).get(d[0])
            elif st['a'] == 'save':
                p.save()
            elif st['a'] == 'crash':
                p.crash()
                queue = []
        except Wrong as w:
            return i, f'{tag}: {w}', st, a
    return None


def compare(ctx, cases, obs, stats):
    for case, o in zip(cases, obs):
        if o == 'skipped':
            stats['skipped'] += 1
            continue
        if bad(o):
            ctx.violation(f'the client {short(o)}', 'replica', case, None, o)
            continue
        r = judge(case, o, stats)
        if r:
            ctx.violation(r[1], 'replica', case, r[2], r[3])


def conf(f, s, x, steps, v=(), lag=6):
    return cfg({'FLAVOR': f, 'STRAT': s, 'V': set(v), 'MAXLAG': lag, 'HIST': True, 'STEPS': steps, 'FOCUS': x}, 'MInit', 'MNext', ['Mirror', 'Once'])


def flaws(ctx):
    res = {}
    for v, f, s in FLAWS:
        out = ctx.path(f'flaw-{v}-{f}.out')
        o = ctx.tlc('MirrorGen', conf(f, s, 'switch' if s == 'gtid' else 'mix', 110, [v]), ['-simulate', 'num=300', '-depth', 120, '-seed', ctx.seed, '-workers', 4],
                    out=out, expect_ok=False, partial_ok=True, timeout=150)[2]
        m = re.search(r'Invariant (\w+) is violated', o)
        res[f'{v} {f} {s}'] = m.group(1) if m else 'none'
    return res


def run(ctx):
    steps, num, rounds = (120, 30, 1) if ctx.quick else (170, 120, 4)
    mix = [conf(f, s, 'calm', steps) for f, s in WORLDS] + [conf(f, s, 'switch', steps) for f, s in WORLDS[:2]]
    stats, n, distinct, samples = Counter(), 0, set(), []
    for r in range(rounds):
        cases = ctx.simulate('MirrorGen', mix, num, steps + 8, len(mix), seedbase=100 * r)
        for c in cases:
            prepare(c)
            c['full'] = True
        ctx.log(f'{len(cases)} behaviours generated')
        obs = ctx.execute('replica', cases, timeout=400)
        compare(ctx, cases, obs, stats)
        n += len(cases)
        distinct |= {hash(str(c['steps'])) for c in cases}
        samples = samples or [[short(s, 160) for s in c['steps'][:8]] for c in cases[:2]]
        if ctx.n_viol:
            break
    if not ctx.n_viol and not ctx.quick:
        ctx.cov['design_flaws_noticed'] = flaws(ctx)
    ctx.level = 'exploration'
    ctx.cov.update(
        evaluations=stats['transactions'], distinct_nontrivial=len(distinct),
        rule='random behaviours of MirrorGen.tla (invariants Mirror and Once hold in every state) executed on a real client; a program keeps copies of the tables from the '
             'events it yields, and after every transaction they are compared with the tables of the server',
        behaviours=n, rows=stats['rows'], skipped=stats['skipped'], steps={k: v for k, v in sorted(stats.items()) if k not in ('skipped', 'rows')}, samples=samples)
