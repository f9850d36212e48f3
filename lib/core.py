"""Shared machinery of the checks: building the harness from /repo's working
tree, running TLC on the specifications in spec/, executing generated
behaviours on the real crate, and reporting."""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
TARGET = os.path.join(BUILD, 'target')
HARNESS = os.path.join(TARGET, 'debug', 'cdcheck')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, 'run', f'{prop}-{os.getpid()}')
        os.makedirs(self.dir, exist_ok=True)
        self.replays = os.path.join(BUILD, 'replay')
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.n_viol = 0
        self.viol_lines = []
        self.known_seen = set()
        self.cov = {}
        self.level = 'model_checking'
        self.assumptions = []
        self.states = 0
        self.distinct = 0
        self.lock = threading.Lock()
        self.n = 0
        self.tlc_runs = []

    @property
    def quick(self):
        return self.tier != 'thorough'

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print(f'[{self.prop} {self.elapsed():6.1f}s]', *a, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- reporting ---------------------------------------------------------
    def violation(self, what, mode=None, case=None, expected=None, observed=None, key=None):
        """One divergence between the specification and the code."""
        with self.lock:
            if key is not None:
                k = known_findings(self.prop).get(key)
                if k is not None:
                    if key not in self.known_seen:
                        self.known_seen.add(key)
                        print(f'KNOWN-FINDING: property={self.prop} {k}', flush=True)
                    return
            self.n_viol += 1
            if self.n_viol > 20:
                return
            p = os.path.join(self.replays, f'{self.prop}-{self.n_viol}.json')
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'what': what, 'mode': mode, 'case': case,
                           'expected': expected, 'observed': observed}, f)
            print(f'  {what}', flush=True)
            print(f'VIOLATION property={self.prop} replay={p}', flush=True)

    def finish(self):
        self.cov.setdefault('states', self.distinct)
        self.cov.setdefault('transitions', self.states)
        self.cov['tlc_runs'] = self.tlc_runs[:40]
        ev = {'property': self.prop, 'tier': 'thorough' if self.tier == 'thorough' else 'quick',
              'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2),
              'violations': self.n_viol}
        p = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        if not os.environ.get('CDCHECK_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.log('violations:', self.n_viol)
        return 1 if self.n_viol else 0

    # -- building ----------------------------------------------------------
    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
        r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'harness'),
                           env=env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise ToolError('harness does not build:\n' + r.stderr[-4000:])
        # a private copy: a concurrent check must not replace it under our feet
        self.bin = self.path('cdcheck')
        shutil.copy2(HARNESS, self.bin)

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, args=(), out=None, env=None, timeout=800, expect_ok=True, heap='3g', partial_ok=False):
        """Runs TLC on spec/<module>.tla with the configuration text cfg.
        Returns (generated, distinct, output). A violated invariant of the
        specification itself is an error of the machinery, unless expect_ok
        is False (then the output is returned for inspection)."""
        with self.lock:
            self.n += 1
            tag = f'{module}-{self.n}'
        d = self.path('tlc-' + tag)
        os.makedirs(d)
        cfgp = os.path.join(d, module + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        if out:
            e['OUT'] = out
            open(out, 'w').close()
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ['java', '-Xss128m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4',
               f'-DTLA-Library={SPEC}', '-cp', CP, 'tlc2.TLC', '-config', cfgp,
               '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE', *map(str, args),
               os.path.join(SPEC, module + '.tla')]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            if partial_ok:
                self.log(f'TLC stopped on {module} after {timeout} s; using what it has produced')
                return 0, 0, 'timeout'
            raise ToolError(f'TLC timed out on {module} after {timeout} s')
        o = r.stdout + r.stderr
        if expect_ok and (r.returncode != 0 or 'Error:' in o):
            i = o.find('Error:')
            raise ToolError(f'TLC failed on {module} (exit {r.returncode}):\n' + o[max(0, i - 200):i + 3000])
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', o)
        if m:
            g, n = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r'The number of states generated: (\d+)', o)
            g = int(m.group(1)) if m else 0
            n = g
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        with self.lock:
            self.states += g
            self.distinct += n
            self.tlc_runs.append({'module': module, 'args': ' '.join(map(str, args)), 'generated': g, 'distinct': n,
                                  'seconds': round(time.time() - t0, 1)})
        return g, n, o

    def simulate(self, module, cfgs, num, depth, jvms, timeout=None, env=None, seedbase=0):
        """Random behaviours of module, from several TLC processes in
        parallel; the specification writes one JSON line per behaviour to
        OUT. cfgs: one configuration or a list used in turn."""
        cfgs = [cfgs] if isinstance(cfgs, str) else cfgs
        outs = []

        def one(i):
            out = self.path(f'sim-{module}-{seedbase}-{i}.out')
            self.tlc(module, cfgs[i % len(cfgs)],
                     ['-simulate', f'num={num}', '-depth', depth, '-seed', self.seed * 1000 + seedbase + i + 1, '-workers', 1],
                     out=out, timeout=timeout or (150 if self.quick else 800), env=env, partial_ok=True)
            return out
        with ThreadPoolExecutor(min(jvms, 8)) as ex:
            outs = list(ex.map(one, range(jvms)))
        res = []
        for o in outs:
            res += read_csv_json(o)
            os.remove(o)
        if not res:
            raise ToolError(f'TLC produced no behaviours of {module}')
        return res

    def together(self, *fs):
        with ThreadPoolExecutor(len(fs)) as ex:
            return [f.result() for f in [ex.submit(f) for f in fs]]

    # -- executing on the real crate ---------------------------------------
    def execute(self, mode, cases, threads=8, timeout=300, each=60, env=None):
        """Runs the harness. Every case gets its observation; a case on which
        the process dies or never comes back gets {"died": ..} / "hang"."""
        obs = {}
        for i, c in enumerate(cases):
            c['id'] = i
        todo = list(range(len(cases)))

        def run(ids, threads, timeout):
            with self.lock:
                self.n += 1
                k = self.n
            inp, outp = self.path(f'in{k}.jsonl'), self.path(f'obs{k}.jsonl')
            with open(inp, 'w') as f:
                for i in ids:
                    f.write(json.dumps(cases[i], separators=(',', ':')) + '\n')
            e = dict(os.environ, CDCHECK_TMP=self.dir, CDCHECK_LIMIT=str(each))
            if env:
                e.update(env)
            why = None
            try:
                r = subprocess.run(['setpriv', '--no-new-privs', 'prlimit', '--as=12000000000', self.bin, mode, inp, outp, str(threads)]
                                   if os.path.exists('/usr/bin/prlimit') else [self.bin, mode, inp, outp, str(threads)],
                                   env=e, capture_output=True, text=True, timeout=timeout)
                if r.returncode != 0:
                    why = {'died': f'exit {r.returncode}: {r.stderr[-300:]}'}
            except subprocess.TimeoutExpired:
                why = 'hang'
            if os.path.exists(outp):
                for l in open(outp):
                    try:
                        o = json.loads(l)
                        obs[o['id']] = o['obs']
                    except (ValueError, KeyError):
                        pass
            for p in (inp, outp):
                if os.path.exists(p) and not os.environ.get('CDCHECK_KEEP'):
                    os.remove(p)
            return why
        why = run(todo, threads, timeout)
        if why is not None:
            left = [i for i in todo if i not in obs]
            self.log(f'harness: {why}; {len(left)} cases unanswered')
            blamed = lambda: any(bad(obs[i]) for i in obs)
            for i in left[:12]:
                if blamed():
                    break
                w = run([i], 1, each + 5)
                if i not in obs:
                    obs[i] = w or {'died': 'no answer'}
            left = [i for i in todo if i not in obs]
            k = max(1, (len(left) + 15) // 16)
            for lo in range(0, len(left), k):
                if blamed():
                    break
                part = left[lo:lo + k]
                if run(part, min(threads, 8), timeout) is not None:
                    for i in [i for i in part if i not in obs][:12]:
                        if blamed():
                            break
                        w = run([i], 1, each + 5)
                        if i not in obs:
                            obs[i] = w or {'died': 'no answer'}
            if not blamed() and any(i not in obs for i in todo):
                raise ToolError(f'the harness gave no answer: {why}')
        for i in todo:
            if i not in obs:
                obs[i] = 'skipped'
        return [obs[i] for i in todo]


def read_csv_json(path):
    """Lines written with CSVWrite("%1$s", <<ToJson(x)>>): each is a JSON text,
    possibly itself quoted as a string."""
    res = []
    for l in open(path):
        l = l.strip()
        if not l:
            continue
        try:
            v = json.loads(l)
        except ValueError:      # the last line of a stopped run
            continue
        if isinstance(v, str):
            v = json.loads(v)
        res.append(v)
    return res


def distinct(recs):
    """Checking liveness, TLC evaluates an action (and what it writes) more than once."""
    return [json.loads(x) for x in dict.fromkeys(json.dumps(r, sort_keys=True) for r in recs)]


_known = {}


def known_findings(prop):
    if prop not in _known:
        d = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r'known: property=(\S+) case=(\S+) (.*)', l.strip())
                if m and m.group(1) == prop:
                    d[m.group(2)] = m.group(3)
        _known[prop] = d
    return _known[prop]


def cfg(consts, init='Init', next_='Next', invariants=(), properties=(), spec=None, extra=''):
    s = ''
    if spec:
        s += f'SPECIFICATION {spec}\n'
    else:
        s += f'INIT {init}\nNEXT {next_}\n'
    if consts:
        s += 'CONSTANTS\n' + ''.join(f'  {k} = {tla(v)}\n' for k, v in consts.items())
    if invariants:
        s += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    if properties:
        s += 'PROPERTIES ' + ' '.join(properties) + '\n'
    s += 'CHECK_DEADLOCK FALSE\n' + extra
    return s


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    raise TypeError(v)


def bad(o):
    """Observations that are wrong whatever was expected."""
    return o == 'hang' or isinstance(o, dict) and ('died' in o or 'harness_panic' in o)


def short(x, n=400):
    s = json.dumps(x, separators=(',', ':'))
    return s if len(s) <= n else s[:n] + '...'
