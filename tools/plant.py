#!/usr/bin/env python3
"""plant.py ID PROPERTY EDITS.py MAIN.rs 'needs' 'what it breaks'
Plants a bug in a scratch copy of /repo, confirms it (builds, passes the
tests, the demonstration fails with it and passes without) and stores it in
/verif/seeded/ID. EDITS.py is a list of (file, old, new)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)


def plant(id, prop, edits, main, needs, breaks):
    top = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        r = os.path.join(top, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        d = os.path.join(top, 'demo')
        os.makedirs(d)
        shutil.copy(V + '/tools/plant/demo.sh', d)
        shutil.copy(V + '/tools/plant/fake.rs', d)
        open(d + '/main.rs', 'w').write('mod fake;\n' + main)
        os.chmod(d + '/demo.sh', 0o755)
        o = sh(f'bash {d}/demo.sh', r)
        if o.returncode != 0:
            return f'{id}: demo fails on the unchanged tree\n' + (o.stdout + o.stderr)[-3000:]
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{id}: {f}: {s.count(old)} occurrences of\n{old}'
            open(p, 'w').write(s.replace(old, new))
        o = sh('cargo test --offline 2>&1', r)
        if o.returncode != 0 or '27 passed' not in o.stdout:
            return f'{id}: tests fail\n' + o.stdout[-3000:]
        if 'warning: unused' in o.stdout:
            print(id, 'note: warnings')
        o = sh(f'bash {d}/demo.sh', r)
        if o.returncode == 0:
            return f'{id}: demo passes with the change\n' + o.stdout[-2000:]
        print(id, 'demo with the change:', (o.stdout + o.stderr).strip()[-300:])
        s = os.path.join(V, 'seeded', id)
        shutil.rmtree(s, ignore_errors=True)
        shutil.copytree(d, s)
        diff = sh('git diff', r).stdout
        open(s + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(s + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    for f in sys.argv[1:]:
        exec(open(f).read(), ns)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for e in ex.map(lambda b: plant(*b), ns['BUGS']):
            if e:
                print('FAILED', e)
