"""python3 tools/plant.py ID [ID...]: (re)builds seeded/ID/patch.diff from seeded_src/ID.py and confirms it in a scratch copy.

seeded_src is kept in tools/seeds/ID.py: PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def run(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def one(i, fast):
    ns = {}
    exec(open(os.path.join(HERE, 'tools/seeds', i + '.py')).read(), ns)
    d = os.path.join(HERE, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='plant')
    try:
        w = os.path.join(t, 'r')
        subprocess.check_call(['cp', '-a', '/repo', w])
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=w)
        open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = run(['bash', d + '/demo.sh'], w)
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-1500:]
        for f, old, new in ns['EDITS']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %s' % (s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(run(['git', 'diff'], w).stdout)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = run(['bash', d + '/demo.sh'], w)
        if r.returncode == 0:
            return 'demo passes with the patch'
        tail = r.stdout.strip().splitlines()[-1:]
        # changed lines must be original ones
        if not fast:
            x = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
                     '-rA', 'babylondigger/tests', 'babylondigger/evaluation/conll17_ud_eval.py'], w, PYTHONPATH=w + ':' + w + '/babylondigger',
                    PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX='/nonexistent')
            passed = sum(l.startswith('PASSED') for l in x.stdout.splitlines())
            if passed < len(STABLE):
                return 'only %d tests pass: %s' % (passed, [l for l in x.stdout.splitlines() if l.startswith('FAILED')][:5])
        c = run([sys.executable, 'check.py', ns['PROPERTY']], HERE, VERIF_REPO=w)
        v = [l for l in c.stdout.splitlines() if l.startswith(('REFUTED', 'UNDECIDED', 'analysis'))][:2]
        return '%s (demo: %s) check %s exit %d: %s' % ('ok', tail, ns['PROPERTY'], c.returncode, ' | '.join(l[:160] for l in v))
    finally:
        shutil.rmtree(t)

a = sys.argv[1:]
fast = '-f' in a
a = [x for x in a if x != '-f'] or sorted(x[:-3] for x in os.listdir(os.path.join(HERE, 'tools/seeds')) if x.endswith('.py'))
for i in a:
    print(i, one(i, fast), flush=True)
