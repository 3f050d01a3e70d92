"""Authoring help for planted bugs: python3 tools/seed.py <id> <spec.py>
spec.py defines property, needs, breaks, edits=[(file, old, new)], demo (python source).  The change is made in a scratch
copy of /repo, must pass the stable tests, and the demo must pass without and fail with it; only then seeded/<id> is written."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, non-zero with the change; run with cwd /repo
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$D/demo.py"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def main(sid, spec):
    g = {}
    exec(open(spec).read(), g)
    base = '/tmp/seedwork/' + sid
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + '/repo'
    sh(f'git clone -q /repo {repo}')
    out = V + '/seeded/' + sid
    tmp = base + '/seed'
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(g['demo'].lstrip())
    open(tmp + '/demo.sh', 'w').write(DEMO)
    r0 = sh(f'bash {tmp}/demo.sh', cwd=repo)
    if r0.returncode:
        return f'demo fails on the unchanged tree: {r0.stderr[-600:]}'
    for f, old, new in g['edits']:
        p = f'{repo}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            return f'{f}: old text occurs {s.count(old)} times'
        open(p, 'w').write(s.replace(old, new))
    d = sh('git diff', cwd=repo).stdout
    r1 = sh(f'bash {tmp}/demo.sh', cwd=repo)
    if r1.returncode == 0:
        return 'demo passes with the change'
    # stable tests against the copy
    w = base + '/w'
    os.makedirs(w)
    sh(f'cp -r {repo}/resources {w}/')
    env = dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               OPENBLAS_CORETYPE='Haswell', NPY_DISABLE_CPU_FEATURES='X86_V4 AVX512_ICL AVX512_SPR')
    sh(f'/opt/venv/bin/python /opt/vp/run_tests.py {repo} {w}/lines.txt', cwd=w, env=env)
    sh(f'python3 /opt/vp/results.py {w}/o.json lines:{w}/lines.txt')
    res = json.load(open(w + '/o.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    nfail = [x for x in stable if x not in set(res['passed'])]
    npass = len(stable) - len(nfail)
    os.makedirs(out, exist_ok=True)
    for n in ('demo.py', 'demo.sh'):
        shutil.copy(f'{tmp}/{n}', out)
    open(out + '/patch.diff', 'w').write(d)
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(base, ignore_errors=True)
    if nfail:
        shutil.rmtree(out)
        return f'tests fail: {nfail[:3]}'
    return f'ok ({npass} tests pass; demo: {r1.stderr.strip().splitlines()[-1:]})'

print(sys.argv[1], main(sys.argv[1], sys.argv[2]))
