#!/usr/bin/env python3
"""Runs one check: TLC generates cases -> driver replays them on the real code -> TLC validates the trace."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
BUILD = V + '/build'
sys.path.insert(0, V + '/lib')
from registry import CHECKS


class Machinery(Exception):
    pass


def build():
    src = sorted(glob.glob(V + '/java/*.java'))
    out = [BUILD + '/' + os.path.basename(s)[:-5] + '.class' for s in src]
    if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s) for s, o in zip(src, out)):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['javac', '-cp', TLAJAR, '-d', BUILD] + src, capture_output=True, text=True)
    if r.returncode:
        raise Machinery('javac failed:\n' + r.stderr)


def tlc(module, cfg, work, env, timeout, workers=1, extra=(), heap='3g'):
    """Runs TLC on spec/<module>.tla; returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=work)
    cmd = ['java', '-Xmx' + heap, '-Xss32m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', f'{BUILD}:{TLAJAR}:{CM}',
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg, *extra, module + '.tla']
    e = dict(os.environ); e.update(env)
    try:
        r = subprocess.run(cmd, cwd=V + '/spec', env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Machinery(f'TLC timed out on {module}: {timeout}s')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ''))
    m = re.findall(r'(\d+) states generated (\d+) distinct states found', out.replace(',', ''))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def pyenv(seed, tier):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             OPENBLAS_CORETYPE='Haswell', NPY_DISABLE_CPU_FEATURES='X86_V4 AVX512_ICL AVX512_SPR', LC_ALL='C.UTF-8',
             PYTHONPATH='/repo/src:' + V, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONWARNINGS='ignore')
    return e


def case_id(c):
    """Canonical name of a case: stable across runs, used in reports and in the known-findings file."""
    if 'id' in c:
        return str(c['id'])
    return ','.join(f'{k}={json.dumps(c[k], separators=(",", ":")) if not isinstance(c[k], str) else c[k]}' for k in sorted(c))


def known_findings(pid):
    res = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) case=(.+?) clause=(\S+) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def shard(seq, n):
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]


def run_check(pid, only=None):
    t0 = time.time()
    spec = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    build()
    work = tempfile.mkdtemp(prefix='verif-' + pid + '-')
    outdir = f'{V}/out/{pid}'
    try:
        cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        models = []
        # 1. model checking of the abstract design (where there is one)
        for mod, cfg in spec.get('models', ()):
            rc, out = tlc(mod, cfg, work, {'VERIF_TIER': tier}, 900 if tier == 'quick' else 7200, workers=4,
                          extra=('-deadlock',))
            g, d = tlc_stats(out)
            if rc != 0:
                raise Machinery(f'model {mod}/{cfg} does not satisfy its properties (rc={rc}):\n' + out[-2500:])
            models.append({'model': mod, 'config': cfg, 'generated': g, 'distinct': d})
            cov['states'] += d
            cov['transitions'] += g
        # 2. cases
        cases = []
        if only:
            rep = json.load(open(only))
            cases = [rep['case']]
            seed = rep.get('seed', seed)
        else:
            f = work + '/cases.ndjson'
            rc, out = tlc(spec['gen'], 'Gen.cfg', work, {'CASES': f, 'VERIF_TIER': tier, 'VERIF_SEED': str(seed)},
                          900, extra=('-deadlock',))
            if rc != 0 or not os.path.exists(f):
                raise Machinery(f'case generation {spec["gen"]} failed (rc={rc}):\n' + out[-2500:])
            g, d = tlc_stats(out)
            cov['states'] += d
            cases = [json.loads(x) for x in open(f)]
            if spec.get('expand'):
                cases = spec['expand'](cases, tier, seed)
        for c in cases:
            c['id'] = case_id(c)
        ids = {}
        for c in cases:
            ids.setdefault(c['id'], c)
        cases = list(ids.values())
        # 3. replay on the implementation, 4. validate what it did
        nsh = spec.get('shards', 6)
        shards = shard(cases, nsh)
        def one(k):
            cf_, tf, vf = f'{work}/c{k}', f'{work}/t{k}', f'{work}/v{k}'
            with open(cf_, 'w') as h:
                h.writelines(json.dumps(c) + '\n' for c in shards[k])
            to = spec.get('driver_timeout', 400) * (1 if tier == 'quick' else 10)
            try:
                r = subprocess.run([PY, V + '/drv/main.py', spec['driver'], cf_, tf], env=pyenv(seed, tier), cwd=work,
                                   capture_output=True, text=True, timeout=to)
            except subprocess.TimeoutExpired:
                raise Machinery(f'driver timed out after {to}s')
            if r.returncode:
                raise Machinery(f'driver failed (rc={r.returncode}):\n{r.stdout[-2000:]}\n{r.stderr[-4000:]}')
            n = sum(1 for _ in open(tf))
            if n == 0:
                raise Machinery('driver recorded nothing')
            rc, out = tlc(spec['trace'], 'Trace.cfg', work, {'TRACE': tf, 'VERDICT': vf, 'VERIF_TIER': tier},
                          850 if tier == 'quick' else 20000)
            g, d = tlc_stats(out)
            if rc != 0 or not os.path.exists(vf):
                # the specification cannot even evaluate what the implementation did: name the event
                if rc in (75, 76, 77, 12, 13) and 'evaluat' in out and not os.path.exists(vf):
                    lines = [int(x) for x in re.findall(r'tracePos = (\d+)', out)]
                    line = lines[-1] if lines else 1
                    ev = [json.loads(x) for x in open(tf)]
                    return dict(bad=[{'case': ev[line - 1]['case'], 'line': line, 'clauses': ['unexplainable-event']}],
                                consumed=n, states=d, tf=tf, out=out)
                raise Machinery(f'trace validation {spec["trace"]} failed (rc={rc}):\n' + out[-2500:])
            v = json.load(open(vf))
            if v['consumed'] != n:
                raise Machinery(f'trace not consumed: {v["consumed"]} of {n}')
            return dict(bad=v['bad'], consumed=n, states=d, tf=tf, out=out)
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            res = list(ex.map(one, range(len(shards))))
        bad = []
        for r in res:
            cov['states'] += r['states']
            cov['transitions'] += r['consumed']
            for b in r['bad']:
                for c in b['clauses']:
                    bad.append((b['case'], c, b['line'], r['tf']))
        cov['traces_validated_against_impl'] = len(cases)
        cov['events_validated'] = sum(r['consumed'] for r in res)
        if models:
            cov['models'] = models
        # measured profile of what was exercised
        prof = {}
        for r in res:
            for x in open(r['tf']):
                e = json.loads(x)
                k = str(e.get('cls', '')) + ('.' if e.get('cls') else '') + str(e.get('op', ''))
                prof[k] = prof.get(k, 0) + 1
        cov['events_by_kind'] = dict(sorted(prof.items()))
        cov['samples'] = [{k: v for k, v in c.items()} for c in cases[:: max(1, len(cases) // 3)][:3]]
        # 5. findings and verdict
        known = known_findings(pid)
        hit, viol = set(), []
        for case, clause, line, tf in bad:
            m = [k for k in known if k[0] == case and k[1] == clause]
            if m:
                hit.add(m[0])
            else:
                viol.append((case, clause, line, tf))
        for k in known:
            if k in hit:
                print(f'KNOWN-FINDING: property={pid} {k[2]} [case {k[0]}, clause {k[1]}]')
            elif not only:
                print(f'note: known finding not observed in this run: property={pid} case {k[0]} clause {k[1]}')
        shutil.rmtree(outdir, ignore_errors=True)
        seen = {}
        for case, clause, line, tf in viol:
            seen.setdefault((case, clause), (line, tf))
        if seen:
            os.makedirs(outdir, exist_ok=True)
            for n, ((case, clause), (line, tf)) in enumerate(seen.items()):
                if n >= int(os.environ.get("VERIF_SHOW", "10")):
                    print(f'... {len(seen) - 10} more violated (case, clause) pairs')
                    break
                evs = [json.loads(x) for x in open(tf)]
                path = f'{outdir}/replay-{n}.json'
                with open(path, 'w') as h:
                    json.dump({'property': pid, 'clause': clause, 'seed': seed, 'case': ids.get(case, {'id': case}),
                               'event': evs[line - 1],
                               'how': f'bash {V}/check.sh {pid} --case {path}'}, h, indent=1)
                print(f'  case {case} violates clause {clause}')
                print(f'VIOLATION property={pid} replay={path}')
        if seen:
            cl = {}
            for case, clause in seen:
                cl[clause] = cl.get(clause, 0) + 1
            print('clauses violated: ' + ', '.join(f'{k} ({v})' for k, v in sorted(cl.items())))
        if not only:
            os.makedirs(V + '/evidence', exist_ok=True)
            with open(f'{V}/evidence/{pid}.json', 'w') as h:
                json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
                           'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
                           'violations': len(seen)}, h, indent=1)
        print(f'{pid}: {len(cases)} cases, {cov["events_validated"]} events, {cov["states"]} states, '
              f'{len(seen)} violations, {time.time() - t0:.1f}s')
        return 1 if seen else 0
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == '--build':
            build()
            return 0
        only = a[a.index('--case') + 1] if '--case' in a else None
        return run_check(a[0], only)
    except Machinery as e:
        print('ERROR (machinery):', e, file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
