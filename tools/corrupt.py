"""Demonstrates the binding of a trace specification: corrupts one observed value per case of a recorded trace and lists where TLC does not notice.
   python3 tools/corrupt.py C13 [size of the change relative to the largest element, default 1e-4] [number of cases]"""
import glob, json, os, random, re, struct, subprocess, sys, tempfile, shutil, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import runner
from registry import CHECKS
pid = sys.argv[1]; rel = float(sys.argv[2]) if len(sys.argv) > 2 else 1e-4; N = int(sys.argv[3]) if len(sys.argv) > 3 else 1500
rnd = random.Random(7)


def dec(h):
    return struct.unpack('<d', struct.pack('<q', (h[0] << 32) | (h[1] & 0xffffffff)))[0]


def enc(x):
    b, = struct.unpack('<q', struct.pack('<d', x)); lo = b & 0xffffffff
    return [b >> 32, lo - (1 << 32) if lo >= (1 << 31) else lo]


def outcomes(x, path, acc):
    if isinstance(x, dict):
        if 'ok' in x and 'v' in x:
            acc.append((path, x)); return
        for k, v in x.items():
            outcomes(v, path + (k,), acc)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                outcomes(v, path + ('[]',), acc)


def spoil(o):
    v = o['v']
    if not o['ok']:
        o['ok'] = True; return 'error lost'
    t = v['t']
    if t == 'mat' and v['r'] * v['c'] and rnd.random() < 0.9:
        m = max((abs(dec(x)) for row in v['d'] for x in row if dec(x) == dec(x) and abs(dec(x)) < 1e300), default=1) or 1
        i, j = rnd.randrange(v['r']), rnd.randrange(v['c'])
        v['d'][i][j] = enc(dec(v['d'][i][j]) + rel * m); return 'element'
    if t == 'num':
        x = dec(v['f']); v['f'] = enc(x + rel * (abs(x) or 1)); return 'number'
    if t == 'int':
        v['i'] += 1; return 'int'
    if t == 'bool':
        v['b'] = not v['b']; return 'bool'
    if t == 'str':
        v['s'] += 'x'; return 'str'
    if t == 'bytes' and v['y']:
        k = rnd.randrange(len(v['y'])); v['y'][k] ^= 1; return 'byte'
    o['ok'] = False; o['err'] = 'ValueError'; o['v'] = {'t': 'none'}; return 'raised'


def main():
    runner.build()
    work = tempfile.mkdtemp(prefix='corrupt')
    f = work + '/cases'
    rc, out = runner.tlc(CHECKS[pid]['gen'], 'Gen.cfg', work, {'CASES': f, 'VERIF_TIER': 'quick', 'VERIF_SEED': '1'}, 900, extra=('-deadlock',))
    cases = [json.loads(x) for x in open(f)]
    rnd.shuffle(cases); cases = cases[:N]
    for c in cases:
        c['id'] = runner.case_id(c)
    import concurrent.futures as cf
    sh = runner.shard(cases, 6)
    def one(k):
        with open(f'{work}/c{k}', 'w') as h:
            h.writelines(json.dumps(c) + '\n' for c in sh[k])
        subprocess.run([runner.PY, V + '/drv/main.py', CHECKS[pid]['driver'], f'{work}/c{k}', f'{work}/t{k}'], env=runner.pyenv(1, 'quick'), cwd=work, check=True, capture_output=True)
        evs = [json.loads(x) for x in open(f'{work}/t{k}')]
        by = collections.OrderedDict()
        for e in evs:
            by.setdefault(e['case'], []).append(e)
        done = {}
        for c, es in by.items():
            acc = []
            for e in es:
                a = []
                outcomes({q: w for q, w in e.items() if q not in ('case',)}, (), a)
                acc += [(str(e.get('cls', '')) + '.' + str(e.get('m', e.get('op', ''))) + ':' + '/'.join(p), o) for p, o in a]
            if not acc:
                continue
            p, o = rnd.choice(acc)
            done[c] = (p, spoil(o))
        with open(f'{work}/x{k}', 'w') as h:
            h.writelines(json.dumps(e) + '\n' for e in evs)
        rc, out = runner.tlc(CHECKS[pid]['trace'], 'Trace.cfg', work, {'TRACE': f'{work}/x{k}', 'VERDICT': f'{work}/v{k}', 'VERIF_TIER': 'quick'}, 3000)
        if not os.path.exists(f'{work}/v{k}'):
            return done, None, out[-800:]
        return done, {b['case'] for b in json.load(open(f'{work}/v{k}'))['bad']}, ''
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, range(len(sh))))
    tot, miss = collections.Counter(), collections.defaultdict(list)
    for done, bad, err in res:
        if bad is None:
            print('TLC stopped:', err); continue
        for c, k in done.items():
            tot[k] += 1
            if c not in bad:
                miss[k].append(c)
    print(pid, 'corrupted', sum(tot.values()), 'noticed', sum(tot.values()) - sum(len(x) for x in miss.values()))
    for k in sorted(miss, key=lambda k: -len(miss[k])):
        print('  ', k, len(miss[k]), 'of', tot[k], 'e.g.', miss[k][0][:200])
    shutil.rmtree(work)


main()
