from .common import *

VALUES = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.05, 0.125, 2.675, 1.005, 99.995, 123456.789, -9876.54321, 1e-7, -1e-7, 1e-12, 0.999999999, 9.9999, 1e6, 1e15,
          -1e15, 3.14159265358979, 2 ** 0.5, 1 / 3, -2 / 3, 0.1, 0.7, 1234.5, 4.4, 1e20]


def killer(n):
    """The order that splits off as little as possible in every round of a median-of-three quicksort (pivot parked next to the right end),
    found by letting an adversary answer the comparisons of a textbook implementation."""
    v, st = [n] * n, [0, 0]

    def cmp(x, y):
        if v[x] == n and v[y] == n:
            z = x if x == st[1] else y
            v[z] = st[0]
            st[0] += 1
        if v[x] == n:
            st[1] = x
        elif v[y] == n:
            st[1] = y
        return v[x] - v[y]
    ix, todo = list(range(n)), [(0, n - 1)]
    while todo:
        l, r = todo.pop()
        if r - l < 3:
            continue
        c = (l + r) // 2
        for a, b in ((l, c), (l, r), (c, r)):
            if cmp(ix[a], ix[b]) > 0:
                ix[a], ix[b] = ix[b], ix[a]
        ix[c], ix[r - 1] = ix[r - 1], ix[c]
        pv, i, j = ix[r - 1], l, r - 1
        while True:
            i += 1
            while cmp(ix[i], pv) < 0:
                i += 1
            j -= 1
            while cmp(ix[j], pv) > 0:
                j -= 1
            if i >= j:
                break
            ix[i], ix[j] = ix[j], ix[i]
        ix[i], ix[r - 1] = ix[r - 1], ix[i]
        todo += [(l, i - 1), (i + 1, r)]
    return [float(x) for x in v]


def pattern(p, n, rep):
    g = rng_for('c22', p, n, rep)
    if p == 'sorted': return list(np.arange(n, dtype=float))
    if p == 'reverse': return list(np.arange(n, dtype=float)[::-1])
    if p == 'random': return list(g.normal(size=n))
    if p == 'ties': return list(g.integers(0, 4, size=n).astype(float))
    if p == 'ties2': return list(g.integers(0, 4, size=n).astype(float) + np.arange(n) // 2)
    if p == 'twovals': return list(g.integers(0, 2, size=n).astype(float))
    if p == 'pipe': return [float(min(i, n - i)) for i in range(n)]
    if p == 'valley': return [float(max(i, n - i)) for i in range(n)]
    if p == 'const': return [np.float64(-2.5)] * n
    if p == 'rotated': return list(np.roll(np.arange(n, dtype=float), 1 + rep))
    if p == 'float': return list(g.normal(size=n) * 10.0 ** g.integers(-6, 6, size=n))
    if p == 'inf':
        a = g.normal(size=n); a[0] = np.inf; a[-1] = -np.inf
        return list(a)
    if p == 'nearsorted':
        a = np.arange(n, dtype=float)
        if n > 2:
            i = int(g.integers(n - 1)); a[i], a[i + 1] = a[i + 1], a[i]
        return list(a)
    if p == 'blocks': return list(np.repeat(g.normal(size=(n + 2) // 3), 3)[:n])
    if p == 'huge': return list(g.normal(size=n) * 1e9)
    if p == 'pyfloat': return [float(x) for x in g.normal(size=n)]
    if p in ('pyint', 'int'): return [int(x) for x in g.integers(-50, 50, size=n)]
    if p == 'negzero': return [(-0.0 if i % 2 else 0.0) for i in range(n)]
    if p == 'exact': return [float(i) for i in range(n)]
    if p == 'negative': return list(-np.abs(g.normal(size=n)) - 3)
    if p == 'nparray': return list(g.normal(size=n))
    if p == 'killer': return killer(n) if rep == 1 else [-x for x in killer(n)]
    raise ValueError(p)


def run(case, log):
    from wai.ma.core import utils as U
    op = case['op']
    if op in ('sort', 'maxidx', 'sortp', 'maxp'):
        xs = [np.float64(x) for x in case['xs']] if 'xs' in case else pattern(case['pat'], case['n'], case['rep'])
        keep = fvec(xs)
        res, _ = call(U.sort if op.startswith('sort') else U.max_index, xs)
        log.ev(op='sort' if op.startswith('sort') else 'maxidx', xs=keep, res=res, xs2=fvec(xs))
    elif op in ('part', 'partp'):
        xs = [np.float64(x) for x in case['xs']] if 'xs' in case else pattern(case['pat'], case['n'], 1)
        keep, idx = fvec(xs), list(range(len(xs)))
        res, _ = call(U.partition, xs, idx, case['l'], case['r'])
        log.ev(op='part', xs=keep, l=case['l'], r=case['r'], idx=venc([int(i) for i in idx]), res=res, xs2=fvec(xs))
    elif op == 'line':
        n = case['n']
        xs = pattern(case['pat'], n, case['rep'])
        if len(set(xs)) == 1:
            xs[0] += 1
        ys = [2.5 * x - 1 for x in xs] if case['pat'] == 'exact' else [type(x)(y) for x, y in zip(xs, pattern('random', n, 77 + case['rep']))]
        if case['pat'] == 'int':
            ys = pattern('int', n, 99 + case['rep'])
        kx, ky = fvec(xs), fvec(ys)
        res, v = call(U.linear_regression, xs, ys)
        if res['ok'] and isinstance(v, tuple):
            res['v'] = {'t': 'list', 'l': [{'t': 'num', 'f': f64(q)} for q in v]}
        log.ev(op='line', xs=kx, ys=ky, res=res, xs2=fvec(xs), ys2=fvec(ys))
    elif op in ('sumsq', 'toreal', 'index'):
        xs = pattern(case['pat'], case['n'], 1)
        keep = fvec(xs)
        if op == 'index':
            res, _ = call(U.initial_index, case['n'])
        elif op == 'sumsq':
            res, _ = call(U.sum_of_squares, xs)
        else:
            res, _ = call(U.to_real_array, xs)
        log.ev(op=op, xs=keep, n=case['n'], res=res, xs2=fvec(xs))
        if op == 'toreal':
            res, _ = call(U.to_real_list, xs)
            log.ev(op=op, xs=keep, n=case['n'], res=res, xs2=fvec(xs))
    elif op in ('exp', 'sqrt'):
        x = np.float64(abs(rng_for('c22', op, case['n']).normal() * case['n']))
        res, _ = call(getattr(U, op), x)
        log.ev(op=op, x=f64(x), res=res)
    elif op == 'dims':
        l = 1.0
        for _ in range(case['n']):
            l = [l, l]
        res, _ = call(U.get_list_dimensions, l)
        log.ev(op='dims', n=case['n'], res=res)
    elif op in ('fixed', 'all-decimals'):
        i = case['v'] - 1
        x = np.float64(VALUES[i]) if i < len(VALUES) else np.float64(rng_for('fix', i).normal() * 10.0 ** (i % 9 - 3))
        res, s = call(U.real_to_string_fixed, x, case['d'])
        if op == 'fixed':
            log.ev(op='fixed', x=f64(x), d=case['d'], ok=res['ok'], cs=[ord(ch) for ch in s] if res['ok'] else [])
        else:
            log.ev(op='all-decimals', x=f64(x), ok=res['ok'], back=f64(float(s)) if res['ok'] else f64(0))
    else:
        x = {'nan': np.float64('nan'), 'pinf': np.float64('inf'), 'ninf': np.float64('-inf')}[case['which']]
        res, _ = call(U.real_to_string_fixed, x, case['d'])
        log.ev(op='special', res=res, want={'nan': 'NaN', 'pinf': '+Infinity', 'ninf': '-Infinity'}[case['which']])
