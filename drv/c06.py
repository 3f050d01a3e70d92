from .common import *

_cache = {}


def dataset(cls, d):
    if d == 9:      # refused: an infinite value
        a = dataset(cls, 1).copy()
        a[1, 2] = np.inf
        return a
    g = rng_for('c06', cls, d)
    r = {1: 6, 2: 4, 3: 5, 4: 7, 5: 150, 6: 5}[d]
    c = 9 if d != 3 else 8
    if cls == 'MultiplicativeScatterCorrection':
        r = 140 if d == 5 else 8
        w = np.linspace(10, 80, r) + d * 0.5
        return np.column_stack([w] + [np.sin(w / 20 + g.uniform(0, 2)) + 3 + 0.1 * g.normal(size=r) for _ in range(1 + d % 2)])
    if cls in ('PowerTransformer', 'Log'):
        return g.uniform(0.5, 4, size=(r, c)) * (1e-6 if d == 6 else 1)
    a = g.normal(size=(r, c)) * (d + 1) + d
    if d == 6:
        a = a * 1e-7
    if d == 4 and cls != 'QuantileTransformer':
        a[:, 0] = 3.0; a[:, -1] = 0.1
    return a


def params(cls, t, p):
    if cls == 'RobustScaler':
        t.with_centering = p != 1
        t.quantile_range = (10.0, 70.0) if p == 2 else (25.0, 75.0)
    elif cls == 'PowerTransformer':
        t.method = 'box-cox' if p == 2 else 'yeo-johnson'
        t.standardise = p != 1
    elif cls == 'QuantileTransformer':
        t.n_quantiles = 3 if p == 1 else 1000
        t.output_distribution = 'normal' if p == 2 else 'uniform'
    elif cls == 'Log':
        t.base = 10.0 if p == 1 else np.e
        t.offset = 2.5 if p == 2 else 1.0
    elif cls == 'SavitzkyGolay':
        t.polynomial_order = 3 if p == 1 else 2
        t.num_points_left = 2 if p == 2 else 3
    elif cls == 'SavitzkyGolay2':
        t.derivative_order = 0 if p == 1 else 1
        t.num_points = 2 if p == 2 else 3
    elif cls == 'FFT':
        from wai.ma.transformation import OutputMode
        t.output_mode = OutputMode.REAL_AND_IMAG_PAIRS if p == 1 else OutputMode.AMPLITUDE_ONLY
        t.orthonormalisation = p == 2


def fresh(cls, p):
    t = tcls(cls)()
    if p:
        params(cls, t, p)
    if cls == 'MultiplicativeScatterCorrection':
        t.correction.ranges = [(10.0, 50.0), (60.0, 80.5)]
    return t


def ref(cls, p, cfg, a, d):
    key = (cls, p, cfg, a, d)
    if key not in _cache:
        t = fresh(cls, p)
        t.configure(M(dataset(cls, cfg)))
        f = t.transform if a == 'T' else t.inverse_transform
        r1, _ = call(f, M(dataset(cls, d)))
        if cfg == d or a == 'I':
            u = fresh(cls, p)
            if cfg != d:
                call(u.transform, M(dataset(cls, cfg)))
        else:
            u = fresh(cls, p)
            call(u.transform, M(dataset(cls, cfg)))
        r2, _ = call(u.transform if a == 'T' else u.inverse_transform, M(dataset(cls, d)))
        _cache[key] = (r1, r2)
    return _cache[key]


def run(case, log):
    cls = case['cls']
    t = fresh(cls, 0)
    for s in case['walk']:
        a, d = s['a'], s['d']
        if a == 'S':
            import wai.ma.transformation as T
            f = {'Center': T.center, 'RowNorm': T.row_norm, 'Standardize': T.standardize, 'Log': T.log}[cls]
            log.ev(op='short', cls=cls, d=d, res=call(f, M(dataset(cls, d)))[0], ref=ref(cls, 0, d, 'T', d)[0])
            continue
        if a == 'H':        # an object of the class at work in between
            t = fresh(cls, 0)
            log.ev(op='use', cls=cls, d=d, res=call(t.transform, M(dataset(cls, d)))[0])
            continue
        k = dict(op='step', cls=cls, a=a, d=d, own=case['own'], cfg=s['cfg'], par=s['par'])
        if a == 'T' or a == 'I':
            k['res'], _ = call(t.transform if a == 'T' else t.inverse_transform, M(dataset(cls, d)))
            if d != 9:
                k['ref'], k['ref2'] = ref(cls, s['par'], s['cfg'], a, d)
        elif a == 'C':
            k['res'], _ = call(t.configure, M(dataset(cls, d)))
        elif a == 'R':
            k['res'], _ = call(t.reset)
        else:
            k['res'], _ = call(params, cls, t, d)
        log.ev(**k)
