from .common import *


def data(kind, r, c, *k):
    g = rng_for('c08', kind, r, c, *k)
    if kind == 'tenth':                                   # constants whose mean is inexact
        return np.tile(np.array([0.1, 0.7, 1 / 3, -2.3])[np.arange(c) % 4], (r, 1))
    if kind == 'shifted':
        return 1000.0 + g.normal(size=(r, c))
    if kind == 'onebad':
        a = np.abs(g.normal(size=(r, c))) + 3
        a[-1, -1] = -2.5
        return a
    if kind == 'posgen':
        return g.uniform(0.5, 4, size=(r, c))
    if kind == 'skew':
        return np.exp(g.normal(size=(r, c)))
    return mk(kind, r, c, *k)


def run(case, log):
    import wai.ma.transformation as T
    cls = case['cls']
    r, c = case['sh']
    rep = case['rep']
    t = tcls(cls)()
    if cls == 'Log':
        bn, bd = case['base']
        base = np.e if bn == 0 else bn / bd
        off = case['off'][0] / case['off'][1]
        if bn or rep % 2 == 0:
            t.base = base
        if off != 1.0:
            t.offset = off
        X = data(case['kind'], r, c, rep)
        res, _ = call(t.transform, M(X))
        log.ev(op='Log', data=fmat(X), base=f64(base), off=f64(off), res=res)
        return
    cfg = data(case['kind'], r, c, rep, 'cfg')
    if cls in ('RobustScaler', 'PowerTransformer'):
        X = data('generic' if case.get('method') != 'box-cox' else 'posgen', case['r2'], c, rep, 'new')
    elif cls == 'QuantileTransformer':
        g = rng_for('c08q', case['kind'], r, c, rep)
        X = cfg[g.integers(r, size=case['r2'])] + (g.integers(-2, 3, size=(case['r2'], c)) * (0.5 if case['kind'] in ('int', 'ties') else 0.137))
    else:
        X = data(case['dkind'], case['r2'], c, rep, 'new')
    if cls in ('Center', 'Standardize', 'RowNorm', 'PassThrough'):
        if case['via'] == 'configure':
            t.configure(M(cfg))
        else:
            t.transform(M(cfg))
        self_, _ = call(t.transform, M(cfg))
        res, _ = call(t.transform, M(X))
        k = dict(op=cls, cfg=fmat(cfg), data=fmat(X), own=self_, res=res)
        if cls in ('Standardize', 'RowNorm'):
            k['means'], _ = call(t.get_means)
            k['devs'], _ = call(t.get_std_devs)
        log.ev(**k)
    elif cls == 'RobustScaler':
        lo, hi = case['q']
        t.with_centering = case['centre']
        t.with_scaling = case['scale']
        t.quantile_range = (lo / 10, hi / 10)
        self_, _ = call(t.transform, M(cfg))
        res, _ = call(t.transform, M(X))
        log.ev(op=cls, cfg=fmat(cfg), data=fmat(X), own=self_, res=res, centre=case['centre'], scale=case['scale'], lo=lo, hi=hi)
    elif cls == 'PowerTransformer':
        raw = T.PowerTransformer()
        raw.method = case['method']
        raw.standardise = False
        raw.configure(M(cfg))
        one = np.full((1, c), 2.0 if case['method'] == 'box-cox' else 1.0)
        raw1, _ = call(raw.transform, M(one))
        rawres, _ = call(raw.transform, M(X))
        t.method = case['method']
        t.standardise = case['std']
        self_, _ = call(t.transform, M(cfg))
        res, _ = call(t.transform, M(X))
        log.ev(op=cls, cfg=fmat(cfg), data=fmat(X), own=self_, res=res, raw1=raw1, rawres=rawres, method=case['method'], std=case['std'])
    elif cls == 'QuantileTransformer':
        t.n_quantiles = case['nq']
        t.output_distribution = case['dist']
        t.configure(M(cfg))
        Xa = np.vstack([X, cfg])
        res, _ = call(t.transform, M(Xa))
        log.ev(op=cls, cfg=fmat(cfg), data=fmat(Xa), res=res, nq=case['nq'], dist=case['dist'])
