from .common import *


def data(kind, n, p, *key):
    if kind == 'equi':           # columns with the same correlation between all pairs: a repeated eigenvalue
        g = rng_for('equi', n, p, *key)
        if n <= p + 1 or p < 2:
            return mk('generic', n, p, *key)
        Q = np.linalg.qr(np.column_stack([np.ones(n), g.normal(size=(n, p))]))[0][:, 1:]
        S = 0.4 * np.eye(p) + 0.6
        w, v = np.linalg.eigh(S)
        return Q @ (v * np.sqrt(w)) @ v.T * 3
    X = mk(kind, n, p, *key)
    if kind in ('ties', 'int', 'sparse') and not (X != X[0]).any():
        X[0, 0] += 1
    return X


def run(case, log):
    from wai.ma.algorithm import PCA
    n, p = case['sz']
    X = data(case['kind'], n, p, case['rep'])
    a = PCA()
    share = case['share'][0] / case['share'][1]
    a.variance = share
    a.max_columns = case['max']
    a.center = case['center']
    res, _ = call(a.transform, M(X))
    load, _ = call(lambda: a.loadings)
    scores, _ = call(lambda: a.scores)
    log.ev(op='pca', X=fmat(X), share=f64(share), max=case['max'], center=case['center'], res=res, load=load, scores=scores)
