from .algs import *
import math


def gen(case):
    n, p = case['sz']
    q, kind = case['q'], case['kind']
    g = rng_for('c23', kind, n, p, q, case['rep'])
    X = g.normal(size=(n, p))
    s0 = X.copy()
    if kind == 'offset':
        X = X * 2 + g.uniform(-1, 1, size=p) * 1000
    elif kind == 'scales':
        X = X * 10.0 ** g.integers(-2, 3, size=p) + 0.3
    elif kind == 'constant':
        X = X + 2
        X[:, -1] = 0.1
    elif kind == 'constants':
        X = X * 3 - 4
        X[:, 0] = 12.7
        if p > 3:
            X[:, 2] = 0.0
    elif kind == 'smallX':
        X = X * 1e-5
    elif kind == 'intX':
        X = np.round(X * 4) + 10
    elif kind == 'centred':
        X = X - X.mean(axis=0)
    else:
        X = X * 1.5 + 1
    Y = s0 @ g.normal(size=(p, q)) + 0.3 * g.normal(size=(n, q)) + g.normal(size=q) * 3
    if kind == 'bigY':
        Y = Y * 10.0 ** np.arange(1, q + 1) + 500
    if kind == 'smallY':
        Y = Y * 1e-6
    if kind == 'centred':
        Y = Y - Y.mean(axis=0)
    m = case['m']
    N = X[g.integers(n, size=m)] + 0.7 * X.std(axis=0) * g.normal(size=(m, p))
    N[0] = X[0]
    if m > 1:                                 # where the centred predictors are zero
        N[1] = [math.fsum(X[:, j]) / n for j in range(p)] if case['rep'] % 2 == 0 else X.mean(axis=0)
    return X, Y, N


def mean_dev(a, pre):
    n, c = a.shape
    if pre == 'none':
        return np.zeros(c), np.ones(c)
    mean = np.array([math.fsum(a[:, j]) / n for j in range(c)])
    if pre == 'center':
        return mean, np.ones(c)
    dev = np.array([1.0 if (a[:, j] == a[0, j]).all() else math.sqrt(math.fsum((a[:, j] - mean[j]) ** 2) / (n - 1)) for j in range(c)])
    return mean, dev


def train_on(a, cls, mode, X, Y):
    if cls != 'DIPLS':
        return call(a.initialize, M(X), M(Y))[0]
    n = X.shape[0]
    h = n // 2
    if mode == 'unsupervised':
        parts = [X[:h], X[h:], Y]
    elif mode == 'supervised':
        parts = [X[:h], X[h:], Y[:h], Y[h:]]
    else:
        t = Y.shape[0]
        parts = [X[:h], X[h:t], X[t:], Y[:h], Y[h:]]
    return call(getattr(a, 'initialize_' + mode), *[M(x) for x in parts])[0]


def run(case, log):
    cls, pre, mode = case['cls'], case['pre'], case['mode']
    X, Y, N = gen(case)
    n, p = X.shape
    if mode == 'unsupervised':
        Y = Y[:n // 2]
    elif mode == 'semisupervised':
        Y = Y[:n - max(1, n // 6)]

    def make():
        a = fresh(cls, case['p'])
        if a.num_components > 2 and (p < 6 or n < 10):
            a.num_components = 2
        if p <= 3 or n < 8 or case['kind'].startswith('constant') or (cls == 'KernelPLS' and case['kind'] == 'scales'):
            a.num_components = 1
        if cls == 'OPLS':
            a.base_PLS.num_components = 1
        return a
    a = make()
    if case['prev']:
        g = rng_for('c23prev', cls, p, case['q'])
        a.preprocessing_type = prep(case['prev'])
        call(a.initialize, M(g.normal(size=(9, p)) * 4 - 30), M(g.normal(size=(9, case['q'])) * 9 + 70))
    a.preprocessing_type = prep(pre)
    e = dict(cls=cls, pre=pre, X=fmat(X), Y=fmat(Y), N=fmat(N))
    e['init'] = train_on(a, cls, mode, X, Y)
    e['pred'], _ = call(a.predict, M(N))
    e['trans'], _ = call(a.transform, M(N))
    if pre == 'none':
        e['zero'], _ = call(a.predict, M(N * 0))
        e['zerot'], _ = call(a.transform, M(N * 0))
        e['twice'], _ = call(a.predict, M(N * 2))
        e['twicet'], _ = call(a.transform, M(N * 2))
        log.ev(op='raw', **e)
    mx, dx = mean_dev(X, pre)
    my, dy = mean_dev(Y, pre)
    Xh, Yh, Nh = (X - mx) / dx, (Y - my) / dy, (N - mx) / dx
    b = make()
    b.preprocessing_type = prep('none')
    f = dict(e, Xh=fmat(Xh), Yh=fmat(Yh), Nh=fmat(Nh), inith=train_on(b, cls, mode, Xh, Yh))
    for k in ('zero', 'zerot', 'twice', 'twicet'):
        f.pop(k, None)
    f['predh'], _ = call(b.predict, M(Nh))
    f['transh'], _ = call(b.transform, M(Nh))
    log.ev(op='prep', **f)
