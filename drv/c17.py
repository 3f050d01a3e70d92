from .common import *


def run(case, log):
    from wai.ma.algorithm import CCAFilter
    n, p, q = case['sz']
    key = (case['rep'], n, p, q)
    g = rng_for('c17', *key)
    X = mk(case['kind'], n, p, *key, 'X')
    Y = (X - X.mean(0)) / (X.std(0) + 1) @ g.normal(size=(p, q)) + g.normal(size=(n, q)) * 0.7 + 2
    m = 1 + (n + p) % 3
    N, NY = mk('generic', m, p, *key, 'N'), mk('generic', m, q, *key, 'NY')
    a = CCAFilter()
    a.kcca = case['k']
    lx, ly = case['lx'][0] / case['lx'][1], case['ly'][0] / case['ly'][1]
    a.lambda_X = lx
    a.lambda_Y = ly
    init, _ = call(a.initialize, M(X), M(Y))
    P, _ = call(lambda: a.proj_X)
    Q, _ = call(lambda: a.proj_Y)
    res, _ = call(a.transform, M(N))
    resY, _ = call(a.transform_response, M(NY))
    log.ev(op='cca', X=fmat(X), Y=fmat(Y), N=fmat(N), NY=fmat(NY), k=case['k'], lx=f64(lx), ly=f64(ly), init=init, P=P, Q=Q, res=res, resY=resY)
