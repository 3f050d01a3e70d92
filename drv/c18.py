from .common import *


def data(kind, n, p, *key):
    if kind == 'white':          # already whitened, up to the scale of each direction
        X = data('sources', n, p, *key)
        u, _, v = np.linalg.svd(X - X.mean(0), full_matrices=False)
        return u @ v * np.sqrt(n)
    if kind in ('tiny', 'huge'):
        return data('sources', n, p, *key) * (1e-6 if kind == 'tiny' else 1e5)
    if kind != 'sources':
        return mk(kind, n, p, *key)
    g = rng_for('ica', n, p, *key)
    t = np.linspace(0, 8, n)
    S = np.column_stack([[np.sin(2 * t), np.sign(np.sin(3 * t)), ((t * 1.3) % 1) - 0.5, g.laplace(size=n), g.uniform(-1, 1, size=n)][i % 5] * (1 + i) + 0.05 * g.normal(size=n) for i in range(p)])
    return S @ g.normal(size=(p, p)) + g.normal(size=p) * 3


def run(case, log):
    from wai.ma.algorithm.ica import FastICA, Algorithm
    import wai.ma.algorithm.ica.approxfun as F
    from wai.ma.core.matrix import factory
    n, p = case['sz']
    al = case['al'][0] / case['al'][1]
    f = F.LogCosH(al) if case['fun'] == 'LogCosH' else getattr(F, case['fun'])()
    if case['op'] == 'fun':
        X = mk(case['kind'], n, p, case['rep'])
        if case['kind'] == 'offset':
            X = X / 30
        o, r = call(f.apply, M(X))
        ok = o['ok'] and isinstance(r, tuple) and len(r) == 2
        g, _ = call(lambda: r[0]) if ok else (o, None)
        gd, _ = call(lambda: r[1]) if ok else (o, None)
        log.ev(op='fun', fun=case['fun'], al=f64(al), X=fmat(X), g=g, gd=gd)
        return
    a = FastICA()
    if case['op'] == 'untrained':
        log.ev(op='untrained', recon=call(a.reconstruct)[0])
        return
    X = data(case['kind'], n, p, case['rep'])
    a.num_components = case['k']
    a.whiten = case['whiten']
    a.fun = f
    a.algorithm = Algorithm.DEFLATION if case['alg'] == 'deflation' else Algorithm.PARALLEL
    a.max_iter = case['maxIter']
    a.tol = 10.0 ** -case['tole']
    mn = min(n, p)
    k = mn if not case['whiten'] else min(mn, case['k'])
    e = dict(op='ica', X=fmat(X), k=case['k'], whiten=case['whiten'], alg=case['alg'], fun=case['fun'], al=f64(al), maxIter=case['maxIter'],
             tol=f64(10.0 ** -case['tole']), W0=fmat(factory.randn(k, k, 1).data))
    e['res'], _ = call(a.transform, M(X))
    for nm, at in (('comps', 'components'), ('mixing', 'mixing'), ('sources', 'sources'), ('white', 'whitening')):
        e[nm], _ = call(lambda: getattr(a, at))
    e['recon'], _ = call(a.reconstruct)
    log.ev(**e)
