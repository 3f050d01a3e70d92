from .pls import *


def run(case, log):
    cls = case['cls'] if case['cls'] != 'probe' else 'SIMPLS'
    n, p, k = case['sz']
    X, Y, N = xy(case['kind'], n, p, case['q'], 1 + n % 3, case['rep'])
    a = pls(cls)
    a.num_components = k
    a.preprocessing_type = prep(case['pre'])
    e = dict(op=case['cls'], cls=cls, X=fmat(X), Y=fmat(Y), N=fmat(N), k=k, pre=case['pre'], nc=case['nc'])
    if cls == 'SIMPLS' and case['nc']:
        a.num_coefficients = case['nc']
    if cls == 'NIPALS':
        from wai.ma.algorithm.pls._NIPALS import DeflationMode
        if case['canon']:
            a.deflation_mode = DeflationMode.CANONICAL
        a.norm_Y_weights = case['normY']
        a.max_iter = case['maxIter']
        a.tol = 10.0 ** -case['tole']
        e.update(canon=case['canon'], normY=case['normY'], maxIter=case['maxIter'], tol=f64(10.0 ** -case['tole']))
    e['init'], _ = call(a.initialize, M(X), M(Y))
    names = {'SIMPLS': ['W', 'Q', 'B'], 'PLS1': ['W', 'P', ('b', 'b_hat'), ('reg', 'RegVector')], 'NIPALS': ['T', 'U', 'P', 'Q']}[cls]
    for x in names:
        f, nm = x if isinstance(x, tuple) else (x, x)
        e[f] = mat(a, nm)
    e['load'], _ = call(a.get_loadings)
    e['pred'], _ = call(a.predict, M(N))
    e['trans'], _ = call(a.transform, M(N))
    if cls == 'NIPALS':
        e['trans0'], _ = call(a.transform, M(X))
    log.ev(**e)
