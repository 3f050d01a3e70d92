from .common import *


def run(case, log):
    from wai.ma.transformation import kernel as K
    from wai.ma.core import NAN
    r1, r2, c = case['sz']
    X, Y = mk(case['kind'], r1, c, case['rep'], 'X'), mk(case['kind'], r2, c, case['rep'], 'Y')
    if case['kind'] == 'dup':
        Y[0] = X[0]
    k = getattr(K, case['cls'])()
    g = np.nan if case['gamma'] == [0, 0] else case['gamma'][0] / case['gamma'][1]
    coef = case['coef'][0] / case['coef'][1]
    if case['cls'] == 'PolyKernel':
        k.degree = case['deg']
        k.coef_0 = coef
        if not np.isnan(g):
            k.gamma = g
    elif case['cls'] == 'RBFKernel':
        k.gamma = NAN if np.isnan(g) else g
    before = repr(sorted(vars(k).items(), key=str))
    KXY, _ = call(k.apply_matrix, M(X), M(Y))
    KX, _ = call(k.apply_matrix, M(X))
    KXX, _ = call(k.apply_matrix, M(X), M(X))
    vals = [[0.0] * r2 for _ in range(r1)]
    ok = True
    for i in range(r1):
        for j in range(r2):
            o, v = call(k.apply_vector, M(X[i:i + 1]), M(Y[j:j + 1]))
            ok = ok and o['ok'] and np.ndim(v) == 0
            vals[i][j] = float(v) if o['ok'] and np.ndim(v) == 0 else np.nan
    vecs = {'ok': bool(ok), 'err': '' if ok else 'vector', 'v': menc(np.array(vals))}
    log.ev(op=case['op'], cls=case['cls'], X=fmat(X), Y=fmat(Y), gamma=f64(g), coef=f64(coef), deg=case['deg'], KXY=KXY, KX=KX, KXX=KXX, vecs=vecs,
           same=before == repr(sorted(vars(k).items(), key=str)))
