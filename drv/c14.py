from .pls import *


def frac(x):
    return np.nan if x[1] == 0 else x[0] / x[1]


def run(case, log):
    op = case['cls']
    cls = op.replace('-probe', '')
    n, p, k = case['sz']
    q = case['q']
    key = (cls, case['rep'], case['lam'], case['kern'])
    m = p + 3 if cls == 'SparsePLS' else 1 + (n + k) % 4
    X, Y, N = xy(case['kind'], n, p, q, m, *key)
    g = rng_for('c14', *key, n, p, k)
    a = pls(cls)
    a.num_components = k
    a.preprocessing_type = prep(case['pre'])
    e = dict(op=op, k=k, pre=case['pre'], N=fmat(N), X=fmat(X), Y=fmat(Y))
    init = lambda: a.initialize(M(X), M(Y))
    names = {'OPLS': {'W': 'W_orth', 'P': 'P_orth', 'T': 'T_orth'},
             'DIPLS': {'T': 'T', 'Ts': 'Ts', 'Tt': 'Tt', 'P': 'P', 'Ps': 'Ps', 'Pt': 'Pt', 'W': 'Wdi', 'b': 'bdi'},
             'SparsePLS': {'W': 'W', 'B': 'B'}, 'PRM': {'B': 'B', 'Wr': 'Wr', 'Wx': 'Wx', 'W': 'W'},
             'VCPLS': {'W': 'W', 'P': 'P', 'b': 'b_hat', 'reg': 'RegVector'},
             'KernelPLS': {'K': 'K', 'T': 'T', 'U': 'U', 'P': 'P', 'Q': 'Q'},
             'CCARegression': {'T': 'T', 'U': 'U', 'P': 'P', 'Q': 'Q'}}[cls]
    if cls == 'OPLS':
        b = pls(case['base'])
        b.num_components = case['kb']
        a.base_PLS = b
        e.update(kb=case['kb'])
    elif cls == 'DIPLS':
        a.lambda_ = frac(case['lam'])
        ns, nt = case['ns'], case['nt']
        X[ns:] += 0.7 * g.normal(size=p) * (X.std(axis=0) + 0.1)
        e['X'] = fmat(X)
        md = case['mode']
        y = Y[:ns] if md == 'unsupervised' else Y[:ns + nt]
        e.update(Y=fmat(y), ns=ns, nt=nt, mode=md)
        S, T, U = M(X[:ns]), M(X[ns:ns + nt]), M(X[ns + nt:]) if case['nu'] else None
        if md == 'unsupervised':
            init = lambda: a.initialize_unsupervised(S, T, M(y))
        elif md == 'supervised':
            init = lambda: a.initialize_supervised(S, T, M(y[:ns]), M(y[ns:]))
        else:
            init = lambda: a.initialize_semisupervised(S, T, U, M(y[:ns]), M(y[ns:]))
    elif cls in ('SparsePLS', 'VCPLS'):
        a.lambda_ = frac(case['lam'])
    elif cls == 'PRM':
        a.C = frac(case['C'])
        a.tol = 10.0 ** -case['tole']
        a.max_iter = case['maxIter']
        a.num_SIMPLS_coefficients = case['nc']
        e.update(C=f64(a.C), nc=case['nc'])
    elif cls == 'KernelPLS':
        from wai.ma.transformation import kernel as K
        kern = getattr(K, case['kern'])()
        gm = frac(case['gamma'])
        if case['kern'] == 'PolyKernel':
            kern.degree = case['deg']
            kern.coef_0 = frac(case['coef'])
        if case['kern'] != 'LinearKernel' and not np.isnan(gm):
            kern.gamma = gm
        a.kernel = kern
        a.max_iter = case['maxIter']
        e['kern'] = dict(cls=case['kern'], gamma=f64(gm), coef=f64(frac(case['coef'])), deg=case['deg'])
    elif cls == 'CCARegression':
        a.norm_Y_weights = case['normY']
        a.tol = 10.0 ** -case['tole']
        e.update(normY=case['normY'])
    e.update(tol=f64(10.0 ** -case['tole']), maxIter=case['maxIter'], **{'lambda': f64(frac(case['lam']))})
    e['init'], _ = call(init)
    for f, nm in names.items():
        e[f] = mat(a, nm)
    e['load'], _ = call(a.get_loadings)
    e['pred'], _ = call(a.predict, M(N))
    e['trans'], _ = call(a.transform, M(N))
    if cls == 'OPLS':
        e['trans0'], _ = call(a.transform, M(X))
    log.ev(**e)
