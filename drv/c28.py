from .common import *
from .c12 import cres, Q


def data(case):
    r, c = case['sh']
    k, rep = case['kind'], case['rep']
    g = rng_for('c28', k, r, c, rep)
    if k in ('sym', 'psd'):
        a = g.normal(size=(r, r))
        return (a + a.T) / 2 if k == 'sym' else a @ a.T
    if k == 'diag': return np.diag(g.normal(size=r) * 5)
    if k == 'ident': return np.eye(r) * (rep * 0.5)
    if k == 'tri': return np.triu(g.normal(size=(r, r))) + np.eye(r) * np.arange(1, r + 1) * 2
    if k == 'perm': return np.eye(r)[g.permutation(r)]
    if k == 'gdiag':                          # singular values of very different size
        a = np.zeros((r, c))
        for i in range(min(r, c)):
            a[i, i] = 10.0 ** -[0, 8, 3, 6][(i + rep) % 4]
        return a
    if k == 'grade':
        n = min(r, c)
        u, w = np.linalg.qr(g.normal(size=(r, n)))[0], np.linalg.qr(g.normal(size=(c, n)))[0]
        return u @ np.diag(10.0 ** -(6.0 * np.arange(n) / max(n - 1, 1))) @ w.T
    return mk(k, r, c, rep)


def run(case, log):
    from wai.ma.core.matrix import helper
    a = data(case)
    m = case['m']
    q = lambda n: cres(*call(Q[n], M(a)))
    if m == 'eig':
        log.ev(op='eig', a=fmat(a), vals=q('evals'), vecs=q('evecs'), desc=q('evals_desc'), asc=q('evals_asc'), vdesc=q('evecs_desc'),
               vasc=q('evecs_asc'), dom=q('dominant'), d=q('D'))
    elif m == 'svd':
        log.ev(op='svd', a=fmat(a), u=q('U'), s=q('S'), w=q('W'), vals=q('svals'))
    elif m == 'inv':
        res, _ = call(lambda: M(a).inverse())
        hres, _ = call(lambda: helper.inverse(M(a)))
        log.ev(op='inv', a=fmat(a), res=res, hres=hres, singular=case['kind'] == 'zero')
    elif m == 'pinv':
        res, _ = call(lambda: M(a).pseudo_inverse())
        log.ev(op='pinv', a=fmat(a), res=res)
    else:
        b = mk('generic', a.shape[0], 1 + case['rep'] % 3, 'rhs', case['rep'])
        res, _ = call(lambda: helper.solve(M(a), M(b)))
        log.ev(op='solve', a=fmat(a), b=fmat(b), res=res)
