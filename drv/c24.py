from .objs import *
from . import algs, c06

_live, _single = {}, {}


def subject(case):
    """A trained object (never asked anything else than the rows of the cases) and its six rows."""
    cls, p, d, kind, f = case['cls'], case['p'], case['d'], case['kind'], case['f']
    k = (cls, p, d, kind, f)
    if k in _live:
        return _live[k]
    g = rng_for('c24', cls, d, kind, f)
    if kind == 'wide' and cls in algs.PLS + algs.GLS + ['CCAFilter'] and cls != 'DIPLS':
        X = g.normal(size=(9, 25)) * 2 + 1
        q = 2 if cls in MULTI + ['CCAFilter'] else 1
        Y = X[:, :3] @ g.normal(size=(3, q)) + 0.1 * g.normal(size=(9, q))
        if cls in ('GLSW', 'EPO'):
            Y = X + 0.3 * g.normal(size=X.shape)
        o = fresh(cls, p)
        call(o.initialize, M(X), M(Y))
        tr = [X, Y]
    elif kind == 'wide' and cls in TRANSF:
        X = np.abs(g.normal(size=(5, 40))) + 0.5
        o = c06.fresh(cls, p)
        call(o.configure, M(X))
        tr = [X]
    else:
        s = Subject(cls, p)
        s.train(d, 0)
        o = s.o
        tr = s.sets()[0]
    A = tr[1] if f == 'response' else tr[0]
    base = A[:4] if A.shape[0] >= 4 else np.vstack([A] * 4)[:4]
    sd = A.std(axis=0) + 0.1
    if kind == 'ties':
        N = np.vstack([np.round(base), np.round(base[:1]), A[-1:]])
        N[2] = N[1]
        N[3] = N[3, 0]
    else:
        N = np.vstack([base + 0.4 * sd * g.normal(size=base.shape), A[:1] + 1e3 * sd * (1 if cls != 'KernelPLS' else 1e-3), A[-1:]])
    if cls in ('PowerTransformer', 'Log'):
        N = np.abs(N) + 0.01
    if cls == 'QuantileTransformer' and f == 'inverse':
        N = (N - N.min()) / (N.max() - N.min())
    if cls == 'PowerTransformer' and f == 'inverse':
        N = N / N.max() / 4
    if cls in KERNELS:
        ref = M(A[:3])
        fn = lambda m: o.apply_matrix(m, ref)
    else:
        fn = {'predict': 'predict', 'transform': 'transform', 'response': 'transform_response', 'inverse': 'inverse_transform'}[f]
        fn = getattr(o, fn)
    _live[k] = (fn, N)
    return _live[k]


def run(case, log):
    fn, N = subject(case)
    k = (case['cls'], case['p'], case['d'], case['kind'], case['f'])
    rows = np.asarray(case['rows']) - 1
    res, _ = call(fn, M(N[rows]))
    if k not in _single:
        _single[k] = [call(fn, M(N[i:i + 1]))[0] for i in range(6)]
    s = _single[k]
    log.ev(op='batch', cls=case['cls'], f=case['f'], rows=case['rows'], probe=case['probe'], res=res, single=s, err=all(not x['ok'] for x in s))
