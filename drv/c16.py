from .common import *


def run(case, log):
    import wai.ma.algorithm.glsw as G
    n, p = case['sz']
    cls = case['cls']
    yg = cls.startswith('YGradient')
    g = rng_for('c16', cls, n, p, case['rep'])
    A = mk(case['kind'], n, p, case['rep'], 'A')
    B = g.permutation(n).reshape(-1, 1) + g.random(size=(n, 1)) * 0.5 if yg else mk(case['kind'], n, p, case['rep'], 'B')
    if yg and (n + p + len(case['kind'])) % 2:
        B = B - n / 3                        # responses of both signs
    B = B * 10.0 ** case['sc']
    N = mk('generic', case['m'], p, case['rep'], 'N')
    a = getattr(G, cls)()
    al = case['al'][0] / case['al'][1]
    a.alpha = al
    if case['n']:
        a.N = case['n']
    init, _ = call(a.initialize, M(A), M(B))
    Gm, _ = call(lambda: a.G)
    res, _ = call(a.transform, M(N))
    log.ev(op=case['op'], A=fmat(A), B=fmat(B), N=fmat(N), ygrad=yg, epo='EPO' in cls, n=case['n'], alpha=f64(al), init=init, G=Gm, res=res)
