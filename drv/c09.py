from .common import *


def make(case):
    t = tcls(case['cls'])()
    t.polynomial_order = case['p']
    t.derivative_order = case['d']
    if case['cls'] == 'SavitzkyGolay2':
        t.num_points = case['l']
    else:
        t.num_points_left = case['l']
        t.num_points_right = case['r']
    return t


def run(case, log):
    op = case['op']
    if op == 'gradient':
        X = mk(case['kind'], case['rows'], case['cols'], 'g')
        res, _ = call(tcls('YGradientGLSWSavitzkyGolayFilter')().transform, M(X))
        log.ev(op=op, X=fmat(X), res=res)
        return
    w = case['l'] + case['r'] + 1
    k = dict(op=op, cls=case['cls'], l=case['l'], r=case['r'], p=case['p'], d=case['d'])
    imp, _ = call(make(case).transform, M(np.eye(w)))
    if op == 'smooth':
        X = mk(case['kind'], case['rows'], max(1, w + case['extra']), 's')
        k['X'] = fmat(X)
        k['imp'] = imp
        k['res'], _ = call(make(case).transform, M(X))
    else:
        k['res'] = imp
    log.ev(**k)
