from .algs import *

install_faults()
KINDS = ' xycmlwoudniv'


def slim(o):
    return {'ok': o['ok'], 'err': o['err'], 't': o['v']['t']}


def step(a, cls, s, p):
    """One action; returns its outcome and whether an injected fault was reached (p: variant before the action)."""
    x, d, k = s['a'], s['d'], s['k']
    fired = False
    if x == 'G':
        r = train(a, cls, d)
    elif x == 'F':
        n = train_ops(cls, p, d)
        # k < 10: tenths of the training; 10..19: the last operations; from 100: the (k - 100)-th operation
        at = n * k // 10 + k % 3 if k < 10 else n - 1 - (k - 10) if k < 100 else k - 100
        r, fired = with_fault(max(0, min(n - 1, at)), lambda: train(a, cls, d))
    elif x == 'B':
        r = bad_train(a, cls, KINDS[k], d)
    elif x == 'R':
        r = call(a.reset)[0]
    elif x == 'P':
        r = call(assign, a, cls, d)[0]
    elif x == 'V':
        v = INVALID[cls]
        n, y = v[k % len(v)]
        r = call(setattr, a, n, y)[0]
    elif x == 'X':
        r, fired = with_fault(k, lambda: (ask(a, cls, 1) or [['', {'ok': True, 'err': '', 'v': {'t': 'none'}}]])[0][1])
    elif x == 'W':
        N = data(cls, 1)[2]
        rq = requests(a, cls, np.hstack([N, N]))
        r = call(rq[0][1], *([] if rq[0][2] is None else [M(rq[0][2])]))[0] if rq else call(str, a)[0]
    else:
        r = call(str, a)[0]
    return r, fired


def caps(a):
    """What the algorithm says about itself: loadings, predictions; and what an unknown matrix name yields."""
    h, c = call(a.has_loadings)[1], call(a.can_predict)[1]
    return [{'h': h is True, 'c': c is True, 'load': slim(call(a.get_loadings)[0]), 'other': slim(call(a.get_matrix, 'no such matrix')[0])}]


def run(case, log):
    cls = case['cls']
    a = fresh(cls, 0)
    p, m = 0, 1
    for s in case['walk']:
        r, fired = step(a, cls, s, p)
        p = s['p']
        if s['a'] in 'GF':
            m = s['d']
        log.ev(op='step', cls=cls, a=s['a'], d=s['d'], k=s['k'], fired=fired, res=slim(r), init=a.is_initialised() is True,
               req=[dict(slim(o), n=n) for n, o in ask(a, cls, m)], mats=[dict(slim(o), n=n) for n, o in mats(a, cls)],
               caps=caps(a) if cls in PLS else [])
