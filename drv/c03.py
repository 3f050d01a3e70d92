from .objs import *

_first = {}


def first(cls, p, d, q):
    """The answer of an object that is asked nothing but q."""
    k = (cls, p, d, q)
    if k not in _first:
        s = Subject(cls, p)
        s.train(d, 0)
        _first[k] = s.ask(q)[0]
    return _first[k]


def run(case, log):
    cls, p, d = case['cls'], case['p'], case['d']
    s = Subject(cls, p)
    r, _, _ = s.train(d, 0)
    log.ev(op='train', cls=cls, o='o1', res=dict(r, v={'t': r['v']['t']}))
    for q in case['w']:
        r, _, _ = s.ask(q)
        log.ev(op='ask', cls=cls, o='o1', q=q, res=r, first=first(cls, p, d, q))
