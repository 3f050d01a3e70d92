from .c01 import *


def lst(x):
    return [{'n': n, 'o': o} for n, o in x]


def run(case, log):
    cls = case['cls']
    a = fresh(cls, 0)
    p = 0
    for s in case['walk']:
        if s['a'] == 'Q':
            r, fired = call(str, a)[0], False
            ask(a, cls, 1)
            mats(a, cls)
        else:
            r, fired = step(a, cls, s, p)
        p = s['p']
        k = dict(op='step', cls=cls, a=s['a'], d=s['d'], k=s['k'], p=p, via=s['via'], probe=case['probe'], res=r if s['a'] == 'G' else dict(r, v={'t': r['v']['t']}))
        if s['a'] == 'G':
            via = s['via'] if cls == 'DIPLS' and not case['probe'] else 0
            ans, ms = lst(ask(a, cls, s['d'])), lst(mats(a, cls))
            f, ra, rm = ref(cls, p, s['d'], via)
            k.update(ans=ans, mats=ms, ref=f, refans=lst(ra), refmats=lst(rm))
        log.ev(**k)
