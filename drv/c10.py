from .common import *


def make(f):
    from wai.ma.filter import Downsample, Equidistance
    from wai.ma.transformation import Center, PassThrough
    k = f['f']
    if k == 'ds':
        d = Downsample()
        d.start_index, d.step = f['a'], f['b']
        return d
    if k == 'eq':
        return Equidistance(f['a'])
    return Center() if k == 'cen' else PassThrough()


def run(case, log):
    from wai.ma.core import MultiFilter
    objs = [make(f) for f in case['filters']]
    chain = [objs[k - 1] for k in case['order']]
    obj = chain[0] if len(chain) == 1 else MultiFilter(chain)
    if case['nest'] == 1:
        obj = MultiFilter([chain[0], MultiFilter(chain[1:])])
    elif case['nest'] == 2:
        obj = MultiFilter([MultiFilter(chain[:2]), MultiFilter([]), MultiFilter(chain[2:])])
    log.ev(op='new', filters=case['filters'], order=case['order'], res={'ok': True})
    for n, s in enumerate(case['steps']):
        if s['op'] == 'set':
            o = objs[s['k'] - 1]
            def go():
                if case['filters'][s['k'] - 1]['f'] == 'ds':
                    o.start_index, o.step = s['a'], s['b']
                else:
                    o.num_samples = s['a']
            res, _ = call(go)
            log.ev(op='set', k=s['k'], a=s['a'], b=s['b'], res=res)
        else:
            x = mk(s['kind'], s['r'], s['c'], n)
            res, _ = call(obj.transform, M(x))
            log.ev(op='transform', x=fmat(x), res=res)
