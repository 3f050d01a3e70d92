from .algs import *
from . import c06
from enum import Enum

TRANSF = ['RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log', 'SavitzkyGolay', 'SavitzkyGolay2', 'FFT']
PLAIN = ['Downsample', 'Equidistance', 'RBFKernel', 'PolyKernel', 'LogCosH']


def code(x):
    if x is None:
        return 'n'
    if isinstance(x, Enum):
        return 'e:' + x.name
    if isinstance(x, (bool, np.bool_)):
        return 'b:' + str(bool(x))
    if isinstance(x, (int, np.integer)):
        return 'i:%d' % x
    if isinstance(x, (float, np.floating)):
        return 'f:' + repr(float(x))
    if isinstance(x, str):
        return 's:' + x
    if isinstance(x, tuple):
        return 't:' + ','.join(repr(float(y)) for y in x)
    return 'o:' + type(x).__name__


def value(cls, n, c):
    k, _, s = c.partition(':')
    if k == 'n':
        return None
    if k == 'i':
        return int(s)
    if k == 'f':
        from wai.ma.core import NAN
        return NAN if s == 'nan' else float(s)
    if k == 'b':
        return s == 'True'
    if k == 's':
        return s
    if k == 't':
        return tuple(float(x) for x in s.split(','))
    if k == 'e':
        if n == 'preprocessing_type':
            from wai.ma.core import PreprocessingType as E
        elif n == 'deflation_mode':
            from wai.ma.algorithm.pls._NIPALS import DeflationMode as E
        elif n == 'algorithm':
            from wai.ma.algorithm.ica import Algorithm as E
        else:
            from wai.ma.transformation import OutputMode as E
        return E[s]
    if s.endswith('Kernel'):
        import wai.ma.transformation.kernel as K
        return getattr(K, s)()
    if n == 'fun':
        import wai.ma.algorithm.ica.approxfun as F
        return getattr(F, s)()
    return pls(s)


from .pls import pls


def blank(cls):
    if cls in TRANSF:
        return tcls(cls)()
    if cls == 'Equidistance':
        from wai.ma.filter import Equidistance
        return Equidistance(6)
    if cls == 'Downsample':
        from wai.ma.filter import Downsample
        return Downsample()
    if cls.endswith('Kernel'):
        import wai.ma.transformation.kernel as K
        return getattr(K, cls)()
    if cls == 'LogCosH':
        from wai.ma.algorithm.ica.approxfun import LogCosH
        return LogCosH()
    return new(cls)


def teach(o, cls, d):
    if cls in TRANSF:
        return call(o.configure, M(c06.dataset(cls, d)))[0]
    if cls == 'DIPLS':
        return train(o, cls, d)
    return train(o, cls, d)


def has(o, cls):
    if cls in PLAIN:
        return True
    return bool(o.configured if cls in TRANSF else o.is_initialised())


def answers(o, cls, d, h):
    if cls in TRANSF:
        out = []
        if h and cls not in ('FFT', 'SavitzkyGolay', 'SavitzkyGolay2'):
            out.append(['inverse', call(o.inverse_transform, M(np.abs(c06.dataset(cls, 2)) / 20 + 0.01))[0]])
        if h:
            out.append(['transform', call(o.transform, M(c06.dataset(cls, 2)))[0]])
        return out
    X = data('PCA', 1)[0]
    if cls in ('Downsample', 'Equidistance'):
        return [['transform', call(o.transform, M(X))[0]]]
    if cls.endswith('Kernel'):
        return [['matrix', call(o.apply_matrix, M(X / 3))[0]], ['vector', call(o.apply_vector, M(X[:1] / 3), M(X[1:2] / 3))[0]]]
    if cls == 'LogCosH':
        r, v = call(o.apply, M(X))
        return [['g', {'ok': r['ok'], 'err': r['err'], 'v': venc(v[0]) if r['ok'] else {'t': 'none'}}]]
    return ask(o, cls, d) + mats(o, cls)


_ref = {}


def reference(cls, vals, d):
    """Training outcome and answers of a new object with these values that has only ever seen data set d."""
    k = (cls, tuple(sorted(vals.items())), d)
    if k not in _ref:
        o = blank(cls)
        for n, v in vals.items():
            setattr(o, n, value(cls, n, v))
        r = teach(o, cls, d) if cls not in PLAIN else {'ok': True, 'v': {'t': 'none'}}
        _ref[k] = (trained(r), answers(o, cls, d, has(o, cls)))
    return _ref[k]


def trained(r):
    return r['ok'] and r['v']['t'] != 'str'


def run(case, log):
    cls = case['cls']
    if case['kind'] == 'effect':
        s = case['w'][0]
        vals = dict(case['defs'])
        a = reference(cls, vals, 1)[1]
        vals[s['n']] = s['v']
        log.ev(op='effect', cls=cls, n=s['n'], v=s['v'], ans=reference(cls, vals, 1)[1], ref=a)
        return
    o = blank(cls)
    model = 'none'
    steps = [dict(a='new', n='', v='', d=0, vals=case['defs'], model='none')] + case['w']
    for s in steps:
        if s['a'] == 'set':
            r = call(setattr, o, s['n'], value(cls, s['n'], s['v']))[0]
            if s['model'] == 'none':
                model = 'none'
        elif s['a'] == 'train':
            r = teach(o, cls, s['d'])
            r = dict(r, ok=trained(r), v={'t': 'none'})
            model = str(s['d']) if r['ok'] else 'none'
        elif s['a'] == 'init':
            r = call(o.initialize)[0]
            model = 'none'
        else:
            r = {'ok': True, 'err': '', 'v': {'t': 'none'}}
        h = has(o, cls)
        d = int(model) if model != 'none' else 1
        e = dict(op='step', cls=cls, a=s['a'], n=s['n'], v=s['v'], d=s['d'], res=r, vals=s['vals'], model=model, has=h,
                 got={n: code(call(lambda n=n: getattr(o, n))[1]) for n in s['vals']}, ans=answers(o, cls, d, h), ref=[], refok=True)
        if model != 'none' or cls in PLAIN:
            e['ref'] = reference(cls, s['vals'], d)[1]
        if s['a'] == 'train':
            e['refok'] = reference(cls, s['vals'], s['d'])[0]
        log.ev(**e)
