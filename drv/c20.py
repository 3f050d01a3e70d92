import shutil, tempfile
from .common import *

REALS = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, np.pi, 1e300, -1e-300, 5e-324, np.inf, -np.inf, 1.7976931348623157e308, 2.0 ** 53 + 1, 123456789.123]
STRS = ['', 'a', 'hello', 'x' * 300, 'é', 'grün', '€', '日本語', '😀', 'a😀b', '\n\t\x00', 'µm²', 'ÿĀ', '߿ࠀ', '\uffff', 'A' * 255, 'A' * 256]


def bytes_of(obj):
    b = io.BytesIO()
    obj.serialise_state(b)
    return b.getvalue()


def prepared(cls, r, c, kind):
    """A configured or trained object and the matrices it has to write."""
    from wai.ma.transformation import Standardize, SavitzkyGolay, SavitzkyGolay2
    from wai.ma.algorithm.pls import SIMPLS
    x = mk(kind, r, c)
    if cls == 'Standardize':
        o = Standardize(); o.configure(M(x))
        return o, [o.get_means(), o.get_std_devs()]
    if cls in ('SavitzkyGolay', 'SavitzkyGolay2'):
        o = SavitzkyGolay() if cls == 'SavitzkyGolay' else SavitzkyGolay2()
        o.transform(M(x))
        return o, [o.coefficients]
    o = SIMPLS(); o.num_components = 3
    o.initialize(M(x), M(mk('generic', r, 1, 'y')))
    return o, [o.get_matrix('W')]


def run(case, log):
    from wai.ma.core import Serialisable as Ser
    op = case['op']
    if op == 'int':
        res, _ = call(Ser.serialise_to_bytes, case['n'])
        log.ev(op='int', n=case['n'], res=res)
    elif op == 'int-range':
        v = -(1 << case['e']) - 1 if case['neg'] else 1 << case['e']
        res, _ = call(Ser.serialise_to_bytes, v)
        log.ev(op='int-range', res=res)
    elif op == 'real':
        i = case['i'] - 1
        x = REALS[i] if i < len(REALS) else float(rng_for('c20', i).normal() * 10.0 ** (i % 40 - 20))
        x = np.float64(x) if i % 2 else x
        res, _ = call(Ser.serialise_to_bytes, x)
        log.ev(op='real', x=f64(x), res=res)
    elif op == 'str':
        i = case['i'] - 1
        g = rng_for('c20s', i)
        s = STRS[i] if i < len(STRS) else ''.join(chr(int(k)) for k in g.choice([65, 233, 8364, 128512, 2047, 2048, 32], size=i))
        res, _ = call(Ser.serialise_to_bytes, s)
        log.ev(op='str', cs=[ord(ch) for ch in s], res=res)
    elif op == 'other-type':
        res, _ = call(Ser.serialise_to_bytes, [None, [1], {}][case['i'] - 1])
        log.ev(op='other-type', res=res)
    elif op == 'big':
        v = (1 << case['e']) + case['d']
        v = -v if case['neg'] else v
        res, _ = call(Ser.serialise_big_int, v)
        log.ev(op='big', wide=list(v.to_bytes(case['e'] // 8 + 4, 'little', signed=True)), res=res)
    elif op == 'state':
        prefix = []
        if case['cls'] == 'Matrix':
            from .c21 import data
            o = laid(data(case['kind'], case['r'], case['c']), case['lay'])
            mats = [o]
        else:
            o, mats = prepared(case['cls'], case['r'], case['c'], case['kind'])
        want = [fmat(m.data) for m in mats]
        stream, _ = call(bytes_of, o)
        d = tempfile.mkdtemp(dir='.')
        sub = {'none': '', 'one': 'new', 'deep': 'a/b/c', 'existing': 'have'}[case['dir']]
        if case['dir'] == 'existing':
            os.makedirs(os.path.join(d, 'have'))
        cwd = os.getcwd()
        os.chdir(d)
        try:
            fn = os.path.join(sub, 'state.bin') if sub else 'state.bin'
            if case['dir'] == 'existing':
                with open(fn, 'wb') as f:       # an older, longer file is replaced
                    f.write(b'x' * 5000)
            saved, _ = call(o.save_state, fn)
            got = list(open(fn, 'rb').read()) if os.path.exists(fn) else []
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
        stream2, _ = call(bytes_of, o)
        log.ev(op='state', cls=case['cls'], prefix=prefix, mats=want, stream=stream, saved=saved, file=got, stream2=stream2)
    elif op == 'log':
        from wai.ma.transformation import Log
        o = Log()
        if case['base']:
            o.base = case['base'] / 4
        o.offset = case['offset'] / 4
        res, y = call(bytes_of, o)
        fac = struct.unpack('<d', y[8:16])[0] if res['ok'] and len(y) == 24 else 0.0
        log.ev(op='log', base=f64(o.base), factor=f64(fac), offset=f64(o.offset), res=res)
    elif op == 'nothing':
        cls, how = case['cls'], case['how']
        if how == 'new':
            from wai.ma.transformation import Standardize, SavitzkyGolay, SavitzkyGolay2
            from wai.ma.algorithm.pls import SIMPLS
            o = {'Standardize': Standardize, 'SavitzkyGolay': SavitzkyGolay, 'SavitzkyGolay2': SavitzkyGolay2, 'SIMPLS': SIMPLS}[cls]()
        else:
            o, _ = prepared(cls, 8, 9, 'generic')
            if how == 'param' and cls != 'Standardize':
                if cls == 'SIMPLS':
                    o.num_components = 2
                else:
                    o.polynomial_order = 3
            else:
                o.reset()
        res, _ = call(bytes_of, o)
        d = tempfile.mkdtemp(dir='.')
        saved, _ = call(o.save_state, os.path.join(d, 's.bin'))
        shutil.rmtree(d)
        log.ev(op='nothing', cls=cls, res=res, saved=saved)
    else:
        o = M(mk('int', 2, 3))
        res, _ = call(o.get_serialised_state)
        log.ev(op='probe-get', res=res, stream=list(bytes_of(o)))
