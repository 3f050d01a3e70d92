"""Shared by the drivers: encoding of values, data materialisation, guarded calls."""
import io, json, os, signal, struct, sys, zlib
import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1'))
_timeouts = 0
CALL_TIMEOUT = int(os.environ.get('VERIF_CALL_TIMEOUT', '60'))


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def quiet():
    """The code under test prints to stdout/stderr; the trace goes to a file."""
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')


def real_stderr():
    return sys.__stderr__


# ---- encoding ---------------------------------------------------------------------------
def f64(x):
    b, = struct.unpack('<q', struct.pack('<d', float(x)))
    lo = b & 0xffffffff
    return [b >> 32, lo - (1 << 32) if lo >= (1 << 31) else lo]


def fvec(xs):
    return [f64(x) for x in xs]


def _real(a):
    a = np.asarray(a)
    if np.iscomplexobj(a):
        s = 1 + (np.abs(a.real[np.isfinite(a.real)]).max() if a.size and np.isfinite(a.real).any() else 0)
        if a.size and not (np.abs(a.imag) <= 1e-9 * s).all():
            return None
        a = a.real
    return a.astype(np.float64)


def fmat(a):
    """ndarray (2-D) -> rows of [hi, lo]; None if it has a real imaginary part."""
    a = _real(a)
    if a is None:
        return None
    bits = np.ascontiguousarray(a).view(np.int64)
    hi = (bits >> 32).astype(np.int64)
    lo = (bits & 0xffffffff).astype(np.uint32).astype(np.int32).astype(np.int64)
    return np.stack([hi, lo], axis=-1).tolist()


def is_matrix(x):
    return hasattr(x, 'num_rows') and hasattr(x, 'data') and isinstance(getattr(x, 'data', None), np.ndarray)


def menc(m):
    """Matrix -> {"r","c","d"}; complex results with a non-zero imaginary part are marked."""
    a = m.data if is_matrix(m) else np.asarray(m)
    if a.ndim != 2:
        return {'t': 'baddim', 'r': 0, 'c': 0, 'd': []}
    d = fmat(a)
    if d is None:
        return {'t': 'complex', 'r': int(a.shape[0]), 'c': int(a.shape[1]), 'd': []}
    return {'t': 'mat', 'r': int(a.shape[0]), 'c': int(a.shape[1]), 'd': d}


def venc(x):
    """Any observed value, tagged."""
    if x is None:
        return {'t': 'none'}
    if is_matrix(x):
        return menc(x)
    if isinstance(x, (bool, np.bool_)):
        return {'t': 'bool', 'b': bool(x)}
    if isinstance(x, (float, np.floating)):
        return {'t': 'num', 'f': f64(x)}
    if isinstance(x, (int, np.integer)):
        return {'t': 'int', 'i': int(x)} if abs(int(x)) < 2 ** 31 else {'t': 'num', 'f': f64(x)}
    if isinstance(x, (complex, np.complexfloating)):
        return {'t': 'num', 'f': f64(x.real)} if abs(x.imag) <= 1e-9 * (1 + abs(x.real)) else {'t': 'complexnum'}
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return venc(x.item())
        return menc(x if x.ndim == 2 else x.reshape(1, -1))
    if isinstance(x, str):
        return {'t': 'str', 's': x}
    if isinstance(x, bytes):
        return {'t': 'bytes', 'y': list(x)}
    if isinstance(x, (list, tuple)):
        return {'t': 'list', 'l': [venc(y) for y in x]}
    return {'t': 'other', 's': type(x).__name__}


# ---- calls ------------------------------------------------------------------------------
def call(fn, *a, **k):
    """Runs a call of the code under test and returns its outcome as a dictionary."""
    global _timeouts
    old = signal.signal(signal.SIGALRM, _alarm)
    # a call that never returns is a violation; once that has been seen, wait less for the others
    signal.setitimer(signal.ITIMER_REAL, CALL_TIMEOUT if _timeouts < 2 else 10 if _timeouts < 8 else 1 if _timeouts < 40 else 0.3)
    try:
        v = fn(*a, **k)
        signal.alarm(0)
        return {'ok': True, 'err': '', 'v': venc(v)}, v
    except Timeout:
        _timeouts += 1
        return {'ok': False, 'err': 'TIMEOUT', 'v': {'t': 'none'}}, None
    except RecursionError:
        signal.alarm(0)
        return {'ok': False, 'err': 'RecursionError', 'v': {'t': 'none'}}, None
    except Exception as e:
        signal.alarm(0)
        return {'ok': False, 'err': type(e).__name__, 'v': {'t': 'none'}}, None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Log:
    def __init__(self, case, out):
        self.case, self.out, self.n = case, out, 0

    def ev(self, **k):
        self.n += 1
        k['case'] = self.case['id']
        k['seq'] = self.n
        self.out.write(json.dumps(k) + '\n')


def guarded(fn, log):
    """A driver that trips over unexpected behaviour records that instead of dying."""
    old = signal.signal(signal.SIGALRM, _alarm)
    try:
        fn()
        if log.n == 0:
            log.ev(op='empty')
    except Timeout:
        log.ev(op='DRIVER', err='TIMEOUT')
    except Exception as e:
        import traceback
        log.ev(op='DRIVER', err=type(e).__name__ + ': ' + str(e)[:200] + ' @ ' + traceback.format_exc()[-300:])
    finally:
        signal.signal(signal.SIGALRM, old)


# ---- data -------------------------------------------------------------------------------
def rng_for(*keys):
    return np.random.default_rng([SEED, zlib.crc32(repr(keys).encode())])


def mk(kind, r, c, *keys):
    """Materialises an abstract data kind as an r x c array (deterministic in kind, shape, keys and VERIF_SEED)."""
    g = rng_for(kind, r, c, *keys)
    if kind == 'generic':
        return g.normal(size=(r, c)) * 2 + 0.5
    if kind == 'offset':                      # large column offsets and different scales
        return g.normal(size=(r, c)) * (10.0 ** g.integers(-1, 3, size=c)) + g.normal(size=c) * 50
    if kind == 'int':
        return g.integers(-4, 5, size=(r, c)).astype(float)
    if kind == 'ties':
        return g.integers(0, 2, size=(r, c)).astype(float)
    if kind == 'const':                       # one constant column (the last one; the only one for c = 1)
        a = g.normal(size=(r, c))
        a[:, -1] = 3.25
        return a
    if kind == 'const0':                      # first column constant
        a = g.normal(size=(r, c))
        a[:, 0] = -1.5
        return a
    if kind == 'constmid':
        a = g.normal(size=(r, c))
        a[:, c // 2] = 7.0
        return a
    if kind == 'allconst':
        return np.full((r, c), 2.5)
    if kind == 'zero':
        return np.zeros((r, c))
    if kind == 'pos':
        return np.abs(g.normal(size=(r, c))) * 3 + 0.1
    if kind == 'neg':
        return -np.abs(g.normal(size=(r, c))) - 0.1
    if kind == 'huge':
        return g.normal(size=(r, c)) * 1e8
    if kind == 'tiny':
        return g.normal(size=(r, c)) * 1e-8
    if kind == 'micro':
        return g.normal(size=(r, c)) * 2e-4 + 1e-4
    if kind == 'macro':
        return g.normal(size=(r, c)) * 2e4 + 1e4
    if kind == 'micro12':
        return g.normal(size=(r, c)) * 1e-12
    if kind == 'macro12':
        return g.normal(size=(r, c)) * 1e12
    if kind == 'ramp':
        return np.arange(r * c, dtype=float).reshape(r, c)
    if kind == 'sparse':
        a = g.normal(size=(r, c))
        a[g.random(size=(r, c)) < 0.6] = 0.0
        return a
    if kind == 'grades':                      # every column in its own unit
        return (g.normal(size=(r, c)) + g.normal(size=c)) * 10.0 ** g.integers(-12, 13, size=c)
    if kind == 'specks':                      # zeros and numbers far below any threshold
        a = g.normal(size=(r, c)) * 10.0 ** g.integers(-150, -8, size=(r, c))
        a[g.random(size=(r, c)) < 0.3] = 0.0
        return a
    if kind == 'dup':                         # duplicate rows and columns
        a = g.normal(size=(r, c))
        if r > 1: a[-1] = a[0]
        if c > 1: a[:, -1] = a[:, 0]
        return a
    if kind == 'spectra':                     # smooth positive curves
        x = np.linspace(0, 3, c)
        return np.array([1.5 + np.sin(x * g.uniform(0.5, 2) + g.uniform(0, 3)) * g.uniform(0.2, 1) + 0.05 * g.normal(size=c) for _ in range(r)])
    raise ValueError('unknown data kind ' + kind)


def M(a):
    from wai.ma.core.matrix import factory
    return factory.create(np.asarray(a, dtype=float))


def laid(a, how):
    """The same contents in another memory layout: C row by row, F column by column, T the transpose of a matrix, S a part of a larger one."""
    from wai.ma.core.matrix import Matrix
    a = np.asarray(a, dtype=float)
    if how == 'F':
        return Matrix(a.copy(order='F'))
    if how == 'T':
        return M(a.T).transpose()
    if how == 'S':
        big = np.full((a.shape[0] + 3, 2 * a.shape[1] + 1), 9.5)
        v = big[1:1 + a.shape[0], 1::2]
        v[...] = a
        return Matrix(v)
    return M(a)


def tcls(name):
    """A transformation class by name."""
    import wai.ma.transformation as T
    if hasattr(T, name):
        return getattr(T, name)
    import importlib
    return getattr(importlib.import_module('wai.ma.transformation._' + ('MultiplicativeScatterCorrection' if name == 'RangeBased' else name)), name)
