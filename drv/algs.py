"""The algorithms behind one interface: construct, set a parameter variant, train on an abstract data set, answer queries.
Also fault injection: a training or query can be made to fail at its k-th matrix operation."""
from .common import *
from .pls import prep

PLS = ['SIMPLS', 'PLS1', 'NIPALS', 'OPLS', 'KernelPLS', 'DIPLS', 'SparsePLS', 'PRM', 'VCPLS', 'CCARegression']
MULTI = ['NIPALS', 'KernelPLS', 'CCARegression']
GLS = ['GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO']
UNSUP = ['PCA', 'FastICA']


def new(cls):
    if cls in PLS:
        import wai.ma.algorithm.pls as P
        return getattr(P, cls)()
    if cls in GLS:
        import wai.ma.algorithm.glsw as G
        return getattr(G, cls)()
    if cls == 'FastICA':
        from wai.ma.algorithm.ica import FastICA
        return FastICA()
    import wai.ma.algorithm as A
    return getattr(A, cls)()


def variant(cls, p):
    """Parameter values of variant p (0, 1, 2), as (attribute, value) pairs; every variant assigns the same attributes."""
    v = []
    if cls in PLS:
        v += [('num_components', [2, 3, 1][p]), ('preprocessing_type', prep(['none', 'center', 'standardize'][p]))]
    if cls == 'SIMPLS':
        v += [('num_coefficients', [0, 2, 0][p])]
    elif cls in ('NIPALS', 'CCARegression'):
        v += [('tol', [1e-6, 1e-9, 1e-6][p]), ('max_iter', [500, 500, 1][p]), ('norm_Y_weights', [False, True, False][p])]
        if cls == 'NIPALS':
            from wai.ma.algorithm.pls._NIPALS import DeflationMode as D
            v += [('deflation_mode', [D.REGRESSION, D.CANONICAL, D.REGRESSION][p])]
    elif cls == 'OPLS':
        import wai.ma.algorithm.pls as P
        b = [P.PLS1, P.SIMPLS, P.PLS1][p]()
        b.num_components = [2, 2, 1][p]
        v += [('base_PLS', b)]
    elif cls == 'KernelPLS':
        import wai.ma.transformation.kernel as K
        v += [('kernel', [K.RBFKernel, K.LinearKernel, K.PolyKernel][p]()), ('tol', [1e-6, 1e-4, 1e-6][p]), ('max_iter', [500, 50, 500][p])]
    elif cls == 'DIPLS':
        v += [('lambda_', [1.0, 0.1, 5.0][p])]
    elif cls == 'SparsePLS':
        v += [('lambda_', [0.5, 0.1, 0.8][p]), ('tol', [1e-7, 1e-5, 1e-7][p]), ('max_iter', [500, 50, 500][p])]
    elif cls == 'PRM':
        v += [('C', [4.0, 1.0, 8.0][p]), ('num_SIMPLS_coefficients', [-1, 2, -1][p]), ('tol', [1e-6, 1e-4, 1e-6][p]), ('max_iter', [500, 50, 500][p])]
    elif cls == 'VCPLS':
        v += [('lambda_', [1.0, 0.2, 3.0][p])]
    elif cls == 'CCAFilter':
        v += [('kcca', 2), ('lambda_X', [1e-2, 1.0, 1e-2][p]), ('lambda_Y', [1e-2, 1e-2, 2.0][p])]
    elif cls in GLS:
        v += [('alpha', [1e-3, 1.0, 50.0][p])]
        if cls.endswith('EPO'):
            v += [('N', [5, 2, 1][p])]
    elif cls == 'PCA':
        v += [('variance', [0.95, 0.6, 0.99][p]), ('max_columns', [-1, 2, -1][p]), ('center', [False, False, True][p])]
    elif cls == 'FastICA':
        from wai.ma.algorithm.ica import Algorithm
        from wai.ma.algorithm.ica.approxfun import LogCosH, Cube
        v += [('num_components', [5, 2, 3][p]), ('fun', [LogCosH, LogCosH, Cube][p]()), ('max_iter', [12, 8, 12][p]), ('tol', [1e-4, 1e-2, 1e-4][p]),
              ('algorithm', [Algorithm.DEFLATION, Algorithm.PARALLEL, Algorithm.DEFLATION][p]), ('whiten', True)]
    return v


def assign(a, cls, p):
    for n, x in variant(cls, p):
        setattr(a, n, x)


INVALID = {'NIPALS': [('max_iter', -1), ('tol', -1e-9)], 'CCARegression': [('max_iter', -1)], 'KernelPLS': [('tol', -1.0), ('max_iter', -3)],
           'DIPLS': [('lambda_', 0.0)], 'SparsePLS': [('lambda_', -0.1), ('max_iter', -1)], 'PRM': [('C', 0.0), ('tol', -1.0)],
           'CCAFilter': [('kcca', 0)], 'GLSW': [('alpha', 0.0)], 'EPO': [('N', 0), ('alpha', -1.0)], 'YGradientGLSW': [('alpha', 0.0)],
           'YGradientEPO': [('N', -1)], 'PCA': [('variance', 1.0), ('max_columns', 0)], 'FastICA': [('num_components', 0), ('tol', -0.1)]}


def fresh(cls, p):
    a = new(cls)
    assign(a, cls, p)
    return a


# data sets: 1 and 2 differ in values and rows, 3 has another width (not for DIPLS), 4 has a constant column and offsets,
# 5 has many rows, 6 is in other units
ROWS = {1: 12, 2: 9, 3: 11, 4: 12, 5: 150, 6: 10}


def width(cls, d):
    return 7 if d == 3 and cls != 'DIPLS' else 5


_data = {}


def data(cls, d):
    """(X, Y, N): training matrices and new data as arrays (Y is None for unsupervised algorithms)."""
    k = (cls, d)
    if k in _data:
        return tuple(None if a is None else a.copy() for a in _data[k])
    g = rng_for('algs', cls, d)
    n, w = ROWS[d], width(cls, d)
    if d == 5 and cls == 'KernelPLS':
        n = 40
    X = g.normal(size=(n, w)) * (1 + 0.5 * d) + d * 0.7
    if d == 4:
        X = X + np.arange(w) * 20
        X[:, 1] = 0.1
    if d == 6:
        X = X * 1e-7
    N = g.normal(size=(4, w)) * (2e-7 if d == 6 else 2) + X.mean(axis=0)
    s = X.std(axis=0) + (1e-10 if d == 6 else 1e-3)
    if cls in UNSUP:
        Y = None
    elif cls in ('GLSW', 'EPO'):
        Y = X + (3e-8 if d == 6 else 0.3) * g.normal(size=X.shape)
    else:
        q = {1: 2, 2: 1, 3: 3, 4: 2, 5: 2, 6: 1}[d] if cls in MULTI else {1: 2, 2: 3, 3: 2, 4: 2, 5: 3, 6: 2}[d] if cls == 'CCAFilter' else 1
        Y = (X - X.mean(axis=0)) / s @ g.normal(size=(w, q)) + 0.3 * g.normal(size=(n, q)) + g.normal(size=q) * 3
    _data[k] = (X, Y, N)
    return data(cls, d)


def split(cls, d):
    """DIPLS: mode and the parts of the data set."""
    X, Y, N = data(cls, d)
    h = X.shape[0] // 2
    if d in (1, 4):
        return 'unsupervised', [X[:h], X[h:], Y[:h]]
    if d == 2:
        return 'supervised', [X[:h], X[h:], Y[:h], Y[h:]]
    return 'semisupervised', [X[:h], X[h:-2], X[-2:], Y[:h], Y[h:-2]]


def train_args(cls, d):
    """Function name and matrices of a training call."""
    if cls == 'DIPLS':
        m, parts = split(cls, d)
        return 'initialize_' + m, [M(x) for x in parts]
    X, Y, _ = data(cls, d)
    if cls in UNSUP:
        return 'transform', [M(X)]
    return 'initialize', [M(X), M(Y)]


def train(a, cls, d):
    f, args = train_args(cls, d)
    return call(getattr(a, f), *args)[0]


def bad_train(a, cls, kind, d):
    """A training call that has to be refused: x / y missing, wrong number of response columns (c), row numbers that differ (m)."""
    if cls in UNSUP:
        if kind == 'x':
            return call(a.transform, None)[0]
        return None
    f, args = train_args(cls, d)
    if kind == 'x':
        args[0] = None
    elif kind == 'y':
        args[-1] = None
    elif kind == 'c':
        y = args[-1].data
        if cls == 'DIPLS':
            k = 2 if 'unsup' in f else -2
            args[k] = M(np.hstack([args[k].data] * 2))
            args[-1] = M(np.hstack([y, y])) if k != -1 else args[-1]
            if 'unsup' in f:
                args[2] = M(np.hstack([y, y]))
        elif cls == 'CCAFilter':
            args[-1] = M(y[:, :1])
        elif cls in ('GLSW', 'EPO'):
            args[-1] = M(y[:, :-1])
        elif cls in MULTI or cls in GLS:
            return None
        else:
            args[-1] = M(np.hstack([y, y]))
    elif kind == 'm':
        if cls == 'DIPLS':
            args[-1] = M(args[-1].data[:-1])
        else:
            args[-1] = M(args[-1].data[:-1])
    elif kind == 'l':
        y = args[-1].data
        args[-1] = M(np.vstack([y, y[:2]]))
    elif kind == 'o':                         # a base algorithm that refuses the data
        if cls != 'OPLS':
            return None
        old = a.base_PLS
        a.base_PLS = new('DIPLS')
        r = call(getattr(a, f), *args)[0]
        a.__dict__['base_PLS'] = old
        return r
    elif kind in 'niv':                       # a value that is not a number, infinite, or a response that is not
        k = -1 if kind == 'v' else 0
        x = np.array(args[k].data, dtype=float)
        x[d % len(x), 0] = np.inf if kind == 'i' else np.nan
        args[k] = M(x)
    elif kind == 'w':                         # domains of different width
        if cls != 'DIPLS':
            return None
        args[1] = M(args[1].data[:, :-1])
    elif kind in 'ud':
        if cls != 'DIPLS':
            return None
        y = args[2].data
        if kind == 'd':                       # no domains at all
            a.reset()
            f, args = 'initialize', [args[0], M(y)]
        elif 'unsup' in f:                    # a domain of one sample
            args = [args[0], M(args[1].data[:1]), M(y)] if d % 2 else [M(args[0].data[:1]), args[1], M(y[:1])]
        elif 'semi' in f:
            args = [args[0], M(args[1].data[:1]), args[2], M(args[3].data), M(args[4].data[:1])]
        else:
            args = [args[0], M(args[1].data[:1]), M(y), M(args[3].data[:1])]
    return call(getattr(a, f), *args)[0]


def requests(a, cls, N):
    """The gated requests as (name, function, argument arrays)."""
    if cls in PLS:
        return [('predict', a.predict, N), ('transform', a.transform, N)]
    if cls == 'FastICA':
        return [('reconstruct', a.reconstruct, None)]
    if cls == 'PCA':
        return []
    return [('transform', a.transform, N)]


def ask(a, cls, d):
    _, Y, N = data(cls, d)
    out = [[n, call(f, *([] if x is None else [M(x)]))[0]] for n, f, x in requests(a, cls, N)]
    if cls == 'CCAFilter':
        out.append(['transform_response', call(a.transform_response, M(Y))[0]])
    return out


def mats(a, cls):
    """Model matrices by name."""
    if cls in PLS:
        ns = a.get_matrix_names()
        out = [[n, call(a.get_matrix, n)[0]] for n in ns]
        if a.has_loadings():
            out.append(['loadings', call(a.get_loadings)[0]])
        return out
    if cls == 'CCAFilter':
        return [['proj_X', call(lambda: a.proj_X)[0]], ['proj_Y', call(lambda: a.proj_Y)[0]]]
    if cls in GLS:
        return [['G', call(lambda: a.G)[0]]]
    if cls == 'PCA':
        return [['loadings', call(lambda: a.loadings)[0]], ['scores', call(lambda: a.scores)[0]]]
    return [[n, call(lambda n=n: getattr(a, n))[0]] for n in ('components', 'sources', 'mixing', 'whitening')]


_ref = {}


def ref(cls, p, d, via=0):
    """(outcome of training, answers, matrices) of a new object; DIPLS keeps the centres of the first data set it ever saw (known finding):
    via names that data set and the variant it was trained with (d + 10 p; 0: none)."""
    k = (cls, p, d, via)
    if k not in _ref:
        a = fresh(cls, via // 10 if via else p)
        if via:
            train(a, cls, via % 10)
            assign(a, cls, p)
        r = train(a, cls, d)
        _ref[k] = (r, ask(a, cls, d), mats(a, cls))
    return _ref[k]


# ---- fault injection ----------------------------------------------------------------------
class Injected(RuntimeError):
    pass


class Fault:
    left = -1          # operations until the fault; -1: off
    count = 0
    fired = False
    on = False


def install_faults():
    """Wraps the public matrix operations so that the k-th of them can be made to raise."""
    from wai.ma.core.matrix import Matrix
    import types, functools
    if getattr(Matrix, '_verif_wrapped', False):
        return
    for n, f in list(vars(Matrix).items()):
        if n.startswith('_') or not isinstance(f, types.FunctionType):
            continue

        def wrap(f):
            @functools.wraps(f)
            def g(*a, **k):
                if Fault.on:
                    Fault.count += 1
                    if Fault.left >= 0:
                        if Fault.left == 0:
                            Fault.left = -1
                            Fault.fired = True
                            raise Injected('injected')
                        Fault.left -= 1
                return f(*a, **k)
            return g
        setattr(Matrix, n, wrap(f))
    Matrix._verif_wrapped = True


def count_ops(fn):
    Fault.on, Fault.left, Fault.count, Fault.fired = True, -1, 0, False
    try:
        fn()
    finally:
        Fault.on = False
    return Fault.count


def with_fault(k, fn):
    """Runs fn with the k-th matrix operation failing; returns its result and whether the fault was reached."""
    Fault.on, Fault.left, Fault.count, Fault.fired = True, k, 0, False
    try:
        r = fn()
    finally:
        Fault.on = False
        Fault.left = -1
    return r, Fault.fired


_ops = {}


def train_ops(cls, p, d):
    k = (cls, p, d)
    if k not in _ops:
        a = fresh(cls, p)
        _ops[k] = count_ops(lambda: train(a, cls, d))
    return _ops[k]
