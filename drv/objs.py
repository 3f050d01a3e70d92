"""Subjects for C03/C04: every trainable or configurable class with its training calls and its queries, by name.
A query is a function of the subject and fresh copies of its argument matrices."""
import io, re
from .algs import *
from . import c06

install_faults()
TRANSF = ['Center', 'Standardize', 'RowNorm', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log', 'SavitzkyGolay', 'SavitzkyGolay2',
          'FFT', 'PassThrough', 'MultiplicativeScatterCorrection']
FILTERS = ['Downsample', 'Equidistance', 'MultiFilter', 'SGFilter']
KERNELS = ['LinearKernel', 'RBFKernel', 'PolyKernel']


class Subject:
    """A live object, the last matrices handed to and received from it."""

    def __init__(self, cls, p):
        self.cls, self.p, self.d = cls, p, 1
        self.trained_with, self.asked_with, self.got = [], [], []
        if cls in TRANSF:
            self.o = c06.fresh(cls, 0 if p == 3 else p)
        elif cls in KERNELS:
            import wai.ma.transformation.kernel as K
            self.o = getattr(K, cls)()
            if p == 3:
                pass
            elif cls == 'PolyKernel':
                self.o.degree = [3, 2, 1][p]
                self.o.coef_0 = [0.0, 1.0, 0.5][p]
            elif cls == 'RBFKernel' and p:
                from wai.ma.core import NAN
                self.o.gamma = [1.0, 0.3, NAN][p]
        elif cls in FILTERS:
            from wai.ma.filter import Downsample, Equidistance
            from wai.ma.core import MultiFilter

            def down():
                f = Downsample()
                f.step, f.start_index = [2, 3, 1, 2][p], [0, 1, 0, 0][p]
                return f
            self.o = {'Downsample': down, 'Equidistance': lambda: Equidistance([4, 11, 9, 4][p]),
                      'SGFilter': lambda: __import__('wai.ma.algorithm.glsw._YGradientGLSW', fromlist=['x']).SavitzkyGolayFilter(),
                      'MultiFilter': lambda: MultiFilter([tcls('Center')(), down(), Equidistance(5), tcls('Standardize')()])}[cls]()
        else:
            self.o = new(cls) if p == 3 else fresh(cls, p)

    # ---- data
    def sets(self):
        """(training arrays, new data array)"""
        if self.cls in TRANSF + FILTERS + KERNELS:
            c = self.cls if self.cls in TRANSF else 'Center'
            return [c06.dataset(c, self.d)], c06.dataset(c, {1: 2, 2: 1, 4: 2, 3: 3, 5: 2, 6: 2}[self.d])[:, :] if c != 'MultiplicativeScatterCorrection' \
                else c06.dataset(c, 3 - self.d if self.d < 3 else 1)[:, :2]
        X, Y, N = data(self.cls, self.d)
        return [X] if Y is None else [X, Y], N

    def invoke(self, fn, args, ask=True):
        ms = [M(x) for x in args]
        before = [x.data.copy() for x in ms]
        r, v = call(fn, *ms)
        if ask:
            self.asked_with = ms
        else:
            self.trained_with = ms
        self.got = [v] if is_matrix(v) else []
        return r, before, [x.data for x in ms]

    def train(self, d, how):
        """how: 0 good, 1 good by the implicit way (transformations: transform), 2 refused, 3 with a fault"""
        self.d = d
        c, o = self.cls, self.o
        if c in TRANSF:
            if how in (0, 3):
                o.reset()
            fn = o.configure if how in (0, 3) else (lambda m: (o.reset(), o.transform(m))[1])
            if how == 3:
                return with_fault(2, lambda: self.invoke(fn, self.sets()[0], False))[0]
            return self.invoke(fn, self.sets()[0], False)
        if c == 'SGFilter':
            return self.invoke(o.configure, self.sets()[0], False)
        if c == 'MultiFilter':
            return self.invoke(o.transform, self.sets()[0], False)
        if c in FILTERS + KERNELS:
            return {'ok': True, 'err': '', 'v': {'t': 'none'}}, [], []
        f, args = train_args(c, d)
        args = [a.data for a in args]
        if how == 2 and c in UNSUP:
            args = [np.full((1, 1), np.nan)]
        if how == 2 and len(args) > 1:
            args[-1] = args[-1][:-1]
        fn = getattr(o, f)
        if how == 3:
            n = train_ops(c, self.p if self.p < 3 else 0, d)
            return with_fault(n // 2, lambda: self.invoke(fn, args, False))[0]
        return self.invoke(fn, args, False)

    # ---- queries
    def ask(self, q):
        c, o = self.cls, self.o
        tr, N = self.sets()
        X = tr[0]
        bad = np.hstack([N, N[:, :1]])
        if q == 'str':
            return self.invoke(lambda: re.sub(r' at 0x[0-9a-f]+', '', str(o)) if c in PLS + GLS + UNSUP + ['CCAFilter'] else str(type(o)), [])
        if q == 'status':
            return self.invoke(lambda: o.is_initialised() if hasattr(o, 'is_initialised') else getattr(o, 'configured', None), [])
        if q == 'mats':
            return self.invoke(lambda: np.concatenate([np.asarray([[float(len(n))]]) if x['v']['t'] != 'mat' else _dec(x['v']).reshape(1, -1) for n, x in mats(o, c)], axis=1), [])
        if q == 'serialise':
            def ser():
                b = io.BytesIO()
                o.serialise_state(b)
                return b.getvalue()
            return self.invoke(ser, [])
        if q == 'coeff':
            return self.invoke(lambda: np.asarray(o.get_coefficients()), [])
        if q == 'extract':
            return self.invoke(o.extract_loadings, [])
        if q == 'reconstruct':
            return self.invoke(o.reconstruct, [])
        if q == 'response':
            return self.invoke(o.transform_response, [tr[1]])
        if q == 'responseBad':
            return self.invoke(o.transform_response, [np.hstack([tr[1], tr[1]])])
        if q == 'respond':
            return self.invoke(o.do_transform_response, [tr[1][:3]])
        if q == 'matrix':
            return self.invoke(o.apply_matrix, [X])
        if q == 'matrix2':
            return self.invoke(o.apply_matrix, [X, X[1:3] * 2])
        if q == 'matrixBad':
            return self.invoke(o.apply_matrix, [X, X[:, :-1]])
        if q == 'vector':
            return self.invoke(o.apply_vector, [X[:1], X[1:2]])
        if q == 'transformWindow':            # exactly one window of points
            w = 2 * o.num_points + 1 if hasattr(o, 'num_points') else o.num_points_left + o.num_points_right + 1
            return self.invoke(o.transform, [X[:, :w]])
        if q == 'vectorShort':
            return self.invoke(o.apply_vector, [X[:1, :2], X[1:2, :2]])
        base = {'predict': 'predict', 'transform': 'transform', 'inverse': 'inverse_transform'}
        for b, f in base.items():
            if q.startswith(b):
                s = q[len(b):]
                fn = getattr(o, f)
                if s.startswith('Fault'):
                    return with_fault(int(s[5:]), lambda: self.invoke(fn, [N]))[0]
                return self.invoke(fn, [{'': N, 'Train': X, 'Row': N[:1], 'Bad': bad, 'Zero': np.zeros_like(N)}[s]])
        raise ValueError(q)

    def tinker(self):
        """Changes the objects this one is made of."""
        c, o = self.cls, self.o
        if c == 'OPLS':
            o.base_PLS.num_components = 1
        elif c == 'KernelPLS':
            for n, v in (('gamma', 7.5), ('degree', 1), ('coef_0', 9.0)):
                if hasattr(o.kernel, n):
                    setattr(o.kernel, n, v)
        elif c == 'FastICA':
            if hasattr(o.fun, 'alpha'):
                o.fun.alpha = 1.9
            o.center.configure(M(np.full((3, 5), 55.0)))
        elif c == 'MultiplicativeScatterCorrection':
            o.correction.ranges.append((1.0, 5.0))
        elif c == 'MultiFilter':
            list(vars(o).values())
        elif c in KERNELS:
            for n, v in (('gamma', 7.5), ('degree', 1), ('coef_0', 9.0)):
                if hasattr(o, n):
                    setattr(o, n, v)

    def mutate(self, what, k):
        """Overwrites matrices handed over in training (T), in the last query (Q) or received (R)."""
        ms = {'T': self.trained_with, 'Q': self.asked_with, 'R': self.got}[what]
        for m in ms:
            if not is_matrix(m):
                continue
            if k == 0:
                m.data[...] = -7.25e3
            elif k == 1:
                m.data *= 3.0
                m.data += 1.0
            else:
                call(m.set, 0, 0, 4242.0)
                call(m.set, m.num_rows() - 1, m.num_columns() - 1, -17.0)


def _dec(v):
    a = np.asarray(v['d'], dtype=np.int64)
    b = (a[..., 0] << 32) | (a[..., 1] & 0xffffffff)
    return b.view(np.float64)
