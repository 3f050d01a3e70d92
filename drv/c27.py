from .common import *


def run(case, log):
    from wai.ma.core.matrix import factory as F, Matrix
    op = case['op']
    if op == 'build':
        m, r, c, x = case['m'], case['r'], case['c'], case['x'] / 4
        like = M(np.zeros((r, c)))
        src = mk('int' if m == 'create_ints' else case['kind'], r if m != 'spectrum' else 2, c)
        if m == 'diag':
            src = src[:, :1]
        use = src.copy()
        lst = [[int(v) for v in row] for row in use] if m == 'create_ints' else use.tolist()
        vec = M(use[:, :1])
        row = use[0].tolist()
        a, b = (use[0].tolist(), use[1].tolist()) if use.shape[0] > 1 else (row, row)
        fn = {'zeros': lambda: F.zeros(r, c), 'zeros_sq': lambda: F.zeros(r), 'zeros_like': lambda: F.zeros_like(like),
              'eye': lambda: F.eye(r, c), 'eye_sq': lambda: F.eye(r), 'eye_like': lambda: F.eye_like(like),
              'filled': lambda: F.filled(r, c, x), 'filled_like': lambda: F.filled_like(like, x),
              'range': lambda: F.range(r, c, case['start']), 'create_list': lambda: F.create(lst), 'create_ints': lambda: F.create(lst),
              'create_array': lambda: F.create(use), 'from_raw': lambda: F.from_raw(use), 'from_row': lambda: F.from_row(row),
              'from_column': lambda: F.from_column(row), 'diag': lambda: F.diag(vec),
              'matrix_2d': lambda: Matrix(use), 'matrix_1d': lambda: Matrix(use[0]), 'matrix_0d': lambda: Matrix(np.array(use[0, 0])), 'spectrum': lambda: F.create_spectrum(a, b)}[m]
        res, v = call(fn)
        srcok = bool((use == src).all() and np.allclose(np.array(lst, dtype=float), src) and (vec.data == src[:, :1]).all() and (like.data == 0).all())
        # neither source nor like-matrix is shared with the new matrix
        use[...] = 1e6
        like.data[...] = 1e6
        vec.data[...] = 1e6
        for l in lst + [row, a, b]:
            for k in range(len(l)):
                l[k] = 10 ** 6
        log.ev(op='build', m=m, r=r, c=c, x=f64(x), start=case['start'], src=fmat(src), res=res, srcok=srcok,
               after=fmat(v.data) if is_matrix(v) else [])
    elif op == 'refused':
        if case['m'] == 'spectrum_uneven':
            res, _ = call(F.create_spectrum, [1.0] * case['n'], [1.0] * case['k'])
        else:
            res, _ = call(Matrix, np.ones((case['k'],) * case['n']))
        log.ev(op='refused', m=case['m'], res=res)
    elif op == 'probe':
        res, _ = call(F.randn, 60, 10, 3, np.float64(case['mean']), np.float64(case['std']))
        log.ev(op='probe-normal', res=res, mean=f64(case['mean']), std=f64(case['std']))
    else:
        for k, s in enumerate(case['steps']):
            m, (r, c), sd = s['m'], s['sh'], s['seed']
            if m == 'noise':
                np.random.rand(3 + k % 4)
                if k % 2:
                    np.random.seed(k)
                    F.rand(2, 2, k)
                log.ev(op='noise')
                continue
            like = M(np.full((r, c), float(k)))
            mean, std = np.float64(s['mean']), np.float64(s['std'])
            fn = {'rand': lambda: F.rand(r, c, sd), 'rand_like': lambda: F.rand_like(like, sd), 'randn': lambda: F.randn(r, c, sd, mean, std),
                  'randn_like': lambda: F.randn_like(like, sd, mean, std), 'rand_default': lambda: F.rand(r, c), 'randn_default': lambda: F.randn(r, c)}[m]
            res, v = call(fn)
            # default requests use seed 1; like-shaped requests depend on the shape only
            base = m.split('_')[0]
            log.ev(op='random', m=base, kind=base, r=r, c=c, seed=1 if m.endswith('default') else sd, mean=f64(mean), std=f64(std), res=res)
            if is_matrix(v):
                v.data[...] = 0.0
