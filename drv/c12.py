from .common import *

Q = {'evals': lambda m: m.get_eigenvalues(), 'evals_desc': lambda m: m.get_eigenvalues_sorted_descending(),
     'evals_asc': lambda m: m.get_eigenvalues_sorted_ascending(), 'evecs': lambda m: m.get_eigenvectors(),
     'evecs_desc': lambda m: m.get_eigenvectors_sorted_descending(), 'evecs_asc': lambda m: m.get_eigenvectors_sorted_ascending(),
     'evecs_dom': lambda m: m.get_eigenvectors(True), 'V': lambda m: m.get_eigenvalue_decomposition_V(),
     'D': lambda m: m.get_eigenvalue_decomposition_D(), 'dominant': lambda m: m.get_dominant_eigenvector(),
     'svals': lambda m: m.get_singular_values(), 'S': lambda m: m.svd_S(), 'U': lambda m: m.svd_U(), 'W': lambda m: m.svd_V()}


def cres(res, v):
    """Outcome of a query whose matrix may be complex: real and imaginary parts."""
    if not res['ok'] or not is_matrix(v):
        return {'ok': False, 're': [], 'im': []}
    return {'ok': True, 're': fmat(v.data.real), 'im': fmat(np.asarray(v.data.imag, dtype=float))}


def start(case):
    r, c = case['sh']
    kd = case['kind']
    a = mk({'sym': 'generic', 'tinysym': 'tiny', 'hugesym': 'huge'}.get(kd, kd), r, c)
    return (a + a.T) / 2 if kd.endswith('sym') else a


def run(case, log):
    from wai.ma.core.matrix import helper
    a = start(case)
    A = laid(a, 'CCFTS'[zlib.crc32(repr(case).encode()) % 5])
    r, c = a.shape
    log.ev(op='new', a=fmat(a))
    sc = 1e-8 if case['kind'].startswith('tiny') else 1e8 if case['kind'].startswith('huge') else 1.0   # size of the values written
    last = None
    for n, s in enumerate(case['steps']):
        g = rng_for('c12', n, r, c)
        if s in Q:
            res, v = call(Q[s], A)
            last = v if res['ok'] else last
            log.ev(op='query', m=s, res=cres(res, v), a2=fmat(A.data))
        elif s == 'scribble':
            if is_matrix(last):
                last.data[...] = last.data * 3 + 7
                last.set(0, 0, 99.0)
            log.ev(op='scribble', a2=fmat(A.data))
        else:
            m, i, j, x, b = s, 0, 0, 0.0, None
            rowish = n % 2 == 0
            vec = M(np.abs(g.normal(size=(1, c) if rowish else (r, 1))) + 0.5)
            if s in ('add_by_vector_modify', 'sub_by_vector_modify'):
                vec = M(vec.data * sc)
            if s == 'set':
                i, j, x = int(g.integers(r)), int(g.integers(c)), float(g.normal() * 3 * sc)
                act = lambda: A.set(i, j, x)
            elif s == 'set_row':
                i = int(g.integers(r)); b = M(g.normal(size=(1, c)) * sc)
                act = lambda: A.set_row(i, b)
            elif s == 'set_column':
                i = int(g.integers(c)); b = M(g.normal(size=(r, 1)) * sc)
                act = lambda: A.set_column(i, b)
            elif s == 'h_fill_diagonal':
                x = float(g.normal() * 2 * sc)
                act = lambda: helper.fill_diagonal(A, x)
            elif s == 'nudge':               # a change in the seventh digit
                m, i, j = 'set', int(g.integers(r)), int(g.integers(c))
                x = float(A.data[i, j]) * (1 + 2.0 ** -20)
                act = lambda: A.set(i, j, x)
            elif s == 'permute_row':         # the same values elsewhere
                m, i = 'set_row', int(g.integers(r))
                b = M(A.data[i:i + 1, ::-1].copy())
                act = lambda: A.set_row(i, b)
            elif s == 'permute_column':
                m, i = 'set_column', int(g.integers(c))
                b = M(A.data[::-1, i:i + 1].copy())
                act = lambda: A.set_column(i, b)
            elif s in ('set_last', 'row_last', 'column_last'):
                m = 'any'                    # whatever it does, what is asked for afterwards belongs to the contents
                act = {'set_last': lambda: A.set(-1, -1, 4.75 * sc), 'row_last': lambda: A.set_row(-1, M(g.normal(size=(1, c)) * sc)),
                       'column_last': lambda: A.set_column(-1, M(g.normal(size=(r, 1)) * sc))}[s]
            elif s == 'refused_set':
                m, i = 'set', r + 1
                act = lambda: A.set(i, 0, 5.0)
            elif s == 'refused_row':
                m, i, b = 'set_row', 0, M(g.normal(size=(2, 2)))
                act = lambda: A.set_row(0, b)
            elif s == 'refused_vec':
                m, b = 'add_by_vector_modify', M(g.normal(size=(1, c + 2)))
                act = lambda: A.add_by_vector_modify(b)
            elif s == 'copy_set':            # an update of a copy is no update of the object
                m = 'copy'
                act = lambda: A.copy().set(0, 0, 77.0)
            elif s == 'transpose_set':
                m = 'copy'
                act = lambda: A.transpose().set_row(0, M(np.full((1, r), 55.0)))
            else:
                b = vec
                act = lambda: getattr(A, s)(b)
            call(act)
            log.ev(op='update', m=m, i=i, j=j, s=f64(x), b=fmat(b.data) if b is not None else [], a2=fmat(A.data))
