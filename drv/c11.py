from .common import *

AX = {'sum_all': None, 'sum_m1': -1, 'sum_0': 0, 'sum_1': 1, 'sum_2': 2,
      'mean_all': None, 'mean_m1': -1, 'mean_0': 0, 'mean_1': 1, 'mean_2': 2}


def data(kind, sh, *keys):
    r, c = sh
    if kind == 'ramp1':
        return mk('ramp', r, c) + 1
    if kind == 'int1':
        a = mk('int', r, c, *keys)
        return np.where(a == 0, 3.0, a)
    if kind == 'near':
        return mk('ties', r, c, *keys) + 0.25
    if kind in ('nan1', 'nanlast'):
        a = mk('generic', r, c, *keys)
        a[(0, 0) if kind == 'nan1' else (-1, -1)] = np.nan
        return a
    if kind in ('inf1', 'infneg'):
        a = mk('generic', r, c, *keys)
        a[-1, -1] = -np.inf
        a[0, 0] = np.inf if kind == 'inf1' else -np.inf
        return a
    return mk(kind, r, c, *keys)


def operand(case, a):
    k = case['kind2']
    if k.startswith('same'):
        b = a.copy()
        p = {'same': None, 'same-last': (-1, -1), 'same-first': (0, 0), 'same-mid': (a.shape[0] // 2, a.shape[1] // 2)}[k]
        if p is not None:
            b[p] += 0.5
        return b
    return data(k, case['sh2'])


def spec(s):
    return list(s['l']) if s['k'] == 'list' else tuple(s['l'])


def perform(m, A, B, c):
    from wai.ma.core.matrix import helper as h
    s, t, i, j = c.get('s', 0) / 4, c.get('t', 0) / 4, c.get('i'), c.get('j')
    if m in AX:
        f = A.sum if m.startswith('sum') else A.mean
        return f() if AX[m] is None else f(AX[m])
    if m == 'raw1d': return A.to_raw_copy_1D()
    if m == 'raw2d': return np.array(A.to_raw_copy_2D(), dtype=float)
    if m == 'str': return np.array([[float(x) for x in l.split(',')] for l in str(A).split('\n')])
    if m == 'apply': return A.apply_elementwise(lambda x: x * x + 1)
    if m == 'norm2sq': return A.norm2_squared()
    if m in ('normalized_0', 'normalized_1'): return A.normalized(int(m[-1]))
    if m == 'head': return A.head(i)
    if m == 'head_default': return A.head()
    if m in ('get_from_vector', 'get_row', 'get_column'): return getattr(A, m)(i)
    if m == 'where_vector': return A.where_vector(lambda x: x > s)
    if m == 'which': return A.which(lambda x: x > s)
    if m == 'any': return A.any(lambda x: x > s)
    if m == 'all': return A.all(lambda x: x > s)
    if m in ('mul_s', 'div_s', 'add_s', 'sub_s'): return getattr(A, m[:-2])(s)
    if m == 'pow_s': return A.pow_elementwise(s)
    if m == 'clip': return A.clip(s, t)
    if m in ('clip_lower', 'clip_upper'): return getattr(A, m)(s)
    if m == 'get': return A.get(i, j)
    if m == 'set': return A.set(i, j, s)
    if m in ('set_row', 'set_column'): return getattr(A, m)(i, B)
    if m == 'get_sub_matrix': return A.get_sub_matrix(spec(c['rows']), spec(c['cols']))
    if m == 'get_rows': return A.get_rows(spec(c['rows']))
    if m == 'get_columns': return A.get_columns(spec(c['cols']))
    if m in ('concat_0', 'concat_1'): return A.concat(B, int(m[-1]))
    if m == 'eq': return A == B
    if m == 'ne': return A != B
    if m == 'h_equal': return h.equal(A, B, np.float64(s)) if s else h.equal(A, B)
    if m == 'h_delete_cols': return h.delete_cols(A, spec(c['cols']))
    if m == 'h_delete_col': return h.delete_col(A, i)
    if m == 'h_mean_col': return h.mean(A, i)
    if m == 'h_mean_row': return h.mean(A, i, False)
    if m == 'h_stdev_col': return h.stdev(A, i)
    if m == 'h_stdev_row': return h.stdev(A, i, False)
    if m in ('h_row_as_vector', 'h_column_as_vector'): return getattr(h, m[2:])(A, i)
    if m in ('h_concat3_0', 'h_concat3_1'): return h.multi_concat(int(m[-1]), A, B, A)
    if m == 'h_fill_diagonal': return h.fill_diagonal(A, s)
    if m.startswith('h_'): return getattr(h, m[2:])(A)
    return getattr(A, m)(B) if B is not None else getattr(A, m)()


def run(case, log):
    m = case['m']
    a = data(case['kind'], case['sh'])
    A = laid(a, 'CFTS'[zlib.crc32(repr(case).encode()) % 4])
    b = operand(case, a) if 'sh2' in case else None
    B = laid(b, 'FCST'[zlib.crc32(repr(case).encode()) % 4]) if b is not None else None
    res, v = call(perform, m, A, B, case)
    if is_matrix(v) and v.num_elements():      # the result is the caller's: writing to it must not reach the operands
        v.set(0, 0, 98765.0)
    ex = {k: case[k] for k in ('i', 'j', 'rows', 'cols') if k in case}
    log.ev(op='call', m=m, a=fmat(a), b=fmat(b) if b is not None else [], s=f64(case.get('s', 0) / 4), t=f64(case.get('t', 0) / 4),
           res=res, a2=fmat(A.data), b2=fmat(B.data) if B is not None else [], **ex)
