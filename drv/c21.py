import tempfile
from .common import *

TOK = {'n': None, 'j': 'abc', 'e': '', 's': None, 'x': None, 'a': 'NaN', 'f': '-Infinity'}


def data(kind, r, c):
    g = rng_for('c21', kind, r, c)
    if kind == 'special':
        a = g.normal(size=(r, c)) * 10
        f = a.reshape(-1)
        sp = [np.nan, np.inf, -np.inf, 0.0, -0.0, 1e300, -1e-300]
        for k in range(f.size):
            if k % 3 == 0:
                f[k] = sp[(k // 3) % len(sp)]
        return a
    if kind == 'edge':
        return np.resize([0.5, 1.5, 2.5, 0.05, 0.15, 0.25, 99.995, 0.9999, -0.5, -0.00001, 0.1 + 0.2, 1e15 + 0.3], (r, c)).astype(float)
    if kind == 'extreme':
        return np.resize([1.7976931348623157e308, 5e-324, -2.2250738585072014e-308, 123456789012345680.0, 1 / 3, 9.99999999999e-5], (r, c)).astype(float)
    return mk(kind, r, c)


def run(case, log):
    from wai.ma.core.matrix import helper
    d = tempfile.mkdtemp(dir='.')
    fn = os.path.join(d, 'm.csv')
    sep, header = case['sep'], case['header']
    if case['op'] == 'roundtrip':
        a = data(case['kind'], *case['sh'])
        A = M(a)
        dec, sci, via = case['dec'], case['sci'], case['via']
        if via == 'file':
            wres, _ = call(helper.write, A, fn, header, sep, dec, sci)
            text = open(fn).read() if os.path.exists(fn) else ''
            res, _ = call(helper.read, fn, header, sep)
        else:
            h = io.StringIO()
            if via == 'handle':
                wres, _ = call(helper.write, A, h, header, sep, dec, sci)
            else:
                wres, s = call(lambda: helper.to_string(A, header, sep, dec))
                h.write(s or '')
            text = h.getvalue()
            h.seek(0)
            res, _ = call(helper.read, h, header, sep)
        lines = text.splitlines()
        log.ev(op='roundtrip', a=fmat(a), a2=fmat(A.data), wres=wres, res=res, dec=dec, sci=sci, header=header, nlines=len(lines),
               head=lines[0].split(sep) if header and lines else [])
    else:
        rows, text = [], []
        k = 0
        for row in case['rows']:
            cells, toks = [], []
            for t in row:
                k += 1
                x = k * 1.25 - 3
                tok = {'n': repr(x), 's': '  ' + repr(x) + ' ', 'x': '%.5e' % x}.get(t, TOK[t])
                toks.append(tok)
                if t in 'nsx':
                    cells.append({'k': 'num', 'f': f64(float(tok))})
                elif t in 'af':
                    cells.append({'k': 'num', 'f': f64(float(tok))})
                else:
                    cells.append({'k': 'junk', 'f': f64(0)})
            rows.append(cells)
            text.append(sep.join(toks))
        s = '\n'.join(text) + ('\n' if case['nl'] and text else '')
        # an empty last line without newline is no line at all
        if text and not case['nl'] and text[-1] == '':
            rows = rows[:-1]
        if case['via'] == 'file':
            with open(fn, 'w') as f:
                f.write(s)
            res, _ = call(helper.read, fn, header, sep)
        else:
            res, _ = call(helper.read, io.StringIO(s), header, sep)
        log.ev(op='read', lines=rows, header=header, res=res)
