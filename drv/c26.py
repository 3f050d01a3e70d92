from .common import *


def run(case, log):
    from wai.ma.transformation import MultiplicativeScatterCorrection, AbstractTransformation
    g = rng_for('c26', *[str(case.get(k)) for k in ('n', 'm', 'ranges', 'pre', 'kind', 'wave', 'rep', 'op')])
    n = case['n']
    if case['op'] == 'build':
        sp = [np.column_stack([np.arange(n) * 2.0 + k, g.normal(size=n)]) for k in range(case['m'])]
        res, _ = call(MultiplicativeScatterCorrection.create_configuration_matrix, [M(s) for s in sp])
        log.ev(op='build', spectra=[fmat(s) for s in sp], res=res)
        return

    class Pre(AbstractTransformation):
        def configure(self, data):
            self.configured = True

        def do_transform(self, data):
            a = data.data.copy()
            if case['pre'] == 'smooth':
                v = np.pad(a[:, 1], 1, mode='edge')
                a[:, 1] = (v[:-2] + v[1:-1] + v[2:]) / 3
            elif case['pre'] == 'gain':
                a[:, 1] *= 2.5
            elif case['pre'] == 'shift':
                a[:, 1] += 1 + 0.1 * a[:, 0]
            return M(a)

        def do_inverse_transform(self, data):
            raise NotImplementedError()

    w = 10.0 + 4 * np.arange(n)
    if case['wave'] == 'down':
        w = w[::-1].copy()
    elif case['wave'] == 'mixed':
        w = g.permutation(w)
    base = 2 + np.sin(w / 9)
    cfg = np.column_stack([w] + [base * g.uniform(0.8, 1.3) + 0.1 * g.normal(size=n) for _ in range(case['m'])])
    if case['kind'] == 'affine':
        amp = 1.7 * cfg[:, 1:].mean(axis=1) - 0.4
    elif case['kind'] == 'faint':
        amp = cfg[:, 1:].mean(axis=1) * 2.0 ** -30
    elif case['kind'] == 'strong':
        amp = cfg[:, 1:].mean(axis=1) * 2.0 ** 30 + 7
    elif case['kind'] == 'noise':
        amp = base + 0.2 * g.normal(size=n)
    else:
        amp = -3 * base + 0.1 * g.normal(size=n)
    X = np.column_stack([w, amp])
    t = MultiplicativeScatterCorrection()
    t.correction.ranges = [(float(a), float(b)) for a, b in case['ranges']]
    pre = None
    filt = X
    if case['pre'] != 'none':
        t.correction.prefilter = Pre()
        filt = Pre().transform(M(X)).data
    t.configure(M(cfg))
    res, _ = call(t.transform, M(X))
    log.ev(op='correct', cfg=fmat(cfg), X=fmat(X), filt=fmat(filt), ranges=[[f64(a), f64(b)] for a, b in case['ranges']], res=res)
