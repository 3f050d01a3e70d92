from .common import *
from .c08 import data


def setup(cls, p):
    import wai.ma.transformation as T
    t = tcls(cls)()
    if cls == 'RobustScaler':
        if p == 1: t.quantile_range = (10.0, 90.0)
        if p == 2: t.with_centering = False
        if p == 3: t.with_scaling = False
        if p == 4: t.quantile_range = (5.0, 60.0); t.with_centering = True
    elif cls == 'Log':
        if p in (1, 4): t.base = 10.0
        if p in (2, 5): t.base = 2.0
        if p in (3, 6): t.base = 0.5
        if p in (4, 5): t.offset = 2.5
        if p == 6: t.offset = 0.0
        if p == 7: t.offset = -0.05
        if p == 8: t.offset = -0.09; t.base = 3.0
    elif cls == 'PowerTransformer':
        if p >= 2: t.method = 'box-cox'
        if p % 2: t.standardise = False
    elif cls == 'QuantileTransformer':
        if p: t.output_distribution = 'normal'
    elif cls == 'FFT':
        om = T.OutputMode if hasattr(T, 'OutputMode') else __import__('wai.ma.transformation._FFT', fromlist=['x']).OutputMode
        mode = [om.REAL_AND_IMAG_PAIRS, om.AMPL_ANGLE_PAIRS, om.REAL_COMPONENT_ONLY, om.IMAG_COMPONENT_ONLY, om.AMPLITUDE_ONLY, om.PHASE_ANGLE_ONLY][p // 2]
        t.output_mode = mode if p != 9 else int(mode.value)
        t.orthonormalisation = bool(p % 2)
    elif cls == 'SavitzkyGolay' and p:
        t.polynomial_order = 3
    return t


def run(case, log):
    cls, (r, c), rep = case['cls'], case['sh'], case['rep']
    t = setup(cls, case['par'])
    cfg = data(case['kind'], r, c, rep, 'cfg')
    if case['dkind'] == 'probe':
        X = data(case['kind'], r, c, rep, 'new')
        _, y = call(t.transform, M(X))
        inv, _ = call(t.inverse_transform, y)
        log.ev(op='either', cls=cls, data=fmat(X), scale=fmat(np.abs(X)), inv=inv)
        return
    if case['dkind'] == 'none':
        if case['r2'] == 1:
            t.configure(M(cfg))
        inv, _ = call(t.inverse_transform, M(cfg))
        log.ev(op='none', cls=cls, inv=inv)
        return
    X = data(case['dkind'], case['r2'], c, rep, 'new')
    scale = np.abs(np.vstack([cfg, X, np.full((1, c), 1e-300)]))
    scale0 = np.abs(np.vstack([cfg, np.full((1, c), 1e-300)]))
    if cls in ('FFT', 'PassThrough'):
        scale = np.abs(np.vstack([X, np.full((1, c), 1e-300)]))
    if cls == 'Log':
        scale, scale0 = scale + abs(t.offset), scale0 + abs(t.offset)
    t.configure(M(cfg))
    fwd0, y0 = call(t.transform, M(cfg))
    inv0, _ = call(t.inverse_transform, y0)
    fwd, y = call(t.transform, M(X))
    inv, _ = call(t.inverse_transform, y)
    log.ev(op='round', cls=cls, cfg=fmat(cfg), data=fmat(X), fwd=fwd, inv0=inv0, inv=inv, scale=fmat(scale), scale0=fmat(scale0), only0=cls == 'QuantileTransformer')
