from .common import *


def run(case, log):
    from wai.ma.transformation import FFT, OutputMode as O
    mode = {'real': O.REAL_COMPONENT_ONLY, 'imag': O.IMAG_COMPONENT_ONLY, 'pairs': O.REAL_AND_IMAG_PAIRS, 'ampl': O.AMPLITUDE_ONLY,
            'angle': O.PHASE_ANGLE_ONLY, 'amplangle': O.AMPL_ANGLE_PAIRS}[case['mode']]
    X = mk(case['kind'], case['r'], case['c'], case['rep'])
    t = FFT()
    t.output_mode = {'real': 1, 'imag': 2, 'pairs': 3, 'ampl': 4, 'angle': 8, 'amplangle': 12}[case['mode']] if case['asint'] else mode
    t.orthonormalisation = case['ortho']
    res, _ = call(t.transform, M(X))
    log.ev(op=case['op'], mode=case['mode'], ortho=case['ortho'], X=fmat(X), res=res)
