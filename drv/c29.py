from .c05 import *
import contextlib
import io
import re


def text(o):
    r, v = call(str, o)
    return re.sub(r'0x[0-9a-f]+', '0x', v) if r['ok'] else 'raised'


def run(case, log):
    cls = case['cls']
    o = blank(cls)
    has_debug = cls not in PLAIN + TRANSF
    model = 'none'
    steps = [dict(a='new', n='', v='', d=0, vals=case['defs'], model='none', dbg=False)] + case['w']
    for s in steps:
        r = {'ok': True, 'err': '', 'v': {'t': 'none'}}
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if s['a'] == 'set':
                r = call(setattr, o, s['n'], value(cls, s['n'], s['v']))[0]
            elif s['a'] == 'train':
                r = teach(o, cls, s['d'])
                r = dict(r, ok=trained(r), v={'t': 'none'})
            elif s['a'] == 'debug':
                r = call(setattr, o, 'debug', s['v'] == 'on')[0]
            h = has(o, cls)
            if s['a'] == 'train':
                model = str(s['d']) if r['ok'] else 'none'
            elif s['model'] == 'none':
                model = 'none'
            d = int(model) if model != 'none' else 1
            ans = [{'n': n, 'o': v} for n, v in answers(o, cls, d, h)]
        log.ev(op='step', cls=cls, a=s['a'], n=s['n'], v=s['v'], d=s['d'], res=r, vals=s['vals'], model=model, dbg=s['dbg'], has=h,
               got=bool(o.debug) if has_debug else False, txt=text(o), txt2=text(o), ans=ans, printed=len(out.getvalue()) > 0)
