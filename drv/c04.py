from .objs import *
from .objs import _dec

_alone = {}


def alone(cls, p, d, how, q):
    k = (cls, p, d, how, q)
    if k not in _alone:
        s = Subject(cls, p)
        s.train(d, how)
        _alone[k] = s.ask(q)[0]
    return _alone[k]


def copies(ms):
    return [menc(M(x)) for x in ms]


def light(r):
    return dict(r, v={'t': r['v']['t']})


def run(case, log):
    if case['kind'] == 'mat':
        return mop(case, log)
    cls = case['cls']
    st = {}
    for x in case['w']:                       # what each object would answer alone is known before the case starts
        o = x['o']
        if x['op'] == 'new':
            st[o] = [x['p'], 1, 0]
        elif x['op'] == 'train':
            st[o][1:] = [x['d'], x['how']]
        elif x['op'] == 'ask':
            alone(cls, *st[o], x['q'])
    live = {}
    for x in case['w']:
        o, op = x['o'], x['op']
        e = dict(op=op, cls=cls, o=o)
        if op == 'new':
            live[o] = Subject(cls, x['p'])
            st[o] = [x['p'], 1, 0]
        elif op == 'train':
            r, b, a = live[o].train(x['d'], x['how'])
            st[o][1:] = [x['d'], x['how']]
            e.update(how=x['how'], res=light(r), before=copies(b), after=copies(a))
        elif op == 'ask':
            r, b, a = live[o].ask(x['q'])
            e.update(q=x['q'], res=r, before=copies(b), after=copies(a), alone=alone(cls, *st[o], x['q']))
        elif op == 'mutate':
            others = [m for l, s in live.items() for k, ms in (('T', s.trained_with), ('Q', s.asked_with), ('R', s.got))
                      if (l, k) != (o, x['what']) for m in ms if is_matrix(m)]
            b = [menc(m) for m in others]
            live[o].mutate(x['what'], x['k'])
            e.update(what=x['what'], before=b, after=[menc(m) for m in others])
        else:
            live[o].tinker()
        log.ev(**e)


def operand(shape):
    g = rng_for('c04', shape)
    if shape == 'sym':
        a = g.normal(size=(3, 3))
        return a + a.T
    r, c = map(int, shape.split('x'))
    return g.uniform(0.5, 4, size=(r, c))


def scramble(v):
    if is_matrix(v):
        v = v.data
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            v[...] = -77.0
    elif isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (list, np.ndarray)):
                scramble(x)
            else:
                v[i] = -77.0


def mop(case, log):
    from wai.ma.core.matrix import helper, factory, Matrix
    A = operand(case['shape'])
    r, c = A.shape
    g = rng_for('c04', 'b', case['shape'])

    def arg(k):
        return {'M': lambda: M(g.uniform(0.5, 4, size=(r, c))), 'T': lambda: M(g.uniform(0.5, 4, size=(c, r))), 'S': lambda: 1.5, 'S9': lambda: 2.5,
                'I': lambda: r - 1, 'J': lambda: c - 1, 'I2': lambda: 2, 'R': lambda: M(g.uniform(0.5, 4, size=(1, c))), 'C': lambda: M(g.uniform(0.5, 4, size=(r, 1))),
                'RR': lambda: (0, r), 'CC': lambda: (0, c), 'RL': lambda: list(range(r)), 'CL': lambda: list(range(c - 1)) or [0], 'A0': lambda: 0, 'A1': lambda: 1,
                'F': lambda: (lambda v: v + 1), 'P': lambda: (lambda v: v > 2), 'B': lambda: True, 'IO': lambda: io.BytesIO()}[k]()
    args = [arg(k) for k in case['args']]
    recv = M(A)

    def go():
        n = case['name']
        if n == 'helper.multi_concat':
            return call(helper.multi_concat, 0, recv, *args)
        if n.startswith('helper.'):
            return call(getattr(helper, n[7:]), recv, *args)
        if n.startswith('factory.'):
            return call(getattr(factory, n[8:]), recv, *args)
        if n == 'serialise_state':
            b = io.BytesIO()
            q, v = call(recv.serialise_state, b)
            q['v'] = venc(b.getvalue())
            return q, v
        return call(getattr(recv, n), *args)
    ops = [recv] + [x for x in args if is_matrix(x)]
    enc = lambda: [menc(M(x.data)) for x in ops]
    before = enc()
    res, v = go()
    after = enc()
    same = any(v is x for x in ops)
    if not same:
        scramble(v)
    after2 = enc()
    again = go()[0] if case['name'].find('set') and not case['name'].endswith('modify') else res
    if case['name'].split('.')[0] == 'helper' and case['name'].endswith('fill_diagonal'):
        again = res
    ops2 = ops
    # a second call on fresh operands, which are then overwritten
    recv = M(A)
    args = [M(b) if is_matrix(x) else x for x, b in zip(args, _restore(args, before))]
    ops = [recv] + [x for x in args if is_matrix(x)]
    r2, v2 = go()
    if not any(v2 is x for x in ops):
        for x in ops:
            x.data[...] = 55.5
    res2 = venc(v2) if r2['ok'] and case['name'] != 'serialise_state' else r2['v']
    log.ev(op='mop', name=case['name'], before=before, after=after, after2=after2, res=res, res2=res2, again=again)


def _restore(args, before):
    out, i = [], 1
    for x in args:
        if is_matrix(x):
            out.append(_dec(before[i]))
            i += 1
        else:
            out.append(None)
    return out
