"""Go data for the cases: constructors, and the encodings for the driver and for TLC."""
import struct


def hexs(b):
    return b.hex()


def arr(b):
    return list(b)


def limbs(n):
    n = abs(n)
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def fbits(x):
    return struct.pack('>d', x).hex()


def f32(x):
    try:
        return struct.unpack('>f', struct.pack('>f', x))[0]
    except OverflowError:
        return 0.0


def b_(v, name=''):
    return {'k': 'bool', 'v': bool(v), 'name': name}


def s_(v, name=''):
    return {'k': 'str', 'v': v if isinstance(v, bytes) else v.encode(), 'name': name}


def i_(v, gk='int'):
    return {'k': 'int', 'v': v, 'gk': gk}


def f_(v, gk='float64'):
    return {'k': 'float', 'v': f32(v) if gk == 'float32' else float(v), 'gk': gk}


def nil_(name=''):
    return {'k': 'nil', 'name': name}


def p_(x):
    return {'k': 'ptr', 'x': x}


def l_(xs, typed=False, name=''):
    return {'k': 'slice', 'x': list(xs), 'typed': typed, 'name': name}


def m_(ps, typed=False, name=''):
    """ps: list of (key bytes, datum)"""
    return {'k': 'map', 'x': [(k if isinstance(k, bytes) else k.encode(), v) for k, v in ps], 'typed': typed, 'name': name}


def st_(fs, name=''):
    """fs: list of (name, exported, datum)"""
    return {'k': 'struct', 'x': list(fs), 'name': name}


def bad_(name):
    return {'k': 'bad', 'name': name}


def go(d):
    """the form the driver reads"""
    k = d['k']
    o = {'k': k}
    if d.get('name'):
        o['name'] = d['name']
    if k == 'bool':
        o['b'] = d['v']
    elif k == 'str':
        o['s'] = d['v'].hex()
    elif k == 'int':
        o.update(dec=str(d['v']), gk=d['gk'])
    elif k == 'float':
        o.update(bits=fbits(d['v']), gk=d['gk'])
    elif k == 'ptr':
        o['x'] = go(d['x'])
    elif k == 'slice':
        o.update(xs=[go(x) for x in d['x']], typed=d['typed'])
    elif k == 'map':
        o.update(ps=[{'n': n.hex(), 'x': go(x)} for n, x in d['x']], typed=d['typed'])
    elif k == 'struct':
        o['fs'] = [{'n': n, 'e': e, 'x': go(x)} for n, e, x in d['x']]
    return o


def tla(d):
    """the form module Values reads"""
    k = d['k']
    if k in ('bool',):
        return {'k': k, 'v': d['v']}
    if k == 'str':
        return {'k': k, 'v': arr(d['v'])}
    if k == 'int':
        return {'k': k, 'neg': d['v'] < 0, 'm': limbs(d['v'])}
    if k == 'float':
        return {'k': k, 'v': fbits(d['v'])}
    if k == 'ptr':
        return {'k': k, 'x': tla(d['x'])}
    if k == 'slice':
        return {'k': k, 'x': [tla(x) for x in d['x']]}
    if k == 'map':
        return {'k': k, 'x': [{'n': arr(n), 'x': tla(x)} for n, x in d['x']]}
    if k == 'struct':
        return {'k': k, 'x': [{'n': arr(n.encode()), 'e': e, 'x': tla(x)} for n, e, x in d['x']]}
    return {'k': k}


def go_map(data):
    return [{'n': n.hex(), 'x': go(x)} for n, x in data]


def tla_map(data):
    return [{'n': arr(n), 'x': tla(x)} for n, x in data]
