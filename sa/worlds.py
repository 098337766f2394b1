"""Concrete readings of path conditions: does a combination of concrete inputs take a path?"""
import math
from fractions import Fraction


class Unknown(Exception):
    pass


def num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


BITS = {'signed char': (8, 1), 'char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1),
        'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}


def wrap(x, t):
    b, s = BITS[t]
    x &= (1 << b) - 1
    return x - (1 << b) if s and x >> b - 1 else x


def ev(t, env):
    """the value of a term when the inputs are env; raises Unknown"""
    if t in env:
        return env[t]
    h = t[0]
    if h in ('i', 's', 'b'):
        return t[1]
    if h == 'cv':
        return ev(t[1], env)
    if h == 'lin':
        s = t[2]
        for x, c in t[1]:
            v = ev(x, env)
            if not num(v) or isinstance(v, float):
                raise Unknown
            s += c * v
        return s
    if h == 'le':
        return ev(t[1], env) <= 0
    if h == 'eqz':
        return ev(t[1], env) == 0
    if h == 'not':
        return not ev(t[1], env)
    if h == 'and':
        return all([ev(x, env) for x in (t[1] if isinstance(t[1][0], tuple) else t[1:])])
    if h == 'or':
        return any([ev(x, env) for x in (t[1] if isinstance(t[1][0], tuple) else t[1:])])
    if h in ('eq', 'eqc'):
        return ev(t[1], env) == ev(t[2], env)
    if h == 'size':
        v = ev(t[1], env)
        if isinstance(v, (str, list, tuple)):
            return len(v)
        raise Unknown
    if h == 'in':
        v = ev(t[1], env)
        v = ord(v) if isinstance(v, str) else v
        return bool(t[2] >> (v & 255) & 1)
    if h == 'fcmp':
        a, b = ev(t[2], env), ev(t[3], env)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[t[1]]
    if h == 'app' and t[1] == 'wrap':
        return wrap(ev(t[2], env), t[3][1])
    if h == 'app' and t[1] == 'trunc':
        v = ev(t[2], env)
        if isinstance(v, float) and not math.isfinite(v):
            raise Unknown
        return wrap(int(v), t[3][1])
    if h == 'bapp' and t[1] in ('isnan', 'std::isnan'):
        v = ev(t[2], env)
        return v != v
    if h == 'app' and t[1] in ('toupper', 'tolower', 'std::toupper', 'std::tolower') and len(t) == 3:
        v = ev(t[2], env)
        v = ord(v) if isinstance(v, str) else v
        if not 0 <= v < 128:
            return v
        return ord(chr(v).upper() if 'upper' in t[1] else chr(v).lower())
    if h == 'cat':
        return ''.join(ev(x, env) for x in t[1])
    if h == 'ch1':
        v = ev(t[1], env)
        return v if isinstance(v, str) else chr(v & 255)
    if h == 'list':
        return [ev(x, env) for x in t[1]]
    raise Unknown


def takes(p, env):
    """True: these inputs take path p; False: they do not; None: p also depends on something else"""
    sure = True
    for a, v in p.F.order:
        try:
            if ev(a, env) != v:
                return False
        except (Unknown, KeyError, TypeError, IndexError):
            sure = None
    return sure
