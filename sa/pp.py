"""compact printing of terms and paths"""


def mask(m):
    n = bin(m).count('1')
    if n > 128:
        return '~' + mask(((1 << 256) - 1) & ~m)
    cs = [i for i in range(256) if m >> i & 1]
    out, i = '', 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        a, b = [(chr(c) if 32 < c < 127 else '\\x%02x' % c) for c in (cs[i], cs[j])]
        out += a if i == j else a + '-' + b if j > i + 1 else a + b
        i = j + 1
    return '{' + out + '}'


def pp(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    try:
        if h == 'i' or h == 'b':
            return str(t[1])
        if h == 's':
            return repr(t[1])
        if h == 'f' and len(t) == 3:
            return loc(t)
        if h == 'sym':
            return pp(t[1]) if isinstance(t[1], tuple) else str(t[1])
        if h in ('o', 'v', 'e', 'c', 'g', 'd', 't') and len(t) > 1:
            return loc(t)
        if h == 'field':
            return pp(t[1]) + '.' + str(t[2])
        if h in ('elem', 'idx'):
            return pp(t[1]) + '[' + pp(t[2]) + ']'
        if h == 'lin':
            s = ' + '.join(('' if c == 1 else str(c) + '*') + pp(x) for x, c in t[1])
            return '(' + s + (' + %d' % t[2] if t[2] else '') + ')'
        if h == 'cat':
            return '(' + ' . '.join(map(pp, t[1])) + ')'
        if h == 'ch1':
            return 'chr(' + pp(t[1]) + ')'
        if h == 'size':
            return '|' + pp(t[1]) + '|'
        if h == 'not':
            return '!' + pp(t[1])
        if h in ('and', 'or'):
            return '(' + (' & ' if h == 'and' else ' | ').join(map(pp, t[1])) + ')'
        if h == 'in':
            return pp(t[1]) + ' in ' + mask(t[2])
        if h == 'cset':
            return mask(t[1])
        if h in ('eq', 'eqc'):
            return pp(t[1]) + ' == ' + pp(t[2])
        if h == 'eqz':
            return pp(t[1]) + ' == 0'
        if h == 'le':
            return pp(t[1]) + ' <= 0'
        if h == 'prefix':
            return pp(t[1]) + ' starts with ' + pp(t[2])
        if h == 'exists':
            return 'exists(' + pp(t[1]) + ': ' + pp(t[2]) + ')'
        if h == 'sfx':
            return pp(t[1]) + '[' + pp(t[2]) + ':]'
        if h == 'list':
            return '[' + ', '.join(map(pp, t[1])) + ']'
        if h == 'clo':
            return 'lambda#%s' % t[1]
        if h == 'bound':
            return '_'
        if h == 'rec':
            b = t[1]
            return '{' + (str(b[1]) if b and b[0] == 'new' else pp(b)) + ''.join(
                ' %s=%s' % (k[1] if not isinstance(k[1], tuple) else pp(k[1]), pp(v)) for k, v in t[2]) + '}'
        if h in ('app', 'bapp', 'opq', 'opqb'):
            return ('?' if h.startswith('opq') else '') + str(t[1]) + '(' + ', '.join(map(pp, t[2:])) + ')'
        if h == 'fs':
            return t[1] + '(' + pp(t[2]) + ')@' + pp(t[3])
        if h == 'nat' and isinstance(t[1], tuple):
            return '#' + (pp(t[1]) if t[1][0] != 'L' else 'i' + str(t[1][1]))
        if h == 'ptr':
            return '&' + pp(t[1])
        if h == 'it':
            return 'it(' + pp(t[1]) + '@' + pp(t[2]) + ')'
        if h == 'hv':
            return '~' + pp(t[2])
    except Exception:
        pass
    return str(h) + '(' + ', '.join(map(pp, t[1:])) + ')'


def loc(l):
    h = l[0]
    if h == 'v':
        return str(l[-1])
    if h == 'o':
        return str(l[1])
    if h == 'f':
        return pp(l[1]) + '.' + str(l[2])
    if h in ('e', 'c'):
        return pp(l[1]) + '[' + pp(l[2]) + ']'
    if h == 'g':
        return str(l[2])
    return '*' + pp(l[1])


def facts(f):
    return ' & '.join(('' if v else '!') + '(' + pp(a) + ')' for a, v in f.order)
