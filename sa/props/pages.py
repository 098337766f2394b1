"""What a page consists of: the sequence of its elements, with their texts."""
from common import *
from domain import *

PAGES = {'-h': ('format_help', False, ['-h']), '--help': ('format_help', False, ['--help']),
         '-hh': ('format_help', True, ['-hh']), '--advanced-help': ('format_help', True, ['--advanced-help']),
         'html': ('format_html', True, ['--export-help=html']), 'man': ('format_man', True, ['--export-help', 'man'])}
PRIMITIVES = 'header section subsection line list_item footer'.split()
MESSAGE = ('sym', ('validator message',))
B0, B1 = S('\x01<'), S('\x01>')


def bold(E, st, f, vs, e):
    return [('v', cat(B0, E.rv(st, vs[-1]), B1), st)]


def page_hooks(R, message=MESSAGE, primitives=True):
    h = dict(version_cuts(decide=False))
    h.update(format_cuts(R, ('format_parse', 'format_help', 'format_html', 'format_man', 'format_help_base',
                             'format_short_help', 'format_version', 'format_copyright')))
    if primitives:
        for c in ('help', 'html', 'man'):
            for q in PRIMITIVES:
                n = 'sharg::detail::format_%s::print_%s' % (c, q)
                if not R.p.functions(n):
                    raise Broken('no function ' + n)
                h[n] = cut('show ' + q)
            n = 'sharg::detail::format_%s::in_bold' % c
            if not R.p.functions(n):
                raise Broken('no function ' + n)
            h[n] = bold
    h['drv::opaque_validator::get_help_page_message'] = cut('message', message)
    return h


LISTS = 'synopsis description examples'.split()
TEXTS = 'url short_copyright long_copyright citation author email'.split()


def info(**kw):
    d = {'info.' + k: ('list', ()) for k in LISTS}
    d.update({'info.' + k: S('') for k in TEXTS})
    d['info.app_name'] = S('app')
    d['info.version'] = S('1.0.0')
    for k, v in kw.items():
        d['info.' + k] = v
    return d


def display(p):
    """the elements of the page, in the order they are written"""
    out = []
    for e in p.events:
        if e[0] == 'cut' and e[1].startswith('show '):
            out.append((e[1][5:],) + tuple(e[3]))
    return out


def truth(p, t):
    if t in (TRUE, FALSE):
        return t == TRUE
    return p.val(t)


def empty_text(p, t):
    if t[0] == 's':
        return t[1] == ''
    return p.val(Le(size(t)))


class Unknown(Exception):
    pass


def known(x):
    if x is None:
        raise Unknown()
    return x


def compare(p, got, want):
    """want: list of (kind, texts...); a text is a value, or a predicate on (path, value), or None (anything)"""
    g = [e[0] for e in got]
    w = [e[0] for e in want]
    unk = False
    if len(g) != len(w) or g != w:
        i = 0
        while i < min(len(g), len(w)) and g[i] == w[i] and same_item(p, got[i], want[i]) is not False:
            i += 1
        return False, 'element %d is %s instead of %s' % (i + 1, pp(got[i])[:200] if i < len(g) else 'missing', show(want[i]) if i < len(w) else 'nothing')
    for i, (a, b) in enumerate(zip(got, want)):
        r = same_item(p, a, b)
        if r is False:
            return False, 'element %d is %s instead of %s' % (i + 1, pp(a)[:300], show(b))
        unk |= r is None
    return None if unk else True


def show(w):
    return '(' + ', '.join('...' if x is None else 'a text that ' + (x.__doc__ or 'fits') if callable(x) else x if isinstance(x, str) else str(x) if isinstance(x, bool) else pp(x)[:300] for x in w) + ')'


def same_item(p, a, b):
    unk = False
    for x, y in zip(a[1:], b[1:]):
        if y is None:
            continue
        if callable(y):
            r = y(p, x)
        elif isinstance(y, bool):
            v = truth(p, x) if x[0] in ('b', 'bapp') or x in (TRUE, FALSE) else p.val(x)
            r = None if v is None else v == y
        else:
            r = same_text(p, x, y)
        if r is False:
            return False
        unk |= r is None
    return None if unk else True


def same_text(p, a, b):
    """equality of two texts made of constants, parameters and conversions"""
    if a == b:
        return True
    if opaque(a):
        return None
    ps, qs = parts(a), parts(b)
    if any(x[0] not in ('s', 'sym', 'field', 'app') or (x[0] == 'app' and x[1] not in ('tostr', 'quoted')) for x in ps):
        return None
    # the same unknown texts with other constants around them are different texts (for some value of the unknown ones)
    if any(x[0] == 'opq' for x in ps):
        return None
    if [x for x in ps if x[0] != 's'] == [x for x in qs if x[0] != 's']:
        return False
    if sorted(map(repr, (x for x in ps if x[0] != 's'))) != sorted(map(repr, (x for x in qs if x[0] != 's'))):
        # something is missing or was added; unless it is known to be empty
        d = [x for x in ps if x not in qs] + [x for x in qs if x not in ps]
        if any(x[0] not in ('s', 'sym', 'app', 'field', 'bapp') for x in d):
            return None
        if all(x[0] != 's' and empty_text(p, x) is True for x in d):
            return True
        return False
    return False


def parts(t):
    return list(t[1]) if t[0] == 'cat' else [t]


def written_text(p, stream='std::cout'):
    """everything written to a stream, in order"""
    out = []
    for e in p.events:
        if e[0] == 'out' and stream.split('::')[-1] in str(e[1]):
            out += parts(e[2])
    return out
