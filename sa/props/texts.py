"""Texts of a fixed shape with arbitrary characters, and their concrete readings."""
import itertools
from pages import *
from models import chs, Models
from engine import Engine, State
import worlds


def shape(*xs):
    """a text made of constants and arbitrary characters (symbols)"""
    return cat(*[S(x) if isinstance(x, str) else chs(x) for x in xs])


CODES = ('a \\f', 'b \\f', 'c\\fI d\\fP\\fP\\fPe\\-f', '.')


def between(parts, xs):
    """the unknown characters between these constants"""
    out = [parts[0]]
    for x, s in zip(xs, parts[1:]):
        out += [x, s]
    return out


QUIET = ('deref', 'inc', 'index', 'dec', 'erase', 'front', 'back')


def memo(R, name, hooks):
    """calls of this function on constant texts are evaluated once"""
    fs = [f for f in R.p.functions(name)]
    if len(fs) != 1:
        return None
    fn = fs[0]
    cache = R.__dict__.setdefault('memo', {})

    def h(E, st, f, vs, e):
        args = [E.rv(st, v) for v in (vs if fn.get('static') or not e.get('m') else vs[1:])]
        args = args[-len(fn['params']):]
        if len(args) != len(fn['params']) or not all(a[0] in ('s', 'i', 'b') for a in args):
            return None
        k = (name, tuple(args), tuple(sorted(k for k in hooks)), hooks.get('#key'))
        if k not in cache:
            cache[k] = None
            E2 = Engine(R.p, Models(), hooks)
            E2.unroll = 4096
            E2.uid = 10 ** 6
            s = State()
            av = [] if fn.get('static') or not fn.get('cls') else [('L', ('o', '$memo'))]
            for i, a in enumerate(args):
                s.mem[('o', '$memo%d' % i)] = a
                av.append(('L', ('o', '$memo%d' % i)))
            try:
                r = E2.call_fn(fn, av, s)
            except Exception:
                r = []
            if len(r) == 1 and r[0][0] == 'v':
                s2 = r[0][2]
                v = E2.rv(s2, r[0][1])
                if v[0] in ('s', 'i') and not s2.facts.order and not s2.opq and not [x for x in s2.events() if x[0] not in QUIET] and not past_end_events(s2.events()):
                    cache[k] = v
        return None if cache[k] is None else [('v', cache[k], st)]
    return h


def atoms(paths, syms):
    """the classes of characters the code tells apart: one representative each"""
    masks = set()
    for p in paths:
        for x in syms:
            m = p.F.cm.get(x)
            if m is not None:
                masks.add(m)
    cls = {}
    for c in range(1, 256):
        cls.setdefault(tuple(m >> c & 1 for m in sorted(masks)), []).append(c)
    return [max(v, key=lambda c: (chr(c).isalnum() and c < 128, -c)) for v in cls.values()]


def possible(t, m, env):
    try:
        v = worlds.ev(t, env)
        return bool(m >> (ord(v) if isinstance(v, str) else v & 255) & 1)
    except (worlds.Unknown, KeyError, TypeError):
        return True


def readings(p, syms, reps):
    """the combinations of representatives that take this path"""
    dom = [[c for c in reps if p.F.cm.get(x, -1) >> c & 1] for x in syms]
    for cs in itertools.product(*dom):
        env = {x: c for x, c in zip(syms, cs)}
        if not all(possible(t, m, env) for t, m in p.F.cm.items() if t not in env):
            continue
        yield ''.join(map(chr, cs)), env


def concrete(ts, env):
    """the text, or None when it has parts that are not understood"""
    try:
        return ''.join(worlds.ev(t, env) for t in ts)
    except (worlds.Unknown, KeyError, TypeError):
        return None


MARK = '\x02'
# where a text can go
PLACES = ['section', 'subsection', 'paragraph', 'line', 'item term', 'item text', 'option description', 'flag description',
          'positional description', 'default message', 'validator message', 'short description', 'date', 'url', 'author', 'email', 'citation',
          'short copyright', 'synopsis', 'description', 'examples']
FIELD = {'section': 't1', 'subsection': 't2', 'paragraph': 't3', 'line': 't3', 'item term': 't4', 'item text': 't5',
         'option description': 'c1.description', 'flag description': 'c2.description', 'positional description': 'c3.description',
         'default message': 'c1.default_message', 'short description': 'info.short_description', 'date': 'info.date', 'url': 'info.url',
         'author': 'info.author', 'email': 'info.email', 'citation': 'info.citation', 'short copyright': 'info.short_copyright'}


def page_with(R, where, text, args, hooks):
    """the page when this text stands at this place and constants everywhere else"""
    m = {'flag': FALSE, 'un': I(1), 'args': strlist('app', *args), 'value': I(5)}
    m.update(info(date=S('date'), short_description=S('short')))
    m.update({'info.man_page_title': S('title'), 'info.man_page_section': I(1)})
    m.update({a: FALSE for a in ('a1', 'a2', 'a3', 'a4')})
    m['para'] = ('b', where != 'line')
    for i, c in enumerate(('c1', 'c2', 'c3')):
        m.update(conf(c, *(('i',), ('f',), ())[i], advanced=False, hidden=False))
        m[c + '.description'] = S('describes ' + c)
    for k in '12345':
        m['t' + k] = S('t' + k)
    msg = S('')
    if where == 'validator message':
        msg = text
    elif where in LISTS:
        m['info.' + where] = ('list', (S('one'), cat(S('app '), text) if where == 'synopsis' else text, S('two')))
    else:
        m[FIELD[where]] = text
    return R.run(R.fns('drv::sc_page')[0], mem=m, hooks=hooks(R, msg), unroll=4096)


def past_end_events(events):
    for e in events:
        if e[0] in ('front', 'pop_back') and isinstance(e[1], tuple) and size(e[1]) == I(0):
            return str(e[-1])
        if e[0] == 'deref' and e[1][0] == 'it' and e[1][2][0] == 'i':
            c = e[2]
            n = size(c) if isinstance(c, tuple) else None
            if n is not None and n[0] == 'i' and not 0 <= e[1][2][1] < n[1]:
                return str(e[-1])
    return None


def past_end(p):
    return past_end_events(p.events)
