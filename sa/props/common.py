from lib import *

# the classes that render or parse; parse() of each is an event in analyses that only ask which one runs
def format_cuts(R, skip=('format_parse',)):
    h = {}
    for f in R.p.fn.values():
        n = f['n']
        if n.startswith('sharg::detail::format_') and n.endswith('::parse'):
            k = n.split('::')[2]
            if k not in skip:
                h[n] = cut(k)
    return h


def version_cuts(decide=False):
    return {
        'sharg::detail::version_checker::operator()': cut('server'),
        'sharg::detail::version_checker::decide_if_check_is_performed': cut('decide', *([decide] if isinstance(decide, bool) else [True, False])),
        'sharg::detail::version_checker::get_path': cut('get_path', ('sym', ('cookie path',))),
    }


def valid_name(name='name'):
    """the application name is acceptable (the check itself is another property)"""
    return []


def formats(p):
    return [e[1] for e in p.events if e[0] == 'cut' and e[1].startswith('format_')]


def exit_code(p):
    ev = p.ev('exit')
    return ev[-1] if ev else None


OPT = 0x1


def cuts_of(p, name=None):
    return [e for e in p.events if e[0] == 'cut' and (name is None or e[1] == name)]


def format_run(p):
    """the format objects whose parse() ran: class names"""
    out = []
    for e in p.events:
        if e[0] == 'cut' and e[1].startswith('format_'):
            obj = e[5] if len(e) > 5 else None
            cls = e[1]
            v = obj
            while v is not None and v[0] == 'rec':
                v = v[1]
            if v is not None and v[0] in ('new', 'obj'):
                cls = v[1].split('::')[-1]
            out.append((cls, obj))
    return out


def ordinary(t):
    """an argument that starts with something else than a dash"""
    return (prefix(t, S('-')), False)


BUILTIN = ['-h', '--help', '-hh', '--advanced-help', '--version', '--copyright', '--export-help', '--version-check']


def no_builtin(t):
    """t is none of the built-in identifiers"""
    return [(eq_str(t, S(b)), False) for b in BUILTIN] + [(prefix(t, S('--export-help=')), False)]


STR = r'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
VSTR = r'std::vector<std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
NOV = r'sharg::detail::default_validator'
OPQV = r'drv::opaque_validator'


def rx(t):
    return '(^|; )' + re.escape(t) + r'[^;]*&'


def conf(o, short=None, long='', required=False, advanced=None, hidden=None, **kw):
    """a configuration with these settings; its texts stay unconstrained, as do the visibility settings of options and flags"""
    nid = short is None and long == ''
    advanced, hidden = [(('b', v) if v is not None else FALSE if nid else ('bapp', '%s.%s' % (o, n))) for v, n in
                        ((advanced, 'advanced'), (hidden, 'hidden'))]
    d = {o + '.short_id': I(0) if short is None else char(short) if isinstance(short, str) else short,
         o + '.long_id': S(long) if isinstance(long, str) else long,
         o + '.required': ('b', required), o + '.advanced': advanced, o + '.hidden': hidden,
         o + '.default_message': S('')}
    for k, v in kw.items():
        d[o + '.' + k] = v
    return d


def nonempty(t):
    return (Le(size(t)), False)


def isnt(t, *texts):
    return [(eq_str(t, S(x)), False) for x in texts]


def noprefix(t, *texts):
    return [(prefix(t, S(x)), False) for x in texts]


def positional(*ts):
    """arguments that are neither empty nor start with a dash"""
    out = []
    for t in ts:
        out += [nonempty(t), ordinary(t)]
    return out


class Rows:
    """a decision table on one entry point"""
    def __init__(self, ctx, fn, mem, hooks=None, unroll=12):
        self.ctx, self.fn, self.mem, self.unroll = ctx, fn, mem, unroll
        self.R = ctx.runner()
        self.hooks = dict(version_cuts())
        self.hooks.update(format_cuts(self.R))
        self.hooks.update(hooks or {})

    def __call__(self, rule, subject, args, allowed, what, assume=(), mem=None, group=None, fn=None, limit=60000):
        def go():
            m = dict(self.mem)
            m.update(mem or {})
            m['args'] = strlist('app', *args)
            ps = self.R.run(fn or self.fn, mem=m, assume=list(assume), hooks=self.hooks, unroll=self.unroll, limit=limit)
            self.ctx.paths_obey(rule, subject, ps, allowed, what)
        self.ctx.attempt(rule, subject, go, group)


def same(p, got, want):
    """three valued comparison of two values"""
    if got == want:
        return True
    if want[0] == 'list' and got[0] == 'list':
        if len(want[1]) != len(got[1]):
            return False
        rs = [same(p, a, b) for a, b in zip(got[1], want[1])]
        return False if False in rs else None if None in rs else True
    if got[0] in ('opq', 'opqb') or opaque(got):
        return None
    b = (TRUE, FALSE)
    if got in b and want in b:
        return False
    if want in b:
        try:
            v = p.val(got)
        except Exception:
            v = None
        if v is not None:
            return v == (want == TRUE)
        if got[0] in ('not', 'and', 'or', 'in', 'eq', 'eqc', 'le', 'prefix', 'exists', 'truth', 'bapp'):
            return None
    try:
        v = p.val(eq_str(got, want)) if stringish(got) and stringish(want) else p.val(got) if want == TRUE else None
    except Exception:
        v = None
    if v is not None:
        return v
    return False if recognised(got) else None


def opaque(t):
    return isinstance(t, tuple) and bool(t) and (t[0] in ('opq', 'opqb', 'hv') or any(opaque(x) for x in t))


def recognised(t):
    """a value whose origin is understood: (parts of) arguments, constants, parameters, known lists"""
    h = t[0]
    if h in ('s', 'i', 'b', 'sym'):
        return True
    if h in ('sfx', 'ch1', 'idx', 'elem'):
        return recognised(t[1])
    if h in ('cat', 'list'):
        return all(recognised(x) for x in t[1])
    if h == 'push':
        return recognised(t[1]) and recognised(t[2])
    return False


def ends(**want):
    """the call returns normally and the parameters hold these values (None: untouched)"""
    def allowed(p):
        if p.out != 'ok':
            return False, 'outcome ' + p.outcome()
        unk = False
        for k, v in want.items():
            got = p.final(k)
            r = same(p, got, P(k) if v is None else v)
            if r is False:
                return False, '%s is %s instead of %s' % (k, pp(got), 'its previous value' if v is None else pp(v))
            unk |= r is None
        return None if unk else True
    return allowed


def fails(*exc):
    return lambda p: (p.out == 'throw' and p.exc in ['sharg::' + x for x in exc], 'outcome ' + p.outcome())


def kind_of(t):
    """short name of a value type"""
    t = t.rstrip(' &')
    if t.startswith(('std::vector<', 'std::list<')):
        inner = t[t.index('<') + 1:]
        i = inner.find(', std::allocator<')
        if inner.startswith(STR):
            return 'string list'
        return inner[:i].split('::')[-1] + (' std::list' if t.startswith('std::list') else ' list')
    return {STR: 'string', 'std::filesystem::path': 'path'}.get(t, t)


def spawned(p):
    """what the threads started on this path do: [(thread event, [path of the thread])]; the events of a thread path are its own"""
    out = []
    for e in p.events:
        if e[0] != 'thread':
            continue
        fv, args = e[1][0], list(e[1][1:])
        st = p.st.copy()
        n = len(list(st.events()))
        ps = []
        for k, v, s in p.E.invoke(st, fv, args):
            q = Path(k, v, s, p.E)
            q._ev = q.events[n:]
            ps.append(q)
        out.append((e, ps))
    return out
