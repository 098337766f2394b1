"""Rules: a help page (short, advanced, exported) lists, exactly once and in the order they were added, every option, flag, documentation
element that is to be seen, with identifiers, type, description, default and the validator's message, after the positional options
(ARGUMENT-n); around them synopsis, description, subcommands, the built-in options, examples, version, url and legal information, each exactly
when given. The version page and the short help show what they are for.
Decided by comparing, on all paths of constructing a parser with symbolic documentation and asking for a page, the sequence of the page's elements with the expected one."""
from pages import *

ASSUMPTIONS = ['elements are written through the print_* functions of the format classes (how these lay them out is the subject of C23 and C24)']

TYPES = {'signed char': 'signed 8 bit integer', 'unsigned char': 'unsigned 8 bit integer', 'short': 'signed 16 bit integer',
         'unsigned short': 'unsigned 16 bit integer', 'int': 'signed 32 bit integer', 'unsigned int': 'unsigned 32 bit integer',
         'long': 'signed 64 bit integer', 'unsigned long': 'unsigned 64 bit integer', 'double': 'double', 'float': 'float', 'bool': 'bool',
         'char': 'char', 'std::string': 'std::string', 'std::filesystem::path': 'std::filesystem::path'}


def filled(p, x):
    """is not empty"""
    if x[0] == 's':
        return x[1] != ''
    return True if x[0] == 'cat' and any(y[0] == 's' and y[1] for y in x[1]) else None


def mentions(*ws):
    def f(p, x):
        cs = ''.join(y[1] if y[0] == 's' else '\0' for y in parts(x))
        return all(w in cs for w in ws)
    f.__doc__ = 'mentions ' + ', '.join(ws)
    return f


def ids(short, long):
    return ', '.join(['\\fB-%s\\fP' % short] * bool(short) + ['\\fB--%s\\fP' % long] * bool(long))


def common(check_listed):
    w = [('subsection', S('Common options')),
         ('list_item', S('\\fB-h\\fP, \\fB--help\\fP'), filled), ('list_item', S('\\fB-hh\\fP, \\fB--advanced-help\\fP'), filled),
         ('list_item', S('\\fB--version\\fP'), filled), ('list_item', S('\\fB--copyright\\fP'), filled),
         ('list_item', mentions('\\fB--export-help\\fP'), mentions('html', 'man'))]
    if check_listed:
        w.append(('list_item', mentions('\\fB--version-check\\fP', 'bool'), mentions('true')))
    return w


def J(*xs):
    return cat(*[S(x) if isinstance(x, str) else x for x in xs])


IN = lambda k: fld(P('info'), k)


def given(p, k):
    return known(empty_text(p, k)) is False


def legal(p, texts=None):
    """texts: {field: text or None}"""
    texts = texts or {}
    g = lambda k: texts.get(k)
    name = S('app')
    w = []
    if any(g(k) for k in ('short_copyright', 'author', 'email', 'citation', 'long_copyright')):
        w.append(('section', S('Legal')))
        if g('short_copyright'):
            w.append(('line', J(B0, name, ' Copyright: ', B1, g('short_copyright')), None))
        if g('author'):
            w.append(('line', J(B0, 'Author: ', B1, g('author')), None))
        if g('email'):
            w.append(('line', J(B0, 'Contact: ', B1, g('email')), None))
        w.append(('line', mentions('SeqAn Copyright: '), None))
        if g('citation'):
            w.append(('line', J(B0, 'In your academic works please cite: ', B1, g('citation')), None))
        if g('long_copyright'):
            w.append(('line', mentions('--copyright'), None))
    return w


def version(p, texts=None):
    w = [('section', S('Version')), ('line', J(B0, 'Last update: ', B1, IN('date')), None),
         ('line', J(B0, 'app', ' version: ', B1, '1.0.0'), None), ('line', mentions('Sharg version: '), None)]
    if (texts or {}).get('url'):
        w += [('section', S('Url')), ('line', texts['url'], None)]
    return w


HEAD = [('header',)]
FOOT = [('footer',)]
OPTIONS = ('section', S('Options'))
POSITIONALS = ('section', S('Positional Arguments'))


def of_type(t):
    return ' (\\fI%s\\fP)' % t


def of_list(t):
    return ' (\\fIList\\fP of \\fI%s\\fP)' % t


def run(ctx):
    def go(rule, subject, config, page, fn, mem, expected, args=None, message=MESSAGE, assume=(), out='exit'):
        def f():
            R = ctx.runner(config)
            m = {'flag': FALSE, 'un': I(1), 'args': strlist("app", *(PAGES[page][2] if args is None else args))}
            m.update(info())
            m.update({a: FALSE for a in ('a1', 'a2', 'a3', 'a4', 'para')})
            for c in ('c1', 'c2', 'c3', 'c4', 'c', 'cfg'):
                m.update(conf(c, advanced=False, hidden=False))
            m.update(mem)
            if page and PAGES[page][1] and rule == 'everything in order' and 'int0 -i, --int' in subject and 'message' not in subject:     # shows everything, advanced or not
                for c in ('c1', 'c2', 'c3', 'c4'):
                    if (m[c + '.short_id'], m[c + '.long_id']) != (I(0), S('')):
                        m[c + '.advanced'] = ('bapp', c + '.advanced')
                m.update({a: ('bapp', a) for a in ('a1', 'a2', 'a3', 'a4')})
            f = fn(R)
            names = [q['n'] for q in f['params']]
            m = {k: v for k, v in m.items() if k.split('.')[0] in names}
            ps = R.run(f, mem=m, hooks=page_hooks(R, message), unroll=90, assume=assume)

            def allowed(p):
                if p.out != out:
                    return False, 'outcome ' + p.outcome()
                try:
                    w = expected(p)
                except Unknown:
                    return False, 'does not depend on whether a text is given'
                return compare(p, display(p), w)
            ctx.paths_obey(rule, '%s %s' % (subject, config), ps, allowed, 'the page')
        ctx.attempt(rule, subject, f)

    V = lambda i: (lambda R: R.fns('drv::sc_page')[i])
    val, pos = P('value'), P('pos')
    TY = [('int', of_type('signed 32 bit integer'), of_type('std::string'), {}, ('app', 'tostr', val), None),
          ('string', of_type('std::string'), of_type('std::string'), {}, ('app', 'quoted', val), None),
          ('list', of_list('std::string'), of_list('std::string'), {'value': strlist('a', 'b c'), 'pos': strlist()}, S('["a", "b c"]'), '[]'),
          ('list', of_list('std::string'), of_list('std::string'), {'value': strlist(), 'pos': strlist('x')}, S('[]'), '["x"]')]

    def everything(ty, required, c1, c2, msg, default=None, listed=False, texts=None, lists=None):
        kind, t, pt, _, dflt, pdflt = ty
        m = ('. ', msg) if msg != S('') else ()
        lists = lists or {}

        def e(p):
            w = list(HEAD)
            if lists.get('synopsis'):
                w += [('section', S('Synopsis'))] + [('line', x, False) for x in lists['synopsis']]
            if lists.get('description'):
                w += [('section', S('Description'))] + [('line', x, True) for x in lists['description']]
            d = fld(P('c1'), 'description')
            tx = [d] + ([] if required else [' Default: ', default or dflt]) + list(m)
            w += [POSITIONALS, ('list_item', S('\\fBARGUMENT-1\\fP' + pt), J(fld(P('c3'), 'description'), *((' Default: ', pdflt) if pdflt else ()), *m)),
                  OPTIONS, ('list_item', S(ids(*c1) + t), J(*tx)), ('section', P('t1')), ('list_item', S(ids(*c2)), fld(P('c2'), 'description')),
                  ('subsection', P('t2')), ('line', P('t3'), True), ('list_item', P('t4'), P('t5'))]
            w += common(listed)
            if lists.get('examples'):
                w += [('section', S('Examples'))] + [('line', x, True) for x in lists['examples']]
            return w + version(p, texts) + legal(p, texts) + FOOT
        return e

    def ident(c1, c2):
        m = {'para': TRUE}
        m.update(conf('c1', c1[0] or None, c1[1], advanced=False, hidden=False))
        m.update(conf('c2', c2[0] or None, c2[1], advanced=False, hidden=False))
        return m
    INT, FLAG = ('i', 'int'), ('f', 'flag')
    for config in ('release', 'debug'):
        for page in PAGES:
            for i, ty in enumerate(TY):
                fn = V(min(i, 2))
                for c1, c2 in ((INT, FLAG), (('', 'int'), ('', 'flag')), (('i', ''), ('f', ''))):
                    if (c1 != INT or i) and page not in ('-h', 'html') and not ctx.thorough:
                        continue
                    for req in (False, True):
                        for msg in (S('PRE'), S('')):
                            if (c1 != INT or i) and (msg == S('') or req) and not ctx.thorough:
                                continue
                            m = ident(c1, c2)
                            m.update(ty[3])
                            m['c1.required'] = ('b', req)
                            go('everything in order', '%s %s%d %s%s%s' % (page, ty[0], i, ids(*c1).replace('\\fB', '').replace('\\fP', ''), ' required' * req, ' with message' * (msg != S(''))),
                               config, page, fn, m, everything(ty, req, c1, c2, msg), message=msg)
            if page == '-h' or ctx.thorough:
                for i, ty in enumerate(TY[:3]):
                    m = ident(INT, FLAG)
                    m.update(ty[3])
                    for dm, want in ((S('it "depends"'), S('"it \\"depends\\""')), (P('default_text'), ('app', 'quoted', P('default_text')))):
                        m['c1.default_message'] = dm
                        go('default message', '%s %s %s' % (page, ty[0], pp(dm)), config, page, V(min(i, 2)), dict(m),
                           everything(ty, False, INT, FLAG, S(''), want if i == 1 else dm), message=S(''), assume=[nonempty(dm)])
            m = dict(ident(INT, FLAG), un=I(0))
            go('everything in order', page + ' with version check', config, page, V(0), m, everything(TY[0], False, INT, FLAG, S('PRE'), listed=True), message=S('PRE'))
            # the description of the program
            some = {k: fld(P('meta'), k) for k in TEXTS}
            for k in [None] + LISTS + ['all']:
                ls = {x: [P('%s %d' % (x, j)) for j in (1, 2, 3)] for x in LISTS if k in (x, 'all')}
                if 'synopsis' in ls:
                    ls['synopsis'] = ['app IN', 'app']
                wl = dict(ls)
                if 'synopsis' in ls:
                    wl['synopsis'] = [S('\\fBapp\\fP IN'), S('\\fBapp\\fP')]
                m = dict(ident(INT, FLAG))
                m.update({'info.' + x: strlist(*ls[x]) for x in ls})
                go('texts about the program', '%s %s' % (page, k), config, page, V(0), m, everything(TY[0], False, INT, FLAG, S(''), lists=wl), message=S(''))
            for k in range(64):
                on = [x for j, x in enumerate(TEXTS) if k >> j & 1]
                if not ctx.thorough and len(on) not in (1, 6) and page not in ('-h',):
                    continue
                tx = {x: P('text ' + x) for x in on}
                m = dict(ident(INT, FLAG))
                m.update({'info.' + x: tx[x] for x in on})
                go('texts about the program', '%s %s' % (page, '+'.join(on)), config, page, V(0), m, everything(TY[0], False, INT, FLAG, S(''), texts=tx), message=S(''),
                   assume=[nonempty(x) for x in tx.values()])

        # the other pages
        for k in [None] + LISTS + TEXTS + ['all']:
            tx = {x: P('text ' + x) for x in TEXTS if k in (x, 'all')}
            ls = {x: [P('%s %d' % (x, j)) for j in (1, 2)] for x in LISTS if k in (x, 'all')}
            wl = dict(ls)
            if 'synopsis' in ls:
                ls['synopsis'], wl['synopsis'] = ['app IN', 'app'], [S('\\fBapp\\fP IN'), S('\\fBapp\\fP')]
            m = dict(ident(INT, FLAG))
            m.update({'info.' + x: strlist(*ls[x]) for x in ls})
            m.update({'info.' + x: tx[x] for x in tx})
            some = [nonempty(x) for x in tx.values()]
            go('version page', str(k), config, None, V(0), m, lambda p, tx=tx: HEAD + version(p, tx), args=['--version'], assume=some)
            go('short help', str(k), config, None, V(0), m, lambda p, wl=wl: HEAD + [('line', x, False) for x in wl.get('synopsis', [])] + [('line', mentions('-h', '--help'), None)],
               args=[], assume=some)

            def copyright(tx=tx, m=m, some=some):
                R = ctx.runner(config)
                mm = {'flag': FALSE, 'un': I(1), 'args': strlist('app', '--copyright'), 'a1': FALSE, 'a2': FALSE, 'a3': FALSE, 'a4': FALSE}
                mm.update(info())
                mm.update(conf('c3'))
                mm.update(m)
                ps = R.run(V(0)(R), mem=mm, hooks=page_hooks(R, S('')), unroll=90, assume=some)

                def allowed(p):
                    if p.out != 'exit':
                        return False, 'outcome ' + p.outcome()
                    t = written_text(p)
                    n = {k: sum(x == v for x in t) for k, v in tx.items()}
                    want = 'long_copyright' if 'long_copyright' in tx else 'short_copyright' if 'short_copyright' in tx else None
                    for k in ('long_copyright', 'short_copyright'):
                        if n.get(k, 0) != (k == want):
                            return (None if any(opaque(x) for x in t) else False), 'the %s is shown %d times' % (k, n.get(k, 0))
                    cs = ''.join(x[1] if x[0] == 's' else '' for x in t)
                    return 'Redistribution and use in source and binary forms' in cs and 'app' in cs, 'the license is missing'
                ctx.paths_obey('copyright page', '%s %s' % (k, config), ps, allowed, 'the page')
            ctx.attempt('copyright page', str(k), copyright)

        # subcommands are listed, each once, in alphabetical order
        for page in PAGES:
            for ns in ([], ['x'], ['run', 'build'], ['b-2', 'a', 'c', 'a', 'B_1']):
                def subs(p, ns=sorted(set(ns))):
                    w = list(HEAD)
                    if ns:
                        w += [('section', S('Subcommands')), ('line', filled, False)] + [('line', S('- \\fB%s\\fP' % x), False) for x in ns]
                        w += [('line', mentions('app %s -h' % ns[0]), True), ('line', mentions('\\fBbefore\\fP'), True)]
                    return w + [OPTIONS] + common(False) + version(p) + FOOT
                go('subcommands', '%s %s' % (page, ','.join(ns)), config, page, lambda R: R.fn('drv::sc_page_subcommands'), {'subs': strlist(*ns)}, subs)

        # several positional options and options: numbered and listed in the order of the calls
        def two(p):
            d = lambda c: fld(P(c), 'description')
            return (HEAD + [POSITIONALS, ('list_item', S('\\fBARGUMENT-1\\fP' + of_type('std::string')), d('c1')),
                            ('list_item', S('\\fBARGUMENT-2\\fP' + of_type('signed 32 bit integer')), d('c2')),
                            OPTIONS, ('list_item', S(ids('a', 'aa') + of_type('std::string')), J(d('c3'), ' Default: ', ('app', 'quoted', P('value1')))),
                            ('list_item', S(ids('b', 'bb') + of_type('signed 32 bit integer')), d('c4'))]
                    + common(False) + version(p) + FOOT)
        for page in PAGES:
            m = dict(conf('c3', 'a', 'aa', advanced=False, hidden=False))
            m.update(conf('c4', 'b', 'bb', advanced=False, hidden=False, required=True))
            go('several of a kind', page, config, page, lambda R: R.fn('drv::sc_page_two'), m, two)

        # the type of an option and its default
        def types(fn, positional):
            def f():
                R = ctx.runner(config)
                ty = next(q['t'] for q in fn['params'] if q['n'] == 'value')
                t, lst = value_type(ty)
                want = TYPES.get(t)
                m = {'args': strlist('app', '-h')}
                m.update(conf('c', *(() if positional else ('i', 'int')), advanced=False, hidden=False))
                if lst:
                    m['value'] = strlist()
                ps = R.run(fn, mem=m, hooks=page_hooks(R, S('')), unroll=90)

                def allowed(p):
                    if p.out != 'exit':
                        return False, 'outcome ' + p.outcome()
                    d = display(p)
                    if len(d) < 3:
                        return False, 'the page ends early'
                    x, desc = d[2][1], d[2][2]
                    if x[0] != 's':
                        return None if opaque(x) or not recognised(x) else False
                    a = '\\fBARGUMENT-1\\fP' if positional else '\\fB-i\\fP, \\fB--int\\fP'
                    if x[1] != a + (of_list if lst else of_type)(want):
                        return False, 'shown as %s' % pp(x)
                    if lst:
                        return same_text(p, desc, J(fld(P('c'), 'description'), ' Default: []'))
                    if positional:
                        return same_text(p, desc, fld(P('c'), 'description'))
                    ds = parts(desc)
                    if [y for y in ds if opaque(y)] or len(ds) != 3:
                        return None
                    return ds[:2] == [fld(P('c'), 'description'), S(' Default: ')] and 'value' in pp(ds[2]), 'shown as %s' % pp(desc)
                ctx.paths_obey('type and default', '%s of %s %s' % ('positional option' if positional else 'option', ty, config), ps, allowed, 'the page')
            ctx.attempt('type and default', str(fn['n']), f)
        R = ctx.runner(config)
        for n, positional in (('drv::sc_user_option', False), ('drv::sc_user_positional', True)):
            for fn in R.fns(n, sig=NOV):
                if value_type(next(q['t'] for q in fn['params'] if q['n'] == 'value'))[0] not in TYPES:
                    continue        # shown by the name the compiler gives it
                types(fn, positional)

        # what the validators say about the values they accept
        def message(name, mem, wants, subject):
            def f():
                R = ctx.runner(config)
                ps = R.run(R.fn('drv::' + name), mem=mem, unroll=40)

                def allowed(p):
                    if p.out != 'ok':
                        return False, 'outcome ' + p.outcome()
                    t = parts(p.value)
                    if opaque(p.value):
                        return None
                    at = 0
                    for w in wants:
                        if isinstance(w, str):
                            hit = [k for k in range(at, len(t)) if t[k][0] == 's' and w in t[k][1]]
                        else:
                            hit = [k for k in range(at, len(t)) if t[k] == w]
                        if not hit:
                            return False, 'the message is %s' % pp(p.value)
                        at = hit[0] + (0 if isinstance(w, str) else 1)
                    return True
                ctx.paths_obey('validator messages', '%s %s' % (subject, config), ps, allowed, 'the message does not name what is accepted')
            ctx.attempt('validator messages', subject, f)
        ts = lambda n: ('app', 'tostr', P(n))
        x, y = P('x'), P('y')
        message('m_range', {}, ['range', ts('lo'), ts('hi')], 'range')
        message('m_values', {'values': ('list', (x, y))}, ['one of', x, y], 'values')
        message('m_regex', {}, ['pattern', P('pattern')], 'regex')
        message('m_chain', {}, [('app', 'drv::opaque_%s::get_help_page_message' % k, ('list', ())) for k in 'abc'], 'chain')
        for v, w in (('input', 'must exist'), ('output', 'must not exist'), ('overwrite', 'Write permissions')):
            message('m_' + v, {'extensions': ('list', (x, y))}, [w, x, y], v + ' with extensions')
            message('m_' + v, {'extensions': strlist()}, [w], v + ' without extensions')


def value_type(t):
    t = t.rstrip(' &')
    for c in ('std::vector<', 'std::list<'):
        if t.startswith(c):
            inner = t[len(c):]
            if inner.startswith('std::basic_string<char'):
                return 'std::string', True
            return inner.split(',')[0].rstrip('> '), True
    if t.startswith('std::basic_string<char'):
        return 'std::string', False
    return t, False

