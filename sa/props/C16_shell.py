"""Symbolic shell lexer: every command the library hands to the shell is assembled on all paths of the version check, for
output paths with arbitrary characters in arbitrary positions, application names of legal characters and arbitrary version
strings, and read as POSIX sh would read it. Text that is not a constant may only occur where the shell takes it literally;
the word behind the output flag must decode to the file the answer is read from later; nothing is printed; every other
place that runs a command is analysed the same way."""
import re
from common import *
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre

SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./:=,@%+')
LEGAL = ''.join(sorted(set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')))


def mask(cs):
    return sum(1 << ord(c) for c in cs)


CLASSES = {'[:digit:]': '0-9', '[:alpha:]': 'a-zA-Z', '[:alnum:]': 'a-zA-Z0-9', '[:space:]': r' \t\n\r\f\v', '[:w:]': 'a-zA-Z0-9_',
           '[:upper:]': 'A-Z', '[:lower:]': 'a-z', '[:xdigit:]': '0-9a-fA-F'}


def alphabet(pattern, group):
    """characters the text of a regex group may contain; None: unknown"""
    for k, v in CLASSES.items():
        pattern = pattern.replace(k, v)
    try:
        tree = sre.parse(pattern)
    except Exception:
        return None
    found = []

    def chars(t):
        out = set()
        for op, av in t:
            op = str(op)
            if op == 'LITERAL':
                out.add(chr(av))
            elif op == 'IN':
                for o, a in av:
                    o = str(o)
                    if o == 'LITERAL':
                        out.add(chr(a))
                    elif o == 'RANGE':
                        out |= {chr(x) for x in range(a[0], a[1] + 1)}
                    elif o == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
                        out |= set('0123456789')
                    else:
                        return None
            elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
                c = chars(av[2])
                if c is None:
                    return None
                out |= c
            elif op == 'SUBPATTERN':
                c = chars(av[-1])
                if c is None:
                    return None
                out |= c
            elif op == 'BRANCH':
                for b in av[1]:
                    c = chars(b)
                    if c is None:
                        return None
                    out |= c
            elif op == 'AT':
                pass
            elif op == 'ANY':
                out |= {chr(x) for x in range(1, 256)} - {'\n'}
            else:
                return None
        return out

    def walk(t):
        for op, av in t:
            if str(op) == 'SUBPATTERN':
                if av[0] == group:
                    found.append(av[-1])
                walk(av[-1])
            elif str(op) in ('MAX_REPEAT', 'MIN_REPEAT'):
                walk(av[2])
            elif str(op) == 'BRANCH':
                for b in av[1]:
                    walk(b)
    if group == 0:
        found.append(tree)
    else:
        walk(tree)
    return chars(found[0]) if found else None


def atoms_of(t):
    """the term as a sequence of single constant characters and non-constant parts"""
    for q in (t[1] if t[0] == 'cat' else (t,)):
        if q[0] == 's':
            for c in q[1]:
                yield c
        else:
            yield q


def may_be(p, q, bad):
    """a non-constant part may contain one of these characters: True | False | None"""
    if q[0] == 'ch1':
        if p.val(In(q[1], mask(bad))) is False:
            return False
        if q[1][0] == 'i':
            return chr(q[1][1]) in bad
        return True if recognised(q[1]) or q[1][0] == 'sym' else None
    if q[0] == 'app' and q[1] == 'group' and q[2][0] == 'app' and q[2][1] == 'match' and q[3][0] == 'i':
        rx = q[2][3]
        if rx[0] == 'app' and rx[1] == 'regex' and rx[2][0] == 's':
            a = alphabet(rx[2][1], q[3][1])
            return None if a is None else bool(a & set(bad))
        return None
    if q[0] == 'sym':
        return True
    if q[0] == 'app' and q[1] in ('to_string', 'fmt'):
        return False
    return True if not opaque(q) else None


def lex(p, t):
    """words of the command as sh reads it: ('words', [list of parts], operators) | ('bad', reason) | ('unknown', reason)"""
    words, cur, inword, mode = [], [], False, ''
    ops = []
    it = iter(list(atoms_of(t)))
    esc = False
    for a in it:
        const = isinstance(a, str)
        if esc:
            if not const:
                return 'bad', 'a backslash is followed by %s' % pp(a)
            cur.append(a)
            esc, inword = False, True
            continue
        if mode == "'":
            if const and a == "'":
                mode = ''
            elif const:
                cur.append(a)
            else:
                b = may_be(p, a, "'")
                if b is None:
                    return 'unknown', 'unknown text inside single quotes: %s' % pp(a)
                if b:
                    return 'bad', '%s may end the quoted text' % pp(a)
                cur.append(a)
            continue
        if mode == '"':
            if const and a == '"':
                mode = ''
            elif const:
                if a in '$`\\':
                    return 'unknown', 'expansion in a constant part'
                cur.append(a)
            else:
                b = may_be(p, a, '"$`\\')
                if b is None:
                    return 'unknown', 'unknown text inside double quotes: %s' % pp(a)
                if b:
                    return 'bad', '%s may be expanded or end the quoted text' % pp(a)
                cur.append(a)
            continue
        if not const:
            b = may_be(p, a, ''.join(chr(c) for c in range(1, 256) if chr(c) not in SAFE))
            if b is None:
                return 'unknown', 'unknown text read by the shell: %s' % pp(a)
            if b:
                return 'bad', '%s is read by the shell unquoted' % pp(a)
            cur.append(a)
            inword = True
        elif a in '\'"':
            mode, inword = a, True
        elif a == '\\':
            esc = True
        elif a in ' \t\n;|&<>()':
            if inword:
                words.append(cur)
            cur, inword = [], False
            if a not in ' \t':
                words.append(('op', a))
        elif a in '$`*?[#~':
            return 'unknown', 'the constant part uses %s' % a
        else:
            cur.append(a)
            inword = True
    if mode or esc:
        return 'bad', 'unbalanced quoting'
    if inword:
        words.append(cur)
    return 'words', words


def text(w):
    return cat(*[S(c) if isinstance(c, str) else c for c in w])


def ground(p, t):
    """characters the facts determine replaced by themselves"""
    def one(q):
        if q[0] == 'ch1' and q[1][0] != 'i':
            for c in range(1, 127):
                if p.val(In(q[1], 1 << c)) is True:
                    return S(chr(c))
        return q
    return cat(*[one(q) for q in (t[1] if t[0] == 'cat' else (t,))])


def plain(w):
    return ''.join(w) if isinstance(w, list) and all(isinstance(c, str) for c in w) else None


def commands(p):
    """(text, where) of everything handed to a shell on this path or by a thread it starts, in order"""
    res = [(e[1], e[-1]) for e in p.events if e[0] == 'system']
    for e, qs in spawned(p):
        for q in qs:
            res += [(x[1], x[-1]) for x in q.events if x[0] == 'system']
    return list(dict.fromkeys(res))


def version_file(p):
    for e in p.events:
        if e[0] == 'open' and e[1] == 'r':
            return e[2]
    return None


def run(ctx):
    R = ctx.runner()
    fn = R.fn('drv::sc_version')
    URL = None

    def analyse(subject, path, name, assume, version=None):
        def go():
            R = ctx.runner(conf_)
            mem = {'name': name}
            if version is not None:
                mem['version'] = version
            mem['url'] = S('')
            ps = R.run(R.fn('drv::sc_version'), hooks={'sharg::detail::version_checker::get_path': cut('get_path', path),
                       'sharg::detail::version_checker::get_numbers_from_version_string': cut('numbers', ('list', (I(0), I(0), I(0))))},
                       mem=mem, assume=assume, limit=100000, unroll=90)
            asked = [p for p in ps if any(plain_or(t) for t, _ in commands(p))]

            def literal(p):
                unk = None
                for t, w in commands(p):
                    k, v = lex(p, t)
                    if k == 'bad':
                        return False, '%s in %s at %s' % (v, pp(t), w)
                    if k == 'unknown':
                        unk = v
                return (None, unk) if unk else True
            ctx.paths_obey('text that is not constant is only ever read literally by the shell', subject, ps, literal,
                           'a command for the shell contains text the shell would interpret')

            def file(p):
                want = version_file(p)
                for t, w in commands(p):
                    if t[0] == 's':
                        continue
                    k, ws = lex(p, t)
                    if k != 'words':
                        return None
                    outs = [ws[i + 1] for i in range(len(ws) - 1) if plain(ws[i]) in ('-O', '-o', '-Vo')]
                    if len(outs) != 1 or isinstance(outs[0], tuple):
                        return None
                    if want is None:
                        return None
                    r = same(p, ground(p, text(outs[0])), ground(p, want))
                    if r is not True:
                        return r, 'the answer goes to %s, the file read is %s' % (pp(text(outs[0])), pp(want))
                return True
            ctx.paths_obey('the answer is stored in the file that is read later', subject, asked, file,
                           'the word behind the output flag is another file')

            def url(p):
                for t, w in commands(p):
                    if t[0] == 's':
                        continue
                    k, ws = lex(p, t)
                    if k != 'words':
                        return None
                    us = [x for x in ws if isinstance(x, list) and text(x)[0] in ('s', 'cat') and pp(text(x)).lstrip("('\"").startswith('http')]
                    if len(us) != 1:
                        return False, '%d addresses in %s' % (len(us), pp(t))
                    u = text(us[0])
                    v = S('0.0.0')
                    if version is not None:
                        v = version
                    elif p.val(('bapp', 'regex_search', P('version'), VRX)) is True:
                        v = ('app', 'group', ('app', 'match', P('version'), VRX), I(1))
                    tail = cat(name, S('_'), v)
                    parts = list(u[1]) if u[0] == 'cat' else [u]
                    want = list(tail[1]) if tail[0] == 'cat' else [tail]
                    if want[-1] == ('s', '_0.0.0'):
                        pass
                    n = len(want)
                    got = parts[-n:]
                    if name[0] == 's':
                        return None
                    if got != want:
                        return False, 'the address ends in %s' % pp(cat(*got))
                    if parts[0][0] != 's' or not parts[0][1].startswith('https://'):
                        return False, 'the address is %s' % pp(u)
                return True
            ctx.paths_obey('the request names the application and its version over https', subject, asked, url, 'the address is another one')

            def silent(p):
                for t, w in commands(p):
                    k, ws = lex(p, t)
                    if k != 'words':
                        return None
                    tail = ''.join(x[1] if isinstance(x, tuple) else '{' + (plain(x) or '?') + '}' for x in ws)
                    i = tail.find('>')
                    if i < 0 or tail[i:] not in ('>{/dev/null}{2}>&{1}', '>{/dev/null}{2}>{/dev/null}'):
                        return False, 'the output of %s is not discarded' % pp(t)
                return True
            ctx.paths_obey('the command prints nothing', subject, ps, silent, 'a command may write to the terminal')
        ctx.attempt('shell', subject, go, subject)

    def plain_or(t):
        return t[0] != 's'
    VRX = ('app', 'regex', S('^([[:digit:]]+\\.[[:digit:]]+\\.[[:digit:]]+).*'))
    for conf_ in ('release', 'debug'):
        for m in ((1, 2, 3) if ctx.thorough else (2,) if conf_ == 'debug' else (1, 2)):
            ns = [sym('n%d' % i) for i in range(m)]
            name = cat(*[('ch1', x) for x in ns])
            legal = [(In(x, mask(LEGAL)), True) for x in ns]
            for where in ((0, 0), (1, 0), (2, 0), (1, 1)) + (((3, 0), (2, 2), (3, 1)) if ctx.thorough else ()):
                cs = [('ch1', sym('c%d' % i)) for i in range(sum(where))]
                path = cat(S('/h'), *cs[:where[0]], S('o/m'), *cs[where[0]:], S('e'))
                analyse('%s, application name of %d characters, %d arbitrary characters in the directory%s' % (
                    conf_, m, sum(where), ', in two places' if where[1] else ''), path, name, legal)

    ctx.attempt('sites', 'sites', lambda: every_site(ctx), 'sites')

    # parse() only starts a check for a legal name
    def named(subs):
        def go():
            R = ctx.runner('release')
            h = version_cuts(decide=None)
            h.update(format_cuts(R, ()))
            ps = R.run(R.fn('drv::sc_parse'), mem={'args': strlist('app', *(subs or ('x',))), 'subs': strlist(*subs)}, hooks=h, unroll=10)

            def allowed(p):
                for e in cuts_of(p, 'server') + cuts_of(p, 'decide'):
                    if p.val(exists(P('name'), ('cset', ALL & ~mask(LEGAL)))) is not False:
                        return False, 'contacted for an application name with other characters'
                    obj = e[5]
                    if obj is None:
                        return None
                return True
            ctx.paths_obey('only legal application names reach the request', 'subcommands: %d' % len(subs), ps, allowed,
                           'the name of the application is not checked before the request', minimum=3)
            ctx.paths_obey('a request can be made at all', 'subcommands: %d' % len(subs), [p for p in ps if cuts_of(p, 'server')],
                           lambda p: True, '')
        ctx.attempt('names', 'subcommands: %d' % len(subs), go)
    named(())
    named(('build',))


RUNNERS = {'system', 'std::system', 'popen', '_popen', 'execl', 'execlp', 'execle', 'execv', 'execvp', 'execvpe', 'execve', 'posix_spawn', 'posix_spawnp', 'wordexp'}


def calls(t):
    if isinstance(t, dict):
        yield t
        for v in t.values():
            if isinstance(v, (dict, list)):
                yield from calls(v)
    elif isinstance(t, list):
        for v in t:
            if isinstance(v, (dict, list)):
                yield from calls(v)


def every_site(ctx):
    """functions that run a command outside the version check: their text must be constant or quoted as well"""
    for config in ('release', 'debug'):
        R = ctx.runner(config)
        covered = set()
        ps = R.run(R.fn('drv::sc_version'), hooks={'sharg::detail::version_checker::get_path': cut('get_path', S('/home/u'))},
                   mem={'name': S('app')}, unroll=90)
        for p in ps[:400]:
            spawned(p)
            covered |= {n for n, _ in p.E.stats['functions']} - {'sharg::detail::version_checker::get_path'}
            break
        n = 0
        for f in R.p.fn.values():
            names = {c['f'].get('n') for c in calls(f.get('body')) if isinstance(c.get('f'), dict) and c.get('k') == 'call'}
            hit = sorted(x for x in names if x in RUNNERS)
            if not hit or f['n'].startswith('std::'):
                continue
            n += 1
            subject = '%s, %s in %s' % (config, '/'.join(hit), f['n'])
            if f['n'] in covered:
                ctx.ok('every command is covered', subject, 'part of the version check')
                continue
            if hit != ['system'] and hit != ['std::system']:
                ctx.undecided('every command is covered', subject, 'not modelled')
                continue

            def literal(p):
                for t, w in commands(p):
                    k, v = lex(p, t)
                    if k != 'words':
                        return (False if k == 'bad' else None), '%s in %s' % (v, pp(t))
                return True
            ctx.attempt('every command is covered', subject, lambda: ctx.paths_obey(
                'text that is not constant is only ever read literally by the shell', subject,
                R.run(f, unroll=90), literal, 'a command contains text the shell would interpret'))
        if not n:
            ctx.undecided('every command is covered', config, 'no command found')
