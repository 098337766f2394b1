"""Decision table of the update notifications: all paths of the decision whether the server is asked (developer, environment,
cookie directory, user, cookie, terminal and answer arbitrary) against the documented order of authority; the outcome, every
file that is written and every prompt. Then parse(): the server is only contacted on paths where the decision was positive,
the decision is taken once, with the developer's setting and what the user wrote, after the names were checked and before a
page is printed, and never for a sub parser."""
from common import *

OBJ = ('sym', ('o', '$obj'))
DEV, USR = P('developer_approval'), P('user_approval')
ENV = ('isnull', ('app', 'getenv', S('SHARG_NO_VERSION_CHECK')))
COOKIE_DIR = fld(OBJ, 'cookie_path')
COOKIE = fld(OBJ, 'timestamp_filename')
OFF = ('eqz', add(DEV, I(-1)))


def mention(t, x):
    return t == x or isinstance(t, tuple) and any(mention(y, x) for y in t)


def heads(t, h):
    return isinstance(t, tuple) and bool(t) and (t[0] == h or any(heads(y, h) for y in t))


def cookies(p):
    """texts written to the cookie, by opening; None when a write is not understood"""
    out = []
    order = [e for e in p.events if e[0] in ('open', 'write')]
    cur = None
    for e in order:
        if e[0] == 'open' and e[1] == 'w':
            cur = [e[2], e[3], []]
            out.append(cur)
        elif e[0] == 'write':
            if cur is None or e[1] != cur[0]:
                return None
            cur[2].append(e[2])
    res = []
    for path, n, ws in out:
        if path != COOKIE:
            return None
        t = cat(*ws) if ws else S('')
        if ws:
            parts = t[1] if t[0] == 'cat' else (t,)
            last = parts[-1]
            if len(parts) != 2 or last[0] != 's' or not last[1].startswith('\n') or not heads(parts[0], 'app') or \
                    "'now'" not in repr(parts[0]):
                return None
            res.append(last[1][1:].strip())
        else:
            res.append(None if p.val(('bapp', 'stream_is_open', path, I(n) if isinstance(n, int) else n)) is not True else '')
    return res


def recent(p, line):
    """the cookie is younger than a day: (verdict, understood)"""
    for a, v in p.F.order:
        if a[0] == 'fcmp' or (a[0] == 'bapp' and 'cmp' in str(a[1])):
            if a[0] != 'fcmp':
                return None, False
            op, x, y = a[1], a[2], a[3]
            if not (mention(x, line) and "'now'" in repr(x)):
                return None, False
            if x[:2] != ('app', 'f-') or "'now'" not in repr(x[2]) or not mention(x[3], line):
                return None, 'the age is not computed as now minus the stored time'
            if not re.search(r'(?<![\d.])86400(\.0*)?(?![\d.])', repr(y)):
                return None, 'the age is compared with %s' % pp(y)
            if op == '<':
                return v, True
            if op == '>=':
                return not v, True
            return None, 'the age is compared with %s' % op
    return None, True


def run(ctx):
    R = ctx.runner()

    def decide():
        f = R.fn('sharg::detail::version_checker::decide_if_check_is_performed')
        ps = R.run(f, limit=100000)

        def act(p):
            return [e for e in p.events if (e[0] == 'open' and e[1] == 'w') or e[0] in ('write', 'out', 'system', 'thread', 'fs')
                    or (e[0] == 'getline' and e[1] == 'std::cin')]

        def allowed(p):
            if p.out != 'ok':
                return False, p.outcome()
            val = p.value
            forbid = [n for n, c in (('the developer switched it off', OFF), ('the environment forbids it', Not(ENV)),
                                     ('there is no place for the cookie', Le(size(COOKIE_DIR)))) if p.val(c) is True]
            open_ = [n for n, c in (('the developer setting', OFF), ('the environment', Not(ENV)),
                                    ('the cookie directory', Le(size(COOKIE_DIR)))) if p.val(c) is None]
            if forbid:
                if val != FALSE:
                    return False, '%s, but the answer is %s' % (forbid[0], pp(val))
                return not act(p), '%s, but %s' % (forbid[0], pp(act(p)[0])[:120] if act(p) else '')
            if open_:
                return False, 'decides %s without looking at %s' % (pp(val), open_[0])
            u = p.val(('has', USR))
            if u is None:
                return False, 'decides without looking at the decision of the user'
            if u:
                w = ('truth', ('deref', USR))
                if act(p):
                    return False, 'the user decided, but ' + pp(act(p)[0])[:120]
                vals = [a for a, v in p.F.order if mention(a, USR) and a != ('has', USR)]
                if val in (TRUE, FALSE):
                    got = [v for a, v in p.F.order if a in vals]
                    return (got[-1:] == [val == TRUE]), 'the answer is %s' % pp(val)
                return mention(val, USR) and val[0] in ('truth', 'opt', 'deref', 'val', 'field', 'app'), 'the answer is ' + pp(val)
            # the cookie
            lines = [e[2] for e in p.events if e[0] == 'getline' and e[1] == 'file']
            reads = [e for e in p.events if e[0] == 'open' and e[1] == 'r']
            if any(e[2] != COOKIE for e in reads):
                return False, 'reads %s' % pp(reads[0][2])
            known = p.val(('fs', 'exists', COOKIE_DIR, I(0))) is True or p.val(('fs', 'exists', COOKIE, I(0))) is True
            seen = known and reads and p.val(('bapp', 'stream_is_open', COOKIE, I(reads[0][3]) if isinstance(reads[0][3], int) else reads[0][3])) is True
            if not seen and lines:
                return False, 'reads a cookie that is not there'
            if seen:
                if not lines:
                    return False, 'does not read the cookie'
                r, how = recent(p, lines[0])
                if how is not True:
                    return (False, how) if how else (None, 'age')
                if r is None:
                    return False, 'does not look at the age of the cookie'
                if r:
                    return val == FALSE and not act(p), 'the last check is younger than a day: %s %s' % (pp(val), act(p)[:1])
                if len(lines) < 2:
                    return False, 'does not read the decision'
                d = {w: p.val(eq_str(lines[1], S(w))) for w in ('NEVER', 'ALWAYS')}
                if d['NEVER'] or d['ALWAYS']:
                    return val == ('b', d['ALWAYS'] is True) and not act(p), 'the cookie says %s, the answer is %s' % (
                        'ALWAYS' if d['ALWAYS'] else 'NEVER', pp(val))
                if None in d.values():
                    return False, 'does not look at the decision in the cookie'
            # ask
            ws = cookies(p)
            if ws is None:
                return False, 'something else than time and decision is written to the cookie'
            t = [p.val(('eqz', ('app', 'isatty', I(n)))) for n in (0, 2)]
            prompts = [e for e in p.events if e[0] == 'out']
            ans = [e for e in p.events if e[0] == 'getline' and e[1] == 'std::cin']
            if not ws or ws[0] not in ('ASK', None):
                return False, 'the cookie is not renewed before asking: %s' % (ws,)
            first = next(i for i, e in enumerate(p.events) if e[0] == 'open' and e[1] == 'w')
            if any(e in prompts + ans for e in p.events[:first]):
                return False, 'asks before the cookie is renewed'
            if True in t:
                return val == FALSE and not prompts and not ans and len(ws) == 1, 'no terminal: %s %s' % (pp(val), pp(prompts[0])[:80] if prompts else '')
            if t != [False, False]:
                return False, 'asks without a terminal' if ans or prompts else 'decides without looking at the terminal'
            if len(ans) != 1 or not prompts or p.events.index(prompts[0]) > p.events.index(ans[0]):
                return False, 'one question and one answer are expected'
            if any(e[1] != 'std::cerr' for e in prompts):
                return False, 'the question is not written to the error stream'
            L = ans[0][2]
            c = {x: p.val(prefix(L, S(x))) for x in 'yan'}
            for x, ret, text in (('y', TRUE, None), ('a', TRUE, 'ALWAYS'), ('n', FALSE, 'NEVER')):
                if c[x]:
                    ok = val == ret and (ws[1:] == [] if text is None else len(ws) == 2 and ws[1] in (text, None))
                    return ok, 'answer %s: %s, cookie %s' % (x, pp(val), ws)
            if None in c.values():
                return False, 'the answer is not looked at'
            return val == FALSE and len(ws) == 1, 'any other answer: %s, cookie %s' % (pp(val), ws)
        ctx.paths_obey('decision', 'all situations', ps, allowed, 'the server is asked exactly when developer, environment, user, cookie and '
                       'answer allow it', minimum=20)
    ctx.attempt('decision', 'all situations', decide)

    # parse()
    h = version_cuts(decide=None)
    h.update(format_cuts(R, ()))
    f = R.fn('drv::sc_parse')
    A, B, UN = sym('A'), sym('B'), P('un')

    def row(subject, args, user, assume=(), subs=(), once=True, dev=None):
        def go():
            ps = R.run(f, mem={'name': S('app'), 'args': strlist('app', *args), 'subs': strlist(*subs)}, hooks=h, unroll=10, assume=list(assume))

            def allowed(p):
                cuts = [e for e in p.events if e[0] == 'cut' and e[1] != 'get_path']
                names = [e[1] for e in cuts]
                dec = [e for e in cuts if e[1] == 'decide']
                srv = [e for e in cuts if e[1] == 'server']
                if p.ev('system') or p.ev('thread'):
                    return False, 'starts something by itself'
                if len(dec) > 1 or len(srv) > 1:
                    return False, 'decided %d times, asked %d times' % (len(dec), len(srv))
                if srv and (not dec or dec[0][2] is not True or names.index('server') < names.index('decide')):
                    return False, 'the server is contacted without a positive decision'
                pages = [i for i, n in enumerate(names) if n.startswith('format_')]
                if not pages:
                    if p.exc and not dec:
                        return True
                    return p.out != 'ok', 'nothing is parsed or printed'
                if not dec:
                    return False, 'no decision was made'
                if names.index('decide') > pages[0]:
                    return False, 'the decision comes after the page'
                if dec[0][2] is True and (not srv or names.index('server') > pages[0]):
                    return False, 'a positive decision is not carried out before the page'
                if dec[0][3][0] != UN:
                    return False, 'the developer setting is ' + pp(dec[0][3][0])
                if user is not None and dec[0][3][1] != user:
                    return False, 'the user decision is %s instead of %s' % (pp(dec[0][3][1]), pp(user))
                return True
            ctx.paths_obey('parse', subject, ps, allowed, 'the server is contacted exactly on a positive decision')
        ctx.attempt('parse', subject, go)
    some = lambda b: ('some', ('b', b))
    none = ('none',)
    ordA = positional(A)
    row('nothing said', [A], none, ordA)
    row('no argument', [], none)
    for t, b in (('1', True), ('true', True), ('0', False), ('false', False)):
        row('--version-check %s' % t, ['--version-check', t], some(b))
        row('--version-check %s, then an argument' % t, ['--version-check', t, A], some(b), ordA)
        row('an argument, then --version-check %s' % t, [A, '--version-check', t], some(b), ordA)
        row('--version-check %s behind --' % t, ['--', '--version-check', t], none)
        row('--version-check %s and help' % t, ['--version-check', t, '--help'], some(b))
        row('help and --version-check %s' % t, ['--help', '--version-check', t], some(b))
    row('--version-check twice', ['--version-check', '1', '--version-check', '0'], some(False))
    for page in ('-h', '-hh', '--version', '--copyright'):
        row(page, [page], none)
    row('export', ['--export-help', 'man'], none)
    row('two arguments', [A, B], None)
    row('subcommand', ['-x', 'sub', A], none, no_builtin(A), subs=('sub', 'other'))
    row('subcommand, switched on', ['--version-check', '1', 'sub', A], some(True), no_builtin(A), subs=('sub', 'other'))
    row('subcommand, switched on behind it', ['sub', '--version-check', '1'], none, subs=('sub', 'other'))
    row('any argument, subcommands', [A, B], None, subs=('sub', 'other'))

    def subparser():
        n = 0
        for args in ([A], [A, B], ['sub', '--version-check', '1']):
            ps = R.run(f, mem={'name': S('app'), 'args': strlist('app', *args), 'subs': strlist('sub', 'other')}, hooks=h, unroll=10)
            for p in ps:
                n += len(p.ev('make_unique'))
            ctx.paths_obey('sub parser', 'arguments %s' % pp(strlist(*args)), ps, lambda p: (
                all(I(1) in e[2] for e in p.ev('make_unique')), 'the sub parser checks by itself'),
                'a sub parser never asks the server')
        if not n:
            raise Broken('no sub parser is created')
    ctx.attempt('sub parser', 'developer setting', subparser)
