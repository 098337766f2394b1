"""Decision table of the update notices: all paths of the version check (file there or not, any two lines in it, any
application version, any outcome of the searches for a download program). The notices printed on a path must be exactly
those whose documented condition holds there, on the error stream, and nothing else; the answer of the check is delivered
exactly once, by the check or by the thread it started; the request uses a program that was found."""
from common import *

VRX = ('app', 'regex', S('^[[:digit:]]+\\.[[:digit:]]+\\.[[:digit:]]+$'))
MSG = {'app': 'A new version of this application is now available', 'unregistered': 'Do you wish to register your app',
       'sharg': 'A new Sharg version is available online', 'registered': 'newer than the one registered with us'}


def conv_chain(t):
    """(text, index) when t is number `index` of the dotted numbers at the start of text"""
    k = 0
    if t[:2] != ('app', 'conv') or t[3] != S('int'):
        return None
    r = t[2]
    while True:
        if r[0] != 'range':
            return (r, k) if not opaque(r) else None
        first = r[1]
        if first[:2] == ('app', 'ptr+') and first[2][0] == 'fcptr' and first[3] == I(1) and r[2] == I(0):
            r = first[2][1]
            k += 1
            continue
        if r[2] != I(0) or opaque(first):
            return None
        return first, k


def version_of(l):
    """the text an array of three numbers was read from, or the constant triple"""
    if l[0] != 'list' or len(l[1]) != 3:
        return None
    if all(x[0] == 'i' for x in l[1]):
        return tuple(x[1] for x in l[1])
    cs = [conv_chain(x) for x in l[1]]
    if None in cs or len({c[0] for c in cs}) != 1 or [c[1] for c in cs] != [0, 1, 2]:
        return None
    return cs[0][0]


VOCABULARY = {'conv', 'range', 'ptr+', 'fcptr', 'sym', 'line', 'i', 's', 'size', 'group', 'match', 'regex', 'app', 'list'}


def misread(l):
    """the numbers of an array come from understood places that are not the three numbers of one version"""
    def words(t):
        if isinstance(t, tuple):
            if t and isinstance(t[0], str):
                if t[0] not in VOCABULARY:
                    return False
                if t[0] in ('s', 'i', 'sym'):
                    return True
                if t[0] == 'app' and t[1] not in VOCABULARY:
                    return False
            return all(words(x) for x in t[1:] if isinstance(x, tuple)) if t and isinstance(t[0], str) else all(words(x) for x in t)
        return True
    return l[0] == 'list' and version_of(l) is None and words(l)


def understood(p, texts):
    """every fact of the path about these texts is of a kind the conditions look at"""
    for a, v in p.F.order:
        if not any(repr(t) in repr(a) for t in texts):
            continue
        if a[0] in ('eq', 'prefix', 'le') or a[:2] == ('bapp', 'regex_match') and alike(a[3]) or a[:2] == ('bapp', 'regex_search'):
            continue
        if a[0] == 'eqz' and (conv_chain(a[1]) or a[1][:2] == ('app', 'system')):
            continue
        if a[:2] == ('bapp', 'array<') and version_of(a[2]) and version_of(a[3]):
            continue
        return False
    return True


def numeric(p, t):
    for a, v in p.F.order:
        if a[0] == 'prefix' and a[1] == t and a[2][0] == 's' and a[2][1] and not a[2][1][0].isdigit() and p.val(a) is True:
            return False
        if a[0] == 'eq' and t in a[1:] and p.val(a) is True:
            o = [x for x in a[1:] if x != t]
            if o and o[0][0] == 's':
                import re
                return re.fullmatch('[0-9]+\\.[0-9]+\\.[0-9]+', o[0][1]) is not None
    for a, v in p.F.order:
        if a[:2] == ('bapp', 'regex_match') and a[2] == t:
            if alike(a[3]):
                return p.val(a)
    return None


def alike(rx):
    return rx[0] == 'app' and rx[1] == 'regex' and rx[2][0] == 's' and \
        rx[2][1].strip('^$').replace('[0-9]', '[[:digit:]]').replace('\\d', '[[:digit:]]') == VRX[2][1].strip('^$')


def less(p, x, y):
    """x < y as versions, from the comparisons made on the path: True | False | None"""
    if isinstance(x, tuple) and isinstance(y, tuple) and all(isinstance(v, int) for v in x + y):
        return x < y
    for a, v in p.F.order:
        if a[:2] == ('bapp', 'array<') and (version_of(a[2]), version_of(a[3])) == (x, y):
            return p.val(a)
    return None


def is_zero(p, t):
    """the numbers of t are 0.0.0"""
    if isinstance(t, tuple) and all(isinstance(v, int) for v in t):
        return t == (0, 0, 0)
    out = []
    for a, v in p.F.order:
        if a[0] == 'eqz':
            c = conv_chain(a[1])
            if c and c[0] == t:
                out.append(p.val(a))
    if False in out:
        return False
    return True if len(out) == 3 else None


def printed(p):
    """notice -> texts; 'other' for anything else"""
    out = {}
    for e in p.events:
        if e[0] == 'out' and e[2] != S(''):
            t = e[2]
            body = repr(t)
            k = [n for n, m in MSG.items() if m in body]
            k = k[0] if len(k) == 1 and 'cerr' in str(e[1]) else 'other'
            out.setdefault(k, []).append(t)
    return out


def run(ctx):
    lib = None
    for l in open(INC + 'version.hpp'):
        pass
    import re as _re
    v = open(INC + 'version.hpp').read()
    lib = tuple(int(_re.search(r'define\s+SHARG_VERSION_%s\s+(\d+)' % n, v).group(1)) for n in ('MAJOR', 'MINOR', 'PATCH'))

    def table(config):
        R = ctx.runner(config)
        ps = R.run(R.fn('drv::sc_version'), hooks={'sharg::detail::version_checker::get_path': cut('get_path', S('/home/u'))},
                   mem={'name': S('app')}, unroll=90, limit=100000)
        APP = ('app', 'group', ('app', 'match', P('version'), ('app', 'regex', S('^([[:digit:]]+\\.[[:digit:]]+\\.[[:digit:]]+).*'))), I(1))

        def situation(p):
            op = [e for e in p.events if e[0] == 'open']
            opened = None
            for a, v in p.F.order:
                if a[:2] == ('bapp', 'stream_is_open') and op and a[2] == op[0][2]:
                    opened = p.val(a)
            lines = [e[2] for e in p.events if e[0] == 'getline']
            l1 = lines[0] if opened and lines else None
            l2 = lines[1] if opened and len(lines) > 1 else None
            app = None
            for a, v in p.F.order:
                if a[:2] == ('bapp', 'regex_search') and a[2] == P('version'):
                    app = ('app', 'group', ('app', 'match', P('version'), a[3]), I(1)) if p.val(a) else S('0.0.0')
            if p.val(Le(size(P('version')))) is True:
                app = S('0.0.0')
            return opened, l1, l2, app

        def holds(*cs):
            return False if False in cs else None if None in cs else True

        def conditions(p):
            opened, l1, l2, app = situation(p)
            c = dict.fromkeys(MSG, False)
            if opened is False:
                return c
            if opened is None or l1 is None:
                return None
            unreg = p.val(eq_str(l1, S('UNREGISTERED_APP')))
            known = holds(None if unreg is None else not unreg, numeric(p, l1), None if is_zero(p, l1) is None else not is_zero(p, l1))
            if app is not None and numeric(p, app) is False:
                app = (0, 0, 0)
            if config == 'release':
                c['app'] = holds(known, None if app is None else less(p, app, l1))
            else:
                c['unregistered'] = unreg
                c['registered'] = holds(known, None if app is None else less(p, l1, app))
                c['sharg'] = False if l2 is None else holds(numeric(p, l2), None if is_zero(p, l2) is None else not is_zero(p, l2), less(p, lib, l2))
            return c

        def notices(p):
            if p.out != 'ok':
                return False, 'outcome ' + p.outcome()
            got = printed(p)
            if 'other' in got:
                return False, 'prints %s' % pp(got['other'][0])
            c = conditions(p)
            if c is None:
                return None, 'the situation is not understood'
            unk = None
            for a, v in p.F.order:
                if a[:2] == ('bapp', 'array<'):
                    for l in a[2:]:
                        if misread(l):
                            return False, 'compares the numbers %s' % pp(l)[:600]
            sit = situation(p)
            for k in MSG:
                if c[k] is None:
                    if understood(p, [x for x in sit[1:] if x is not None]):
                        return False, 'the notice "%s" is %s although its condition may be %s here' % (
                            MSG[k], 'printed' if k in got else 'not printed', 'false' if k in got else 'true')
                    unk = k
                elif c[k] != (k in got):
                    return False, 'the notice "%s" is %s' % (MSG[k], 'missing' if c[k] else 'printed')
                elif len(got.get(k, ())) > 1:
                    return False, 'the notice "%s" is printed twice' % MSG[k]
            for t in got.get('app', ()):
                hasurl = p.val(Le(size(P('url')))) is False
                if hasurl != ("'$url'" in repr(t)):
                    return False, 'the address for updates is %s' % ('missing' if hasurl else 'printed although there is none')
            return (None, 'unknown: ' + unk) if unk else True
        ctx.paths_obey('a notice is printed exactly when its documented condition holds', config, ps, notices, 'wrong notice', minimum=20)
        for k in MSG:
            if (k == 'app') == (config == 'release'):
                ctx.paths_obey('the situation that calls for the notice exists', config + ', ' + k,
                               [p for p in ps if k in printed(p)], lambda p: True, '')

        def file(p):
            op = [e for e in p.events if e[0] == 'open']
            if [e for e in op if e[1] != 'r'] or [e for e in p.events if e[0] in ('fs', 'write')]:
                return False, 'changes files'
            for e in op:
                if e[2] != S('/home/u/app.version'):
                    return False, 'reads %s' % pp(e[2])
            return True
        ctx.paths_obey('only the stored answer for this application is read, nothing is written', config, ps, file, 'wrong file')

        def once(p):
            sets = [e for e in p.events if e[0].startswith('promise_set')]
            ts = spawned(p)
            if not ts:
                return len(sets) == 1, 'the answer is delivered %d times' % len(sets)
            unk = None
            for e, qs in ts:
                for q in qs:
                    n = len(sets) + len([x for x in q.events if x[0].startswith('promise_set')])
                    if q.opq:
                        unk = True
                    elif q.out != 'ok':
                        return False, 'the thread ends with %s' % q.outcome()
                    elif n != 1 or len(ts) != 1:
                        return False, 'the answer is delivered %d times' % n
                    for x in q.events:
                        if x[0] == 'out':
                            return False, 'the thread prints'
                    if [x for x in q.events if x[0] == 'system'] == []:
                        return False, 'the thread makes no request'
            return None if unk else True
        ctx.paths_obey('the answer of the check is delivered exactly once', config, ps, once, 'the promise is broken or fulfilled twice')

        def program(p):
            ok, tried = [], []
            for e in p.events:
                if e[0] == 'system' and e[1][0] == 's':
                    w = e[1][1].split()
                    tried.append(w[2] if len(w) > 2 else '?')
            for a, v in p.F.order:
                if a[0] == 'eqz' and a[1][:2] == ('app', 'system') and a[1][2][0] == 's' and p.val(a) is True:
                    ok.append(a[1][2][1].split()[2])
            asked = []
            for e, qs in spawned(p):
                for q in qs:
                    for x in q.events:
                        if x[0] == 'system':
                            t = x[1][1][0] if x[1][0] == 'cat' else x[1]
                            if t[0] != 's' or len(t[1].split()) < 3:
                                return None
                            asked.append(t[1].split()[2])
            if bool(ok) != bool(asked):
                return False, 'programs found: %s, used: %s' % (ok, asked)
            return set(asked) <= set(ok), 'programs found: %s, used: %s' % (ok, asked)
        ctx.paths_obey('the request uses a download program that was found, and is made when there is one', config, ps, program, 'wrong program')
    for config in ('release', 'debug'):
        ctx.attempt('notices', config, lambda: table(config))
