"""Decision tables of the file and directory validators: every answer of every file system query and every failing call, and
file names of fixed length with arbitrary characters against lists of extensions. A path of the analysis may only accept
when it has seen everything that is required, and only reject when it has seen a reason; nothing but validation_error leaves
a validator. Extensions are compared with the documented rule on every combination of characters that can take the path."""
import itertools
from common import *
from models import chs

VALIDATORS = ['input_file_validator', 'input_directory_validator', 'output_file_validator', 'output_directory_validator']
STREAM = ('stream_is_open', 'stream_good', 'stream_ok', 'stream_fail', 'stream_bad')


def fsq(p, kind, q):
    """the last known answer of a query about q"""
    r = None
    best = -1
    for a, v in p.F.order:
        if a[0] == 'fs' and a[1] == kind and a[2] == q and a[3][0] == 'i' and a[3][1] >= best and p.val(a) is not None:
            best, r = a[3][1], p.val(a)
    return r


def streams(p, q):
    """(answers of the stream queries, ...) for the streams opened on q"""
    out = {}
    for a, v in p.F.order:
        if a[0] == 'bapp' and str(a[1]).startswith('stream_') and a[2] == q:
            out[a[1]] = p.val(a)
    return out


def fserrs(p):
    return [a for a, v in p.F.order if a[:2] == ('bapp', 'fserr') and p.val(a) is True]


def opened(p, q, mode):
    return any(e[0] == 'open' and e[1] == mode and e[2] == q for e in p.events)


def under(q, d):
    return q[:2] == ('app', 'path/') and q[2] == d or opaque(q)     # a name chosen in a loop


def broken(p):
    """an error of the operating system was met"""
    return bool(fserrs(p)) or any(e[0] == 'stdthrow' for e in p.events)


def unreadable(p, q):
    s = streams(p, q)
    return s.get('stream_is_open') is False or s.get('stream_good') is False or s.get('stream_ok') is False or True in (s.get('stream_fail'), s.get('stream_bad'))


def usable(p, q, mode):
    s = streams(p, q)
    if not opened(p, q, mode):
        return False
    if unreadable(p, q):
        return False
    return True if s.get('stream_is_open') or s.get('stream_good') or s.get('stream_ok') or s.get('stream_fail') is False else None


def input_file(p, f):
    yes = fsq(p, 'is_regular_file', f) and usable(p, f, 'r')
    no = False in (fsq(p, 'exists', f), fsq(p, 'is_regular_file', f)) or fsq(p, 'is_directory', f) is True or unreadable(p, f) or broken(p)
    return yes, no


def input_directory(p, f):
    listed = any(e[0] == 'fs' and e[1] == 'list_directory' and e[2] == f for e in p.events) and not broken(p)
    yes = fsq(p, 'is_directory', f) and listed
    no = False in (fsq(p, 'exists', f), fsq(p, 'is_directory', f)) or broken(p)
    return yes, no


def output_file(new):
    def rule(p, f):
        yes = fsq(p, 'is_directory', f) is False and usable(p, f, 'w')
        no = fsq(p, 'is_directory', f) is True or unreadable(p, f) or broken(p)
        if new:
            yes = yes and fsq_first(p, 'exists', f) is False
            no = no or fsq_first(p, 'exists', f) is True
        return yes, no
    return rule


def fsq_first(p, kind, q):
    for a, v in p.F.order:
        if a[0] == 'fs' and a[1] == kind and a[2] == q and a[3] == I(0):
            return p.val(a)
    return None


def output_directory(p, f):
    probes = [e[2] for e in p.events if e[0] == 'open' and e[1] == 'w' and under(e[2], f)]
    yes = bool(probes) and all(usable(p, q, 'w') for q in probes) and not [a for a in fserrs(p) if a[2] == 'create_directory']
    made = any(e[0] == 'fs' and e[1] in ('create_directory', 'create_directories') and e[2] == f for e in p.events)
    yes = yes and (made or fsq_first(p, 'exists', f) is True)
    no = any(unreadable(p, q) for q in probes) or broken(p) or any(a[0] == 'fs' and a[1] == 'is_directory' and under(a[2], f) and p.val(a) is True for a, v in p.F.order) \
        or fsq(p, 'is_directory', f) is False
    return yes, no


def table(rule, f):
    def allowed(p):
        yes, no = rule(p, f)
        if p.out == 'exit':
            return True if broken(p) else (False, 'the program ends')
        if p.out == 'ok':
            return bool(yes), 'accepted although not everything required was found'
        if p.exc != 'sharg::validation_error':
            return False, 'outcome ' + p.outcome()
        return (True if no else False), 'rejected although nothing is wrong'
    return allowed


def candidates(v):
    return {'input_file_validator': [('', {}, input_file)], 'input_directory_validator': [('', {}, input_directory)],
            'output_directory_validator': [('', {}, output_directory)]}[v]


# ------------------------------------------------------------------ extensions

def valid_name(name, exts):
    """the documented rule on a concrete file name"""
    if not exts:
        return True
    if name in ('', '.', '..') or '.' not in name[1:]:
        return False
    n = name[1:] if name[0] == '.' else name

    def low(s):
        return ''.join(c.lower() if ord(c) < 128 else c for c in s)
    for e in exts:
        if low(n).endswith(low(e)) and (e == '' or e[0] == '.' or len(e) == len(n) or n[-len(e) - 1] == '.'):
            return True
    return False


def names_of(p, cs, exts):
    """concrete file names that take this path: every combination of distinguishable characters"""
    per = []
    used = set('.') | {x for e in exts for c in e for x in (c.lower(), c.upper())}
    for c in cs:
        can = [chr(b) for b in range(1, 256) if p.val(In(c, 1 << b)) is not False]
        rep = [x for x in can if x in used]
        other = [x for x in can if x not in used]
        plain = [x for x in other if x.isalpha() and ord(x) < 128]
        rep += (plain or other)[:1]
        if other and ord(other[-1]) >= 128:
            rep.append(other[-1])
        per.append(rep)
    return per


def run(ctx):
    for config in ('release', 'debug'):
        for v in VALIDATORS:
            ctx.attempt('states', config + v, lambda: states(ctx, config, v))
        ctx.attempt('lists', config, lambda: lists(ctx, config))
    for v in ('input_file_validator', 'output_file_validator'):
        for exts in EXTS + (MORE if ctx.thorough else []):
            for n in range(1, (7 if ctx.thorough else 6)):
                ctx.attempt('extensions', '%s %s %d' % (v, exts, n), lambda: extensions(ctx, v, exts, n))


def entry(R, v):
    fs = [f for f in R.p.functions('sharg::%s::operator()' % v) if 'std::filesystem::path' in f['params'][0]['t'] and 'vector' not in f['params'][0]['t']]
    if not fs:
        raise Broken('%s not found' % v)
    return fs[0], P(fs[0]['params'][0]['n'])


def states(ctx, config, v):
    R = ctx.runner(config)
    f, par = entry(R, v)
    if v == 'output_file_validator':
        values = R.p.enums['sharg::output_file_open_options']['v']
        cs = [(m, {'obj.open_mode': I(values[m])}, output_file(m == 'create_new')) for m in ('create_new', 'open_or_create')]
    else:
        cs = candidates(v)
    for mode, mem, rule in cs:
        m = dict(mem)
        m['obj.extensions'] = strlist()
        ps = R.run(f, mem=m, std=True)
        subject = '%s, %s%s' % (config, v, ', ' + mode if mode else '')
        ctx.paths_obey('a path is accepted exactly if everything required holds', subject, ps, table(rule, par), 'the verdict does not follow from the state of the file system', minimum=4)
        if not any(p.out == 'ok' for p in ps):
            ctx.violation('some path is accepted', subject, 'no path through the validator accepts')
    # whatever the extensions are: nothing else leaves the validator
    ps = R.run(f, std=True)
    ctx.paths_obey('only validation_error leaves a validator', '%s, %s' % (config, v), ps,
                   lambda p: (p.out == 'ok' or p.exc == 'sharg::validation_error' or p.out == 'exit' and broken(p), 'outcome ' + p.outcome()), 'another error leaves the validator', minimum=4)


def lists(ctx, config):
    R = ctx.runner(config)
    a, b, c = sym('P0'), sym('P1'), sym('P2')
    for g in R.p.functions('sharg::file_validator_base::operator()'):
        if 'vector' not in g['params'][0]['t'] and 'list' not in g['params'][0]['t']:
            continue
        par = g['params'][0]['n']
        for items in ((), (a,), (a, b), (a, b, c)):
            ps = R.run(g, mem={par: strlist(*items)}, hooks={'sharg::%s::operator()' % w: cut('element', 'ok', 'sharg::validation_error') for w in VALIDATORS + ['file_validator_base']},
                       unroll=12)

            def allowed(p):
                es = [e for e in p.events if e[0] == 'cut' and e[1] == 'element']
                seen = [e[3][0] for e in es]
                if p.out == 'ok':
                    if any(e[2] != 'ok' for e in es):
                        return False, 'accepted although an element was rejected'
                    return sorted(map(repr, set(seen))) == sorted(map(repr, items)), 'the checked elements are %s' % pp(('list', tuple(seen)))
                return (p.exc == 'sharg::validation_error' and any(e[2] != 'ok' for e in es), 'outcome ' + p.outcome())
            ctx.paths_obey('a list is accepted exactly if every element is', '%s, %s, %d elements' % (config, kind_of(g['params'][0]['t'].replace('const ', '')), len(items)), ps, allowed,
                           'an element of a list escapes the check')


EXTS = [('fa',), ('fa', 'fq.gz'), ('Fa',), ('.fa',), ('a',)]
MORE = [('sam', 'bam'), ('gz', 'fa.gz'), ('FASTA',), ('tar.GZ', 'a', 'b')]


def extensions(ctx, v, exts, n):
    R = ctx.runner('release')
    f, par = entry(R, v)
    cs = [sym('c%d' % i) for i in range(n)]
    cs = [('ch', s) for s in cs]
    name = cat(*[chs(c) for c in cs])
    path = cat(S('d/'), name)
    assume = [(In(c, (1 << 47) | 1), False) for c in cs]
    mem = {f['params'][0]['n']: path, 'obj.extensions': strlist(*map(S, exts))}
    if v == 'input_file_validator':
        assume += [(('fs', 'exists', path, I(0)), True), (('fs', 'is_directory', path, I(0)), False), (('fs', 'is_regular_file', path, I(0)), True)]
    else:
        assume += [(('fs', 'exists', path, I(0)), False), (('fs', 'is_directory', path, I(0)), False)]
    ps = R.run(f, mem=mem, assume=assume, unroll=16)

    def allowed(p):
        if unreadable(p, path) or broken(p):
            return True
        per = names_of(p, cs, exts)
        for t in itertools.product(*per):
            s = ''.join(t)
            want = valid_name(s, exts)
            if want != (p.out == 'ok'):
                return False, 'the name %r with the extensions %s is %s' % (s, list(exts), 'accepted' if p.out == 'ok' else 'rejected')
        return True
    ctx.paths_obey('the extension decides as documented', '%s, %s, names of %d characters' % (v, '/'.join(exts), n), ps, allowed, 'a name is not judged by its extension', minimum=2)
