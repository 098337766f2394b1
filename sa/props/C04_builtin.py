"""Decision table over parser::parse() (path-sensitive abstract interpretation of the type-checked source, every callee
in sharg inlined; argument vectors of known length, the unconstrained elements are arbitrary strings). For each row -
a built-in request, its position, what surrounds it - every path must end in the outcome the table names: which format
object is run, exit code, exception class. The complementary row - no argument is a built-in request - must never exit
or fail before the command line parser runs."""
from common import *

A, B, C = sym('A'), sym('B'), sym('C')
NAME = {'name': S('app')}


def run(ctx):
    R = ctx.runner()
    fn = R.fn('drv::sc_parse')
    opts = R.fn('drv::sc_parse_opts')
    hooks = dict(version_cuts())
    cutall = dict(hooks)
    cutall.update(format_cuts(R, ()))
    seen = {}

    def row(rule, subject, args, allowed, what, assume=(), hooks=cutall, subs=(), group=None):
        def go():
            ps = R.run(fn, mem={'args': strlist('app', *args), 'subs': strlist(*subs), **NAME}, hooks=hooks,
                       unroll=10, assume=assume)
            ctx.paths_obey(rule, subject, ps, allowed, what)
        ctx.attempt(rule, subject, go, group)

    def runs(cls, key=None):
        def allowed(p):
            f = format_run(p)
            if p.out != 'exit':
                return False, 'the request does not end the program: ' + p.outcome()
            if [c for c, o in f] != [cls]:
                return False, 'runs %s instead of %s' % ([c for c, o in f], cls)
            if p.ev('exit')[-1][2] not in (I(0), 0):
                return False, 'exit code %s' % pp(p.ev('exit')[-1][2])
            if key:
                seen.setdefault(key, f[0][1])
                if seen[key] != f[0][1]:
                    return False, 'the same request is handled differently here'
            return True
        return allowed

    def parsed(p):
        if p.out == 'exit':
            return False, 'ends the program'
        if p.out != 'ok':
            return False, 'fails: ' + p.outcome()
        f = [c for c, o in format_run(p)]
        return (True, '') if f == ['format_parse'] else (False, 'runs %s' % f)

    def throws(*exc):
        return lambda p: (p.exc in exc, 'outcome ' + p.outcome())

    table = [('-h', 'format_help', 'help'), ('--help', 'format_help', 'help'), ('-hh', 'format_help', 'advanced'),
             ('--advanced-help', 'format_help', 'advanced'), ('--version', 'format_version', 'version'),
             ('--copyright', 'format_copyright', 'copyright')]
    for tok, cls, key in table:
        for label, args, assume in [
                ('alone', [tok], []),
                ('after an argument', [A, tok], [ordinary(A)]),
                ('before an argument', [tok, A], [ordinary(A)]),
                ('after a foreign option', [A, tok], no_builtin(A) + [(eq_str(A, S('--')), False)]),
                ('between arguments', [A, tok, B], [ordinary(A), ordinary(B)]),
                ('before --', [tok, '--', A], [])]:
            row('built-in request wins', '%s %s' % (tok, label), args, runs(cls, key),
                'the request must print its page and end the program successfully', assume, group='pages')
    def differ():
        if seen.get('help') is not None and seen.get('help') == seen.get('advanced'):
            ctx.violation('advanced help differs from help', '-hh', 'both requests create the same page')
        else:
            ctx.ok('advanced help differs from help', '-hh')
    ctx.attempt('advanced help differs from help', '-hh', differ, 'pages')
    for label, pre in [('', []), (' after an argument', [A])]:
        asm = [ordinary(A)] if pre else []
        for fm, cls in [('html', 'format_html'), ('man', 'format_man')]:
            row('export request', '--export-help %s%s' % (fm, label), pre + ['--export-help', fm], runs(cls, fm),
                'must export the page and end the program', asm, group=fm)
            row('export request', '--export-help=%s%s' % (fm, label), pre + ['--export-help=' + fm], runs(cls, fm),
                'must export the page and end the program', asm, group=fm)
        nofmt = [(eq_str(B, S(x)), False) for x in ('html', 'man', 'ctd', 'cwl')]
        row('export request', 'unknown format%s' % label, pre + ['--export-help', B],
            throws('sharg::validation_error'), 'an unknown format must be rejected', asm + nofmt)
        row('export request', 'unknown format, = form%s' % label, pre + [cat(S('--export-help='), B)],
            throws('sharg::validation_error'), 'an unknown format must be rejected', asm + nofmt)
        row('export request', 'missing format%s' % label, pre + ['--export-help'],
            throws('sharg::too_few_arguments'), 'a missing format must be rejected', asm)
        row('version check switch', 'missing value%s' % label, pre + ['--version-check'],
            throws('sharg::too_few_arguments'), 'a missing value must be rejected', asm)
        novc = [(eq_str(B, S(x)), False) for x in ('0', '1', 'true', 'false')]
        row('version check switch', 'bad value%s' % label, pre + ['--version-check', B],
            throws('sharg::validation_error'), 'values other than 0/1/true/false must be rejected', asm + novc)
        for v, want in (('0', False), ('false', False), ('1', True), ('true', True)):
            def decided(p, want=want):
                d = cuts_of(p, 'decide')
                if not d:
                    return False, 'no decision on the version check'
                if not d[0][3] or len(d[0][3]) < 2:
                    return None
                return d[0][3][1] == ('some', ('b', want)), 'user decision is ' + pp(d[0][3][1])
            row('version check switch', '--version-check %s%s' % (v, label), pre + ['--version-check', v] + [B], decided,
                'the decision must reach the version check', asm + [ordinary(B)])

    def undecided_user(p):
        d = cuts_of(p, 'decide')
        if not d or len(d[0][3]) < 2:
            return None
        return d[0][3][1] == ('none',), 'user decision is ' + pp(d[0][3][1])
    row('version check switch', 'no --version-check given', [A], undecided_user, 'no decision may be invented',
        [ordinary(A)])
    row('no arguments', 'only the program name', [], runs('format_short_help'), 'the short help must be shown')

    # nothing is built-in behind the end-of-options marker
    for tok in BUILTIN + ['--export-help=html']:
        row('end of options', '-- %s' % tok, ['--', tok], parsed, 'behind -- nothing is a built-in request')
        row('end of options', 'A -- B %s C' % tok, [A, '--', B, tok, C], parsed, 'behind -- nothing is a built-in request',
            no_builtin(A))

    # no other argument is a built-in request
    row('nothing else is built-in', 'one argument', [A], parsed, 'must be handed to the command line parser',
        no_builtin(A))
    row('nothing else is built-in', 'two arguments', [A, B], parsed, 'must be handed to the command line parser',
        no_builtin(A) + no_builtin(B))
    if ctx.thorough:
        row('nothing else is built-in', 'three arguments', [A, B, C], parsed, 'must be handed to the command line parser',
            no_builtin(A) + no_builtin(B) + no_builtin(C))
        for tok, cls, key in table:
            row('built-in request wins', '%s anywhere, two more' % tok, [A, B, tok], runs(cls, key),
                'the request must print its page',
                no_builtin(A) + no_builtin(B) + [(eq_str(A, S('--')), False), (eq_str(B, S('--')), False)])

    # the value of a known option is not a request
    for tok in BUILTIN:
        for ident in ('-o', '--opt'):
            def go(tok=tok, ident=ident):
                ps = R.run(opts, mem={'args': strlist('app', ident, tok), **NAME, 'c1.short_id': char('o'),
                                      'c1.long_id': S('opt'), 'c2.short_id': char('f'), 'c2.long_id': S('')},
                           hooks=cutall, unroll=10)
                ctx.paths_obey('option values are not requests', '%s %s' % (ident, tok), ps,
                               lambda p: True if p.exc == 'sharg::design_error' else parsed(p),
                               'the argument following a known option is its value')
            ctx.attempt('option values are not requests', '%s %s' % (ident, tok), go)

    # a request never touches variables: the command line parser does not run and nothing is written to them
    def untouched(p):
        if p.out == 'exit' and [c for c, o in format_run(p)] != ['format_parse']:
            w = [e for e in p.ev('w') if root(e[1]) in (('o', '$value'), ('o', '$flag'))]
            return (not w, 'writes ' + ', '.join(pp(e[1]) for e in w))
        return True
    for tok in ('-h', '--version'):
        def go(tok=tok):
            ps = R.run(opts, mem={'args': strlist('app', A, tok), **NAME, 'c1.short_id': char('o'), 'c1.long_id': S('opt'),
                                  'c2.short_id': char('f'), 'c2.long_id': S('')}, hooks=cutall, unroll=10,
                       assume=[(eq_str(A, S('-o')), False), (eq_str(A, S('--opt')), False)])
            ctx.paths_obey('requests leave variables alone', tok, ps, untouched, 'no variable may be written')
        ctx.attempt('requests leave variables alone', tok, go)
