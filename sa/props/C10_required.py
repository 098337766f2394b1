"""Rows over the public interface for what must be present and what may be given only once: required options, positional
options, repeated single-valued options (same identifier, both identifiers, every spelling), and the unbounded converse that a
required option can only be satisfied by an argument in front of "--" that starts with its identifier."""
from common import *

A, B, X = sym('A'), sym('B'), sym('X')


def run(ctx):
    R = ctx.runner()
    for opt in (STR, VSTR):
        fn = R.fn('drv::sc_user_all', rx(opt) + '; bool &; ' + re.escape(STR))
        lst = opt == VSTR
        kind = 'list option' if lst else 'single option'
        for label, so, lo in (('both identifiers', 'o', 'opt'), ('short only', 'o', ''), ('long only', None, 'opt')):
            row = Rows(ctx, fn, {**conf('c1', so, lo, required=True), **conf('c2', 'f', 'flag'), **conf('c3', required=True),
                                 'flag': FALSE})
            k = '%s, %s' % (kind, label)
            pos = positional(X)
            miss = fails('required_option_missing')
            what = 'a required option must be on the command line'
            row('required option', 'missing, ' + k, [X], miss, what, pos)
            row('required option', 'missing, flag given, ' + k, ['-f', X], miss, what, pos)
            row('required option', 'missing, two positional values, ' + k, [X, A], lambda p: (p.exc in (
                'sharg::required_option_missing', 'sharg::too_many_arguments'), p.outcome()), what, pos + positional(A))
            for t in (['-o', A], ['--opt', A]):
                row('required option', '%s only behind --, %s' % (t[0], k), ['--', t[0]], miss, what)
                if (t[0] == '-o' and so) or (t[0] != '-o' and lo):
                    row('required option', '%s given, %s' % (t[0], k), t + [X], ends(value=('list', (A,)) if lst else A, pos=X),
                        what, pos + isnt(A, '--') + noprefix(A, '-o'))
            # not required
            row2 = Rows(ctx, fn, {**conf('c1', so, lo), **conf('c2', 'f', 'flag'), **conf('c3', required=True), 'flag': FALSE})
            row2('optional option', 'missing, ' + k, [X], ends(value=None, pos=X), 'nothing is required', pos)
            few = fails('too_few_arguments')
            row2('positional option', 'missing behind an option, ' + k, ['-o', A] if so else ['--opt', A], few,
                 'every positional option needs a value', isnt(A, '--') + noprefix(A, '-o'))
            row2('positional option', 'missing behind a flag, ' + k, ['-f'], few, 'every positional option needs a value')
            row2('positional option', 'missing before --, ' + k, ['-f', '--'], few, 'every positional option needs a value')
            row2('positional option', 'surplus, ' + k, [X, A], fails('too_many_arguments'), 'surplus values are rejected',
                 pos + positional(A))
            row2('positional option', 'surplus behind --, ' + k, [X, '--', A], fails('too_many_arguments'),
                 'surplus values are rejected', pos + [nonempty(A)])
        if not lst:
            row = Rows(ctx, fn, {**conf('c1', 'o', 'opt'), **conf('c2', 'f', 'flag'), **conf('c3', required=True), 'flag': FALSE})
            forms = {'-o V': lambda v: ['-o', v], '--opt V': lambda v: ['--opt', v], '-o=V': lambda v: [cat(S('-o='), v)],
                     '--opt=V': lambda v: [cat(S('--opt='), v)], '-oV': lambda v: [cat(S('-o'), v)]}
            asm = isnt(A, '--') + isnt(B, '--') + noprefix(A, '-o', '=', '--opt') + noprefix(B, '-o', '=', '--opt') + \
                [nonempty(A), nonempty(B)] + positional(X)
            for f1 in forms:
                for f2 in forms:
                    for label, line in (('together', forms[f1](A) + forms[f2](B) + [X]), ('apart', forms[f1](A) + [X] + forms[f2](B)),
                                        ('before --', forms[f1](A) + forms[f2](B) + ['--', X]),
                                        ('apart, before --', forms[f1](A) + [X] + forms[f2](B) + ['--']),
                                        ('flag between', forms[f1](A) + ['-f'] + forms[f2](B) + [X])):
                        row('given twice', '%s and %s, %s' % (f1, f2, label), line, fails('option_declared_multiple_times'),
                            'a single-valued option may be given only once', asm)
                row('given twice', '%s once, once behind --' % f1, forms[f1](A) + ['--', '-oB'], ends(value=A, pos=S('-oB')),
                    'behind -- there are no options', asm)
    # flags
    ff = R.fn('drv::sc_user_flags')
    row = Rows(ctx, ff, {**conf('c1', 'f', 'flag'), **conf('c2', 'g', 'gflag'), **conf('c', required=True), 'f1': FALSE, 'f2': FALSE})
    dup = lambda p: (p.exc in ('sharg::option_declared_multiple_times', 'sharg::unknown_option'), p.outcome())
    for line in (['-f', '-f'], ['--flag', '--flag'], ['-ff'], ['-fg', '-f'], ['-g', '-fg'], ['--flag', '-f'], ['-f', '--flag'],
                 ['-fg', '--gflag']):
        row('given twice', 'flag ' + ' '.join(line), line + [X], dup, 'a flag may be given only once', positional(X))
    # two options of one parser
    for t1 in (STR, VSTR):
        fn = [f for f in R.p.functions('drv::sc_user_two_options') if f['params'][1]['t'].startswith(t1)]
        if not fn:
            continue
        fn = fn[0]
        l2 = 'vector' in fn['params'][2]['t']
        row = Rows(ctx, fn, {**conf('c', 'o', 'opt', required=True), **conf('c2', 'p', 'par', required=True)})
        v = lambda x, l: ('list', (x,)) if l else x
        asm = isnt(A, '--') + isnt(B, '--') + noprefix(A, '-o', '-p', '--opt', '--par') + noprefix(B, '-o', '-p', '--opt', '--par')
        k = 'list' if t1 == VSTR else 'single'
        row('two options', 'second missing, ' + k, ['-o', A], fails('required_option_missing'), 'both are required', asm)
        row('two options', 'first missing, ' + k, ['--par', B], fails('required_option_missing'), 'both are required', asm)
        for l, line in (('in order', ['-o', A, '-p', B]), ('reversed', ['-p', B, '-o', A]), ('long', ['--opt', A, '--par', B]),
                        ('long reversed', ['--par', B, '--opt', A]), ('mixed', ['-p', B, '--opt', A])):
            row('two options', '%s, %s' % (l, k), line, ends(value=v(A, t1 == VSTR), value2=v(B, l2)),
                'each value reaches its own variable', asm)

    # any number of arguments
    def unbounded(f, name):
        def go():
            p1 = pred_from_dnf([[(prefix(BOUND, S('-o')), True)], [(prefix(BOUND, S('--opt')), True)]])
            ps = R.run(f, mem=conf('cfg', 'o', 'opt', required=True), assume=[(exists(P('args'), p1), False)])
            ctx.paths_obey('required option', 'any number of arguments without the option, ' + name, ps,
                           lambda p: (p.out != 'ok' and not p.written('value'), p.outcome()), 'parsing must fail')
        return go
    for f in R.p.functions('drv::sc_option'):
        t = f['params'][1]['t'].rstrip(' &')
        if NOV in f['params'][2]['t'] and kind_of(t) in ('string', 'string list', 'int', 'int list', 'double', 'drv::plain'):
            n = kind_of(t)
            ctx.attempt('required option', 'unbounded ' + n, unbounded(f, n))
