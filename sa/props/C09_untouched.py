"""Two families. (1) Rows of fixed shape over the public interface: which variables hold what afterwards, with their previous
content an arbitrary value (so "untouched" means: is exactly that value). (2) Loop-summarised runs over an arbitrary number of
arbitrary arguments: when no argument starts with a dash, no option or flag variable is ever written."""
from common import *

A, B, C, X = sym('A'), sym('B'), sym('C'), sym('X')


def run(ctx):
    R = ctx.runner()
    pos = positional(X)
    for opt in (STR, VSTR):
        fn = R.fn('drv::sc_user_all', rx(opt) + '; bool &; ' + re.escape(STR))
        lst = opt == VSTR
        kind = 'list option' if lst else 'single option'
        row = Rows(ctx, fn, {**conf('c1', 'o', 'opt'), **conf('c2', 'f', 'flag'), **conf('c3', required=True)})
        un = 'what is not on the command line keeps its value'
        row('untouched', 'only the positional option, ' + kind, [X], ends(value=None, flag=FALSE, pos=X), un, pos,
            mem={'flag': FALSE})
        row('untouched', 'option without flag, ' + kind, ['-o', A, X],
            ends(value=('list', (A,)) if lst else A, flag=FALSE, pos=X), un, pos + isnt(A, '--') + noprefix(A, '-o'),
            mem={'flag': FALSE})
        row('untouched', 'flag without option, ' + kind, ['-f', X], ends(value=None, flag=TRUE, pos=X), un, pos,
            mem={'flag': FALSE})
        row('untouched', 'option inside a value, ' + kind, [X, cat(S('--flag='), A)], lambda p:
            (p.exc == 'sharg::unknown_option', p.outcome()), 'a flag takes no value', pos, mem={'flag': FALSE})
        if lst:
            ok = isnt(A, '--') + isnt(B, '--') + isnt(C, '--') + noprefix(A, '-o') + noprefix(B, '-o') + noprefix(C, '-o')
            old = 'the previous content is replaced by all values in order'
            row('lists are replaced', 'one', ['-o', A, X], ends(value=('list', (A,))), old, ok + pos, mem={'flag': FALSE})
            row('lists are replaced', 'two', ['-o', A, X, '-o', B], ends(value=('list', (A, B))), old, ok + pos,
                mem={'flag': FALSE})
            row('lists are replaced', 'three', ['-o', A, '-o', B, X, '-o', C], ends(value=('list', (A, B, C))), old, ok + pos,
                mem={'flag': FALSE})
            row('lists are replaced', 'three long', ['--opt', A, '--opt', B, X, '--opt', C], ends(value=('list', (A, B, C))),
                old, ok + pos, mem={'flag': FALSE})
            row('lists are replaced', 'short, attached and = form', ['-o', A, cat(S('-o'), B), cat(S('-o='), C), X],
                ends(value=('list', (A, B, C))), old, ok + pos + [nonempty(B), nonempty(C), (prefix(B, S('=')), False)],
                mem={'flag': FALSE})
            row('lists are replaced', 'short and long identifier', ['-o', A, '--opt', B, X], ends(value=('list', (A, B))),
                'values given with either identifier are kept', ok + pos, mem={'flag': FALSE})
            row('lists are replaced', 'long = and long', [cat(S('--opt='), A), '--opt', B, X],
                ends(value=('list', (A, B))), old, ok + pos + [nonempty(A)], mem={'flag': FALSE})
        if lst:
            fn2 = R.fn('drv::sc_user_all', rx(STR) + '; bool &; ' + re.escape('std::vector'))
            row('lists are replaced', 'positional list', [X, A, B], ends(value=None, pos=('list', (X, A, B))), 'positional lists'
                ' are replaced', positional(X, A, B), mem={'flag': FALSE}, fn=fn2)
            row('lists are replaced', 'positional list, one', [A], ends(value=None, pos=('list', (A,))), 'positional lists'
                ' are replaced', positional(A), mem={'flag': FALSE}, fn=fn2)

    # flags
    ff = R.fn('drv::sc_user_flags')
    for l1, l2 in (('f', 'g'),):
        row = Rows(ctx, ff, {**conf('c1', 'f', 'flag'), **conf('c2', 'g', 'gflag'), **conf('c', required=True),
                             'f1': FALSE, 'f2': FALSE})
        what = 'a flag is true exactly when it is given'
        for args, a, b in [(['-f'], 1, 0), (['-g'], 0, 1), (['-f', '-g'], 1, 1), (['-g', '-f'], 1, 1), (['-fg'], 1, 1),
                           (['-gf'], 1, 1), (['--flag'], 1, 0), (['--gflag'], 0, 1), (['--flag', '-g'], 1, 1),
                           (['--gflag', '--flag'], 1, 1), (['-f', '--gflag'], 1, 1)]:
            for label, line in (('before', args + [X]), ('after', [X] + args), ('around', args[:1] + [X] + args[1:])):
                row('flags', '%s %s the positional value' % (' '.join(args), label), line,
                    ends(f1=('b', bool(a)), f2=('b', bool(b)), pos=X), what, pos)
        row('flags', 'none', [X], ends(f1=FALSE, f2=FALSE, pos=X), what, pos)
        row('flags', 'neither behind --', ['--', X], ends(f1=FALSE, f2=FALSE, pos=X), what, [nonempty(X)])
        for bad in ('-fx', '-xf', '-fgx', '-xfg', '-fxg', '--flagx', '--fla', '--FLAG', '-F', '--f', '--flag=1', '-f=1', '-fgo'):
            row('flags', bad + ' is unknown', [bad, X], fails('unknown_option'), 'a partly known bundle is rejected', pos)
        for bad in ('-ff', '-fgf'):
            row('flags', bad + ' is a repetition', [bad, X], lambda p: (p.exc in ('sharg::unknown_option',
                'sharg::option_declared_multiple_times'), p.outcome()), 'a repeated flag is rejected', pos)

    # any number of arguments

    def unbounded():
        fn = R.fn('drv::sc_flag')
        ps = R.run(fn, mem={**conf('cfg', 'f', 'flag'), 'value': FALSE},
                   assume=[(exists(P('args'), dash_pred()), False)])
        ctx.paths_obey('no dash, no write', 'flag, any number of arguments', ps,
                       lambda p: (p.final('value') == FALSE, 'value is ' + pp(p.final('value'))),
                       'without an argument that starts with a dash no flag may be written')
    ctx.attempt('no dash, no write', 'flag, any number of arguments', unbounded)

    for t in (STR, VSTR, 'int', 'bool'):
        def opt(t=t):
            fn = [f for f in R.p.functions('drv::sc_option') if elem_match(f['params'][1]['t'], t) and NOV in f['params'][2]['t']]
            if not fn:
                raise Broken('no sc_option for ' + t)
            ps = R.run(fn[0], mem=conf('cfg', 'o', 'opt'), assume=[(exists(P('args'), dash_pred()), False)])
            ctx.paths_obey('no dash, no write', 'option of type %s, any number of arguments' % (t if len(t) < 9 else
                           'string list' if t == VSTR else 'string'), ps,
                           lambda p: (not p.written('value'), 'writes ' + pp(p.final('value'))),
                           'without an argument that starts with a dash no option may be written')
        ctx.attempt('no dash, no write', t, opt)


def elem_match(t, want):
    t = t.rstrip(' &')
    return t == want or t.startswith(want) and want in (STR, VSTR)


def dash_pred():
    return pred_from_dnf([[(prefix(BOUND, S('-')), True)]])
