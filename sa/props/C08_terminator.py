"""Rows over the public interface with the marker "--" at a fixed position and arbitrary strings behind it: whatever they
look like (identifiers of the parser, built-in requests, unknown options, a second marker), they reach the positional
options verbatim and in order, and no option, flag, built-in request or error may depend on them."""
from common import *
from partition import USER

A, B, C, X = sym('A'), sym('B'), sym('C'), sym('X')


def run(ctx):
    R = ctx.runner()
    for opt, pos in ((STR, VSTR), (VSTR, VSTR), (STR, STR)):
        fn = R.fn('drv::sc_user_all', rx(opt) + '; bool &; ' + re.escape('std::vector' if pos == VSTR else STR))
        row = Rows(ctx, fn, {**conf('c1', 'o', 'opt'), **conf('c2', 'f', 'flag'), **conf('c3', required=True), 'flag': FALSE})
        ol, pl = opt == VSTR, pos == VSTR
        kind = '%s option, %s positional' % ('list' if ol else 'single', 'list' if pl else 'single')
        ne = [nonempty(A), nonempty(B), nonempty(C)]

        def val(x):
            return ('list', (x,)) if ol else x

        def po(*xs):
            return ('list', xs) if pl else xs[0]
        what = 'everything behind -- is positional, verbatim'
        row('behind --', 'one argument, ' + kind, ['--', A], ends(value=None, flag=FALSE, pos=po(A)), what, ne[:1])
        row('behind --', 'option in front, ' + kind, ['-o', X, '--', A], ends(value=val(X), flag=FALSE, pos=po(A)), what,
            ne[:1] + isnt(X, '--') + noprefix(X, '-o'))
        row('behind --', 'long option in front, ' + kind, ['--opt', X, '--', A], ends(value=val(X), flag=FALSE, pos=po(A)),
            what, ne[:1] + isnt(X, '--') + noprefix(X, '-o', '--opt'))
        row('behind --', 'flag in front, ' + kind, ['-f', '--', A], ends(value=None, flag=TRUE, pos=po(A)), what, ne[:1])
        row('behind --', 'long flag in front, ' + kind, ['--flag', '--', A], ends(value=None, flag=TRUE, pos=po(A)), what,
            ne[:1])
        for t in ('-o', '--opt', '-f', '--flag', '-x', '--unknown', '--', '-oX', '--opt=X', '-fx', '-') + tuple(BUILTIN):
            row('behind --', '%s, %s' % (t, kind), ['--', t], ends(value=None, flag=FALSE, pos=po(S(t))), what)
            if pl:
                row('behind --', '%s, then another, %s' % (t, kind), [X, '--', t, A],
                    ends(value=None, flag=FALSE, pos=po(X, S(t), A)), what, ne[:1] + positional(X))
        row('the marker is no value', 'nothing behind, ' + kind, [X, '--'], ends(value=None, flag=FALSE, pos=po(X)),
            'the marker itself is not a positional value', positional(X))
        row('the marker is no value', 'alone, ' + kind, ['--'], fails('too_few_arguments'),
            'the marker itself is not a positional value')
        row('the marker is no value', 'option without value in front, ' + kind, ['-o', '--', A], fails('too_few_arguments'),
            'the marker is not the value of an option', ne[:1])
        row('the marker is no value', 'long option without value in front, ' + kind, ['--opt', '--', A],
            fails('too_few_arguments'), 'the marker is not the value of an option', ne[:1])
        if pl:
            row('behind --', 'two arguments, ' + kind, ['--', A, B], ends(value=None, flag=FALSE, pos=po(A, B)), what, ne[:2])
            row('behind --', 'three arguments, ' + kind, ['--', A, B, C], ends(value=None, flag=FALSE, pos=po(A, B, C)),
                what, ne)
            row('behind --', 'positional in front, ' + kind, [X, '--', A, B], ends(value=None, flag=FALSE, pos=po(X, A, B)),
                what, ne[:2] + positional(X))
            row('behind --', 'all in front, ' + kind, ['-f', X, '-o', X, '--', A, B],
                ends(value=val(X), flag=TRUE, pos=po(X, A, B)), what, ne[:2] + positional(X))
        else:
            row('behind --', 'too many, ' + kind, ['--', A, B], fails('too_many_arguments'), 'surplus values are rejected',
                ne[:2])
            row('behind --', 'too many, one in front, ' + kind, [X, '--', A], fails('too_many_arguments'),
                'surplus values are rejected', ne[:1] + positional(X))
        if ctx.thorough:
            asm = [nonempty(X)] + no_builtin(X) + ne[:2]
            row('behind --', 'anything in front, ' + kind, [X, '--', A] + ([B] if pl else []),
                lambda p: not_from_behind(p, pl), 'options and flags never come from behind --', asm)


def not_from_behind(p, pl):
    if p.out != 'ok':
        return p.exc in USER, p.outcome()
    for v in ('value', 'flag'):
        if mentions(p.final(v), A) or mentions(p.final(v), B):
            if v == 'value' and p.val(eq_str(X, S('-o'))) is not True:
                return False, '%s is %s' % (v, pp(p.final(v)))
    return True
