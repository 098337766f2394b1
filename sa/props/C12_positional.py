"""Rows over the public interface with two and three positional options: values are assigned in command line order, options
and flags between them never shift them, and only a list in the last place takes more than one value."""
from common import *

A, B, C, D, X = sym('A'), sym('B'), sym('C'), sym('D'), sym('X')


def run(ctx):
    R = ctx.runner()
    f3 = R.fn('drv::sc_user_three_positionals')
    row = Rows(ctx, f3, conf('c', required=True))
    what = 'values are assigned in command line order'
    abc = positional(A, B, C)
    ne = [nonempty(A), nonempty(B), nonempty(C)]
    row('order', 'three values', [A, B, C], ends(first=A, second=B, third=C), what, abc)
    row('order', 'three values behind --', ['--', A, B, C], ends(first=A, second=B, third=C), what, ne)
    row('order', '-- behind the first', [A, '--', B, C], ends(first=A, second=B, third=C), what, abc[:2] + ne)
    row('order', '-- behind the second', [A, B, '--', C], ends(first=A, second=B, third=C), what, abc[:4] + ne)
    row('order', '-- at the end', [A, B, C, '--'], ends(first=A, second=B, third=C), what, abc)
    row('order', 'single dashes', ['-', B, '-'], ends(first=S('-'), second=B, third=S('-')), what, abc)
    row('order', 'equal values', [A, A, A], ends(first=A, second=A, third=A), what, abc)
    row('empty arguments', 'empty in front', ['', A, B], ends(first=S(''), second=A, third=B), what, abc)
    row('number', 'two of three', [A, B], fails('too_few_arguments'), 'every positional option needs a value', abc)
    row('number', 'one of three', [A], fails('too_few_arguments'), 'every positional option needs a value', abc)
    row('number', 'four of three', [A, B, C, D], fails('too_many_arguments'), 'surplus values are rejected', abc + positional(D))
    row('number', 'four of three, --', [A, B, C, '--', D], fails('too_many_arguments'), 'surplus values are rejected',
        abc + [nonempty(D)])
    for f in R.p.functions('drv::sc_user_two_positionals'):
        t = f['params'][2]['t'].rstrip(' &')
        if NOV not in f['params'][3]['t'] or kind_of(t) not in ('string', 'string list'):
            continue
        lst = kind_of(t) == 'string list'
        row = Rows(ctx, f, conf('c', required=True))
        row('order', 'two values, ' + ('list' if lst else 'single'), [A, B], ends(first=A, value=('list', (B,)) if lst else B), what, abc)
        row('number', 'one of two, ' + ('list' if lst else 'single'), [A], fails('too_few_arguments'), 'every positional option needs a value', abc)
        if lst:
            row('order', 'last list takes the rest', [A, B, C], ends(first=A, value=('list', (B, C))), what, abc)
            row('order', 'last list takes the rest, four', [A, B, C, D], ends(first=A, value=('list', (B, C, D))), what, abc + positional(D))
            row('order', 'last list takes the rest, --', [A, B, '--', C], ends(first=A, value=('list', (B, C))), what, abc[:4] + ne)
            row('order', 'equal values', [A, A, A], ends(first=A, value=('list', (A, A))), what, abc)
        else:
            row('number', 'three of two', [A, B, C], fails('too_many_arguments'), 'surplus values are rejected', abc)
    # options and flags in between
    fn = R.fn('drv::sc_user_all', rx(STR) + '; bool &; ' + re.escape('std::vector'))
    row = Rows(ctx, fn, {**conf('c1', 'o', 'opt'), **conf('c2', 'f', 'flag'), **conf('c3', required=True), 'flag': FALSE})
    asm = abc + isnt(X, '--') + noprefix(X, '-o', '--opt', '=') + [nonempty(X)]
    want = ends(value=X, flag=TRUE, pos=('list', (A, B, C)))
    forms = [['-o', X], ['--opt', X], [cat(S('-o='), X)], [cat(S('--opt='), X)], [cat(S('-o'), X)]]
    names = ['-o X', '--opt X', '-o=X', '--opt=X', '-oX']
    for n, o in zip(names, forms):
        for fl in ('-f', '--flag'):
            ps = [A, B, C]
            for i in range(4):
                for j in range(4):
                    line = []
                    for k in range(4):
                        line += (o if k == i else []) + ([fl] if k == j else []) + ([ps[k]] if k < 3 else [])
                    row('interleaving', '%s at %d, %s at %d' % (n, i, fl, j), line, want, what, asm)
                    if i == j:
                        line = []
                        for k in range(4):
                            line += ([fl] if k == j else []) + (o if k == i else []) + ([ps[k]] if k < 3 else [])
                        row('interleaving', '%s behind %s at %d' % (n, fl, i), line, want, what, asm)
