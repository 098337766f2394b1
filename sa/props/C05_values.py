"""Decision table over the public interface (parser + add_option + parse, everything inlined down to the stored
callbacks), one row per way of writing an option on the command line. The identifiers and the surrounding arguments are
fixed in shape, the value text, the positional argument and (in the last rows) the identifiers themselves are arbitrary
strings. On every path of a row the variable must end up holding exactly the text the row names."""
from common import *

A, B, X, P1 = sym('A'), sym('B'), sym('X'), sym('P')


def run(ctx):
    R = ctx.runner()
    fn = R.fn('drv::sc_user_all', rx(STR) + '; bool &; ' + re.escape(STR) + ' &')
    row = Rows(ctx, fn, {**conf('c1', 'o', 'opt'), **conf('c2', 'f', 'flag'), **conf('c3', required=True), 'flag': FALSE})
    notdd = isnt(A, '--')
    tail = sym('T')
    places = [('first', [], [P1]), ('last', [P1], []), ('behind a flag', ['-f', P1], []), ('before a flag', [], [P1, '-f'])]
    for label, pre, post in places:
        fl = TRUE if '-f' in pre + post else FALSE
        pos = positional(P1)
        row('separate value', '-o VALUE, ' + label, pre + ['-o', A] + post, ends(value=A, flag=fl, pos=P1),
            'the next argument is the value, verbatim', notdd + pos)
        row('separate value', '--opt VALUE, ' + label, pre + ['--opt', A] + post, ends(value=A, flag=fl, pos=P1),
            'the next argument is the value, verbatim', notdd + noprefix(A, '-o') + pos)
        row('= form', '-o=VALUE, ' + label, pre + [cat(S('-o='), A)] + post, ends(value=A, flag=fl, pos=P1),
            'everything behind = is the value', [nonempty(A)] + pos)
        row('= form', '--opt=VALUE, ' + label, pre + [cat(S('--opt='), A)] + post, ends(value=A, flag=fl, pos=P1),
            'everything behind = is the value', [nonempty(A)] + pos)
        row('attached value', '-oVALUE, ' + label, pre + [cat(S('-o'), A)] + post, ends(value=A, flag=fl, pos=P1),
            'everything behind the short identifier is the value', [nonempty(A), (prefix(A, S('=')), False)] + pos)
    row('value like the own short identifier', '--opt -oVALUE', ['--opt', cat(S('-o'), A), P1],
        ends(value=cat(S('-o'), A), flag=FALSE, pos=P1), 'the next argument is the value, verbatim', positional(P1))
    # spellings that name another option
    row('long identifiers match whole', '--optX is not --opt', [cat(S('--opt'), X), P1],
        lambda p: (True if p.out == 'exit' else p.exc == 'sharg::unknown_option', p.outcome()),
        'a longer identifier is another option', [nonempty(X), (prefix(X, S('=')), False)] + positional(P1))
    row('long identifiers match whole', '--op is not --opt', ['--op', A, P1], fails('unknown_option'),
        'an abbreviation is another option', positional(P1, A))
    row('long identifiers match whole', '--Opt is not --opt', ['--Opt', A, P1], fails('unknown_option'),
        'identifiers are case sensitive', positional(P1, A))
    row('short identifiers match', '-O is not -o', ['-O', A, P1], fails('unknown_option'),
        'identifiers are case sensitive', positional(P1, A))
    row('short identifiers match', 'opt is not --opt', ['opt'], ends(value=None, flag=FALSE, pos=S('opt')),
        'an argument without dashes is positional')
    # missing values
    for t in ('-o', '--opt'):
        row('missing value', t + ' at the end', [P1, t], fails('too_few_arguments'), 'an option without value is rejected',
            positional(P1))
        row('missing value', t + '= at the end', [P1, t + '='], fails('too_few_arguments'),
            'an option without value is rejected', positional(P1))
        row('missing value', t + '= in front', [t + '=', P1], fails('too_few_arguments'),
            'the next argument is not the value of an = form', positional(P1))
        row('missing value', t + ' before --', [t, '--', P1], fails('too_few_arguments'),
            'the end-of-options marker is no value', positional(P1))
    # any identifier
    c, L = sym('c'), sym('L')
    alnum = mask_of('abcdegijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
    anyc = [(In(c, alnum), True)]
    okid = mask_of('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-@')
    anyl = [(Le(sub(I(2), size(L))), True), (exists(L, ('cset', ALL & ~okid)), False), (prefix(L, S('-')), False)] + \
        isnt(L, 'help', 'advanced-help', 'hh', 'version', 'copyright', 'export-help', 'version-check', 'flag')
    cs = conf('c1', c, '')
    cl = conf('c1', None, L)
    row('any identifier', 'short, separate', [cat(S('-'), ('ch1', c)), A, P1], ends(value=A, flag=FALSE, pos=P1),
        'the next argument is the value, verbatim', anyc + notdd + positional(P1), mem=cs)
    row('any identifier', 'short, = form', [cat(S('-'), ('ch1', c), S('='), A), P1], ends(value=A, flag=FALSE, pos=P1),
        'everything behind = is the value', anyc + [nonempty(A)] + positional(P1), mem=cs)
    row('any identifier', 'short, attached', [cat(S('-'), ('ch1', c), A), P1], ends(value=A, flag=FALSE, pos=P1),
        'everything behind the identifier is the value',
        anyc + [nonempty(A), (prefix(A, S('=')), False)] + positional(P1), mem=cs)
    row('any identifier', 'long, separate', [cat(S('--'), L), A, P1], ends(value=A, flag=FALSE, pos=P1),
        'the next argument is the value, verbatim', anyl + notdd + positional(P1), mem=cl)
    row('any identifier', 'long, = form', [cat(S('--'), L, S('='), A), P1], ends(value=A, flag=FALSE, pos=P1),
        'everything behind = is the value',
        anyl + [nonempty(A), (prefix(cat(L, S('='), A), S('export-help=')), False)] + positional(P1), mem=cl)
