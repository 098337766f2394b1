"""Decision tables over the registration functions with every configuration field symbolic: a contradictory configuration must end
in design_error on every path, a consistent one must be accepted on every path. Names: the acceptance condition of the
application and subcommand names is the byte set of the regular expression, decided for an arbitrary string."""
from common import *
from C02_identifiers import ALNUM

NAME = mask_of(ALNUM + '_-')


def legal_name(n):
    return And(Not(Le(size(n))), Not(exists(n, ('cset', ALL & ~NAME))))


def run(ctx):
    R = ctx.runner()
    reg = 'drv::registry::'

    def table(rule, subject, fn, mem, cond, what, assume=(), marked=False):
        def go():
            ps = R.run(R.fn(reg + fn), mem=mem, assume=list(assume), unroll=12)
            if marked and not any(e[1] == 'drv::mark' for p in ps for e in p.ev('call')):
                raise Broken('%s: the first registration never succeeds' % subject)

            def allowed(p):
                if marked and not any(e[1] == 'drv::mark' for e in p.ev('call')):
                    return True
                v = p.val(cond)
                if v is True:
                    return p.out == 'ok', 'a consistent configuration is refused: ' + p.outcome()
                if v is False:
                    return p.exc == 'sharg::design_error', 'a contradictory configuration, outcome ' + p.outcome()
                return False, 'outcome %s does not depend on the condition' % p.outcome()
            ctx.paths_obey(rule, subject, ps, allowed, what)
        ctx.attempt(rule, subject, go)

    msg = sym('msg')
    req, adv, hid = ('bapp', 'required'), ('bapp', 'advanced'), ('bapp', 'hidden')
    sym3 = {'required': req, 'advanced': adv, 'hidden': hid, 'default_message': msg}

    def full(o, short, long):
        d = conf(o, short, long)
        for k, v in sym3.items():
            d['%s.%s' % (o, k)] = v
        return d
    nomsg = Le(size(msg))
    table('contradictory configuration', 'option', 'option', full('c', 'x', 'xyz'), Or(Not(req), nomsg),
          'a required option cannot have a default message')
    table('contradictory configuration', 'flag', 'flag', {**full('c', 'x', 'xyz'), 'a': FALSE}, nomsg,
          'a flag cannot have a default message')
    table('contradictory configuration', 'flag with default true', 'flag', {**conf('c', 'x', 'xyz'), 'a': TRUE}, FALSE,
          "a flag's default must be false")
    table('contradictory configuration', 'flag with default false', 'flag', {**conf('c', 'x', 'xyz'), 'a': FALSE}, TRUE,
          "a flag's default must be false")
    c, l = sym('c'), sym('l')
    table('contradictory configuration', 'positional option', 'positional', full('c', None, ''),
          And(Not(adv), Not(hid), nomsg), 'positional options are neither advanced nor hidden and have no default message')
    table('contradictory configuration', 'positional option with identifier', 'positional', conf('c', c, l, advanced=False, hidden=False),
          And(eq_char(c, I(0)), Le(size(l))), 'positional options have no identifiers')
    for fn, want, what in [('list_then_positional', FALSE, 'nothing follows a positional list'),
                           ('list_then_list', FALSE, 'nothing follows a positional list'),
                           ('positional_then_list', TRUE, 'a list may be last'),
                           ('string_then_positional', TRUE, 'a string is no list')]:
        table('positional lists', fn.replace('_', ' '), fn, {**conf('c'), **conf('d')}, want, what, marked=True)
    table('positional lists', 'list option then positional', 'list_option_then_positional', {**conf('c', 'x', 'xyz'), **conf('d')}, TRUE,
          'a list option is no positional list', marked=True)
    for n in (0, 1, 2):
        subs = strlist(*['s%d' % i for i in range(n)])
        table('positional options and subcommands', '%d subcommands at construction' % n, 'positional_with_subcommands',
              {**conf('c'), 'subs': subs}, ('b', n == 0), 'a parser with subcommands has no positional options', marked=True)
        table('positional options and subcommands', '%d subcommands added' % n, 'positional_with_added_subcommands',
              {**conf('c'), 'subs': subs}, ('b', n == 0), 'a parser with subcommands has no positional options', marked=True)
        table('positional options and subcommands', 'options with %d subcommands' % n, 'option_with_subcommands',
              {**conf('c', 'x', 'xyz'), **conf('d', 'y', 'yz'), 'subs': subs, 'b': FALSE}, TRUE,
              'a parser with subcommands may have options and flags', marked=True)

    # names
    fn = R.fn('drv::sc_parse')
    hooks = version_cuts()
    for f in R.p.fn.values():
        n = f['n']
        if n.startswith('sharg::detail::format_') and n.endswith('::parse'):
            hooks[n] = cut(n.split('::')[2])
    N, U, W, A = sym('N'), sym('U'), sym('W'), sym('A')
    Y = sym('Y')

    def names(subject, mem, cond, assume=()):
        def go():
            ps = R.run(fn, mem=mem, hooks=hooks, unroll=10, assume=list(assume))
            got = {p.val(cond) for p in ps}
            if not {True, False} <= got and subject.find('only') < 0:
                raise Broken('%s: %r' % (subject, got))

            def allowed(p):
                v = p.val(cond)
                acts = [e for e in p.events if e[0] in ('cut', 'system', 'open', 'fs', 'thread')]
                if v is False:
                    if p.exc != 'sharg::design_error':
                        return False, 'an illegal name, outcome ' + p.outcome()
                    return not acts, 'the name is used before it is checked: ' + pp(acts[0])[:200] if acts else ''
                if v is True:
                    return p.exc != 'sharg::design_error', 'a legal name is refused'
                return False, 'the outcome %s does not depend on the name' % p.outcome()
            ctx.paths_obey('names', subject, ps, allowed, 'names consist of alphanumeric characters, _ and -, and nothing happens '
                           'with any other name')
        ctx.attempt('names', subject, go)
    for label, line in (('no argument', strlist('app')), ('an argument', strlist('app', A)), ('version', strlist('app', '--version')),
                        ('help', strlist('app', '--help'))):
        names('application name, ' + label, {'name': N, 'args': line, 'subs': strlist()}, legal_name(N),
              [ordinary(A)])
        names('subcommand name, ' + label, {'name': S('app'), 'args': line if label != 'an argument' else strlist('app', '-x'), 'subs': strlist(U)},
              legal_name(U))
        names('application and subcommand name, ' + label, {'name': N, 'args': line if label != 'an argument' else strlist('app', '-x'), 'subs': strlist(U)},
              And(legal_name(N), legal_name(U)))
    names('two subcommand names', {'name': S('app'), 'args': strlist('app', '-x'), 'subs': strlist(U, W)}, And(legal_name(U), legal_name(W)))
    names('three subcommand names', {'name': S('app'), 'args': strlist('app', '-x'), 'subs': strlist(U, W, Y)},
          And(legal_name(U), legal_name(W), legal_name(Y)))
    names('three subcommand names, no argument', {'name': S('app'), 'args': strlist('app'), 'subs': strlist(U, W, Y)},
          And(legal_name(U), legal_name(W), legal_name(Y)))
