"""Effect analysis: which exceptions can leave parse(). All paths of a parse with an arbitrary number of arbitrary arguments,
arbitrary identifiers and settings (loops summarised), for every instantiated value type, with the exceptions the standard
library calls on the way can throw. Also the complete parser::parse() with arbitrary short command lines. Anything outside the
documented classes for bad user input is reported with the path that lets it escape."""
from common import *
from partition import USER


def run(ctx):
    R = ctx.runner()

    def allowed(p):
        return (p.out == 'ok' or p.exc in USER, 'outcome ' + p.outcome())
    n = 0
    for name in ('drv::sc_option', 'drv::sc_positional', 'drv::sc_positional2', 'drv::sc_flag', 'drv::sc_none', 'drv::sc_all'):
        for f in R.p.functions(name):
            n += 1
            kind = kind_of(f['params'][2 if name.endswith('2') else 1]['t']) if len(f['params']) > 2 else '-'
            label = '%s, %s%s' % (name[7:], kind, ', validator' if any('opaque' in q['t'] for q in f['params']) else '')

            def go(f=f, label=label, name=name):
                if name == 'drv::sc_all':
                    mem = {**conf('c1', 'o', 'opt'), **conf('c2', 'f', 'flag'), **conf('c3'), 'flag': FALSE}
                elif name == 'drv::sc_flag':
                    mem = {**conf('cfg', 'f', 'flag'), 'value': FALSE}
                elif 'option' in name:
                    mem = {'cfg.default_message': S('')}
                else:
                    mem = {}
                ps = R.run(f, mem=mem, std=True, limit=200000)
                ctx.paths_obey('only documented exceptions', label, ps, allowed, 'bad user input is reported with the documented '
                               'exception classes only')
            ctx.attempt('only documented exceptions', label, go)
    if n < 40:
        raise Broken('only %d entry points' % n)
    A, B = sym('A'), sym('B')
    hooks = version_cuts()
    hooks.update(format_cuts(R))
    for f in R.p.functions('drv::sc_user_option') + R.p.functions('drv::sc_user_positional'):
        label = '%s, %s%s' % (f['n'][7:], kind_of(f['params'][1]['t']), ', validator' if 'opaque' in f['params'][2]['t'] else '')

        def go(f=f, label=label):
            mem = conf('c', 'o', 'opt') if f['n'].endswith('option') else conf('c', required=True)
            ps = R.run(f, mem={**mem, 'args': strlist('app', A, B)}, std=True, hooks=hooks, unroll=12)
            ctx.paths_obey('only documented exceptions', label + ', two arguments', ps,
                           lambda p: (p.out in ('ok', 'exit') or p.exc in USER, 'outcome ' + p.outcome()),
                           'bad user input is reported with the documented exception classes only')
        ctx.attempt('only documented exceptions', label, go)
    # subcommands: bad subcommands are user errors too
    f = R.fn('drv::sc_parse')
    allcut = version_cuts()
    allcut.update(format_cuts(R, ()))
    for l, args in (('one argument', strlist('app', A)), ('two arguments', strlist('app', A, B))):
        for sl, subs in (('no subcommands', strlist()), ('subcommands', strlist('sub', 'other'))):
            def go(args=args, subs=subs, l=l, sl=sl):
                ps = R.run(f, mem={'name': S('app'), 'args': args, 'subs': subs}, std=True, hooks=allcut, unroll=12)
                ctx.paths_obey('only documented exceptions', 'parse, %s, %s' % (l, sl), ps,
                               lambda p: (p.out in ('ok', 'exit') or p.exc in USER, 'outcome ' + p.outcome()),
                               'bad user input is reported with the documented exception classes only')
            ctx.attempt('only documented exceptions', l + sl, go)
