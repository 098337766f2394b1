"""Typestate of a parser object over whole call sequences: construct - [parse, returning or throwing] - operation. parse() is
inlined up to the choice of the format; the formats themselves are events that may return or throw. Every path that passed
parse() must end in design_error at the operation (and no path may pass it); the operations that need a parsed object must
end in design_error before. The command line is arbitrary (zero, one and two arbitrary arguments) with and without
subcommands."""
from common import *

A, B = sym('A'), sym('B')


def marks(p):
    return [e[2][0] for e in p.ev('call') if e[1] == 'drv::mark']


def run(ctx):
    R = ctx.runner()
    hooks = version_cuts()
    for f in R.p.fn.values():
        n = f['n']
        if n.startswith('sharg::detail::format_') and n.endswith('::parse'):
            hooks[n] = cut(n.split('::')[2], 'ok', 'sharg::user_input_error')
    lines = [('no argument', strlist('app')), ('one argument', strlist('app', A)), ('two arguments', strlist('app', A, B))]
    subs = [('', strlist()), (', subcommands', strlist('sub', 'other'))]

    def rule(name, title, allowed, what, mem=None, minimum=True, subs=subs, assume=()):
        f = R.fn('drv::lifecycle::' + name)
        for l, line in lines:
            for sl, sub in subs:
                def go():
                    ps = R.run(f, mem={'args': line, 'subs': sub, **(mem or {})}, hooks=hooks, unroll=8, assume=list(assume))
                    reach = [p for p in ps if I(1) in marks(p)]
                    if minimum and not reach and l != 'no argument':
                        raise Broken('%s: no path passes parse()' % (title,))
                    ctx.paths_obey(title[0], '%s: %s%s' % (title[1], l, sl), ps, allowed, what)
                ctx.attempt(title[0], title[1] + l + sl, go)

    def refused(p):
        m = marks(p)
        if I(2) in m:
            return False, 'the call is accepted'
        if I(1) in m:
            return p.exc == 'sharg::design_error', 'outcome ' + p.outcome()
        return True
    for name, t in [('parse_again', 'parse'), ('option_after', 'add_option'), ('flag_after', 'add_flag'),
                    ('positional_after', 'add_positional_option'), ('section_after', 'add_section'),
                    ('subsection_after', 'add_subsection'), ('line_after', 'add_line'), ('item_after', 'add_list_item'),
                    ('subcommands_after', 'add_subcommands')]:
        mem = {}
        if name in ('option_after', 'flag_after'):
            mem = conf('c', 'x', 'xyz')
        if name == 'positional_after':
            mem = conf('c')
        if name == 'flag_after':
            mem['v'] = FALSE
        rule(name, ('refused after parse()', t), refused, 'whether parse() returned or threw, %s must fail afterwards' % t, mem)
    for name, t in [('is_set_before_char', 'is_option_set(char)'), ('is_set_before_string', 'is_option_set(string)'),
                    ('sub_parser_before', 'get_sub_parser')]:
        rule(name, ('refused before parse()', t), refused, t + ' needs a parsed command line')
    rule('everything_before', ('allowed before parse()', 'documentation and subcommands'),
         lambda p: (p.out == 'ok' or I(1) not in marks(p), p.outcome()), 'everything may be added before parse()')
    # get_sub_parser: fails exactly when no subcommand was selected

    def sub_parser(p):
        m = marks(p)
        if I(1) not in m:
            return True
        ran = [c for c, o in format_run(p)]
        if I(2) in m:
            return (True if any(p.val(eq_str(x, S(s))) is True for x in (A, B) for s in ('sub', 'other')) else None if p.opq else False), \
                'a sub parser without a selected subcommand'
        if p.exc != 'sharg::design_error':
            return False, 'outcome ' + p.outcome()
        return not any(p.val(eq_str(A, S(s))) is True for s in ('sub', 'other')), 'the selected subcommand has no parser'
    rule('sub_parser_after', ('sub parser', 'get_sub_parser after parse()'), sub_parser,
         'the sub parser exists exactly when a subcommand was given', minimum=False)
    # is_option_set: unknown identifiers are a design error
    reserved = ['h', 'hh', 'help', 'advanced-help', 'export-help', 'version', 'version-check', 'copyright']
    c = P('c')
    rule('is_set_unknown_char', ('unknown identifier', 'is_option_set(char)'), refused,
         'asking for an identifier that was not added is a design error', {}, subs=subs[:1], assume=[(eq_char(c, I(ord('h'))), False)])
    rule('is_set_unknown_string', ('unknown identifier', 'is_option_set(string)'), refused,
         'asking for an identifier that was not added is a design error', {}, subs=subs[:1], assume=isnt(c, *reserved))
