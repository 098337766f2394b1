"""Command lines of up to three (thorough: four) arbitrary arguments against a parser with an option, a flag and a positional option (value
kinds: single, list). Every path of the whole parse - constructor, registration, built-in scan, command line parser - is
compared with a reference reading that splits the arguments into options with their values, flags and positional values:
success needs a reading that accounts for every argument and gives the variables exactly its values, and a path whose facts
fix a valid reading must succeed."""
from common import *
from partition import Spec

xs = [sym('A'), sym('B'), sym('C'), sym('D')]


def run(ctx):
    R = ctx.runner()
    kinds = []
    for olst in (False, True):
        for plst in (False, True):
            sig = rx(VSTR if olst else STR) + '; bool &; ' + re.escape('std::vector' if plst else STR)
            kinds.append((olst, plst, R.fn('drv::sc_user_all', sig)))
    for olst, plst, fn in kinds:
        row = Rows(ctx, fn, {**conf('c1', 'o', 'opt'), **conf('c2', 'f', 'flag'), **conf('c3', required=True), 'flag': FALSE})
        sp = Spec(olst, plst)
        name = '%s option, %s positional' % ('list' if olst else 'single', 'list' if plst else 'single')
        for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
            asm = []
            for x in xs[:n]:
                asm += [nonempty(x)] + no_builtin(x)
            if n < 3:
                row('every argument is accounted for', '%d arguments, %s' % (n, name), xs[:n], sp.judge(xs[:n]),
                    'success exactly when the arguments can be read completely', asm)
                continue
            # the first argument decides how the rest is split over processes
            for label, first in [('ordinary first', [ordinary(xs[0])]),
                                 ('-o first', [(prefix(xs[0], S('-o')), True)]),
                                 ('long first', [(prefix(xs[0], S('--')), True)]),
                                 ('other first', [(prefix(xs[0], S('-')), True), (prefix(xs[0], S('--')), False),
                                                  (prefix(xs[0], S('-o')), False)])]:
                for label2, second in [('', [])] if n == 3 else \
                        [(', - second', [(prefix(xs[1], S('-')), True)]), (', ordinary second', [ordinary(xs[1])])]:
                    row('every argument is accounted for', '%d arguments, %s, %s%s' % (n, name, label, label2), xs[:n],
                        sp.judge(xs[:n]), 'success exactly when the arguments can be read completely', asm + first + second,
                        limit=400000)
