"""Typestate over all paths of a parse with a validator about which nothing is known (it may accept or throw anything derived
from std::exception). Contexts: an arbitrary number of arbitrary arguments (loops summarised) and fixed shapes (loops
unrolled), for single values and lists, options and positional options. On every path: success needs a call of the validator
after the last write of the variable, with the value the variable ends up with; a throwing validator ends in
validation_error, at once; the validator never sees an option that was not given."""
from common import *

A, B = sym('A'), sym('B')


def gated(positional_):
    def allowed(p):
        writes = [i for i, e in enumerate(p.events) if e[0] == 'w' and root(e[1]) == ('o', '$value')]
        calls = [i for i, e in enumerate(p.events) if e[0] == 'validate']
        threw = [i for i, e in enumerate(p.events) if e[0] == 'validator_throws']
        if threw:
            if p.exc != 'sharg::validation_error':
                return False, 'the validator threw, outcome ' + p.outcome()
            if calls and calls[-1] > threw[0]:
                return False, 'parsing went on after the validator threw'
            return True
        if p.exc == 'sharg::validation_error':
            return False, 'validation_error although no validator threw'
        if p.out == 'ok':
            if writes and (not calls or calls[-1] < writes[-1]):
                return False, 'the value is stored but not validated'
            if positional_ and not calls:
                return False, 'the positional value is not validated'
            if calls and not writes and not p.opq:
                return False, 'an option that was not given is validated'
            if calls:
                v = p.events[calls[-1]][1]
                f = p.final('value')
                if v != f:
                    r = same(p, v, f)
                    return r, 'validated %s, stored %s' % (pp(v), pp(f))
        return True
    return allowed


def sig(f, i=1):
    t = f['params'][i]['t'].rstrip(' &')
    return kind_of(t)


def run(ctx):
    R = ctx.runner()
    what = 'every stored value passed its validator, and every failed validation is reported'

    def exact(texts, lst, conv):
        """fixed shape: the validator is asked exactly once, about exactly this"""
        def allowed(p):
            r = gated(False)(p)
            if r is not True:
                return r
            n = len(p.ev('validate'))
            if p.out == 'ok' and n != 1:
                return False, 'the validator ran %d times' % n
            if n == 1:
                v = p.ev('validate')[0][1]
                w = [('app', 'conv', x, S('int')) if conv else x for x in texts]
                w = ('list', tuple(w)) if lst else w[0]
                return same(p, v, w), 'the validator saw %s instead of %s' % (pp(v), pp(w))
            return True
        return allowed

    for name, pos in (('drv::sc_option', False), ('drv::sc_positional', True)):
        fs = [f for f in R.p.functions(name) if 'opaque' in f['params'][2]['t']]
        if len(fs) < 4:
            raise Broken(name + ' is not instantiated for the opaque validator')
        for f in fs:
            def go(f=f, pos=pos, name=name):
                ps = R.run(f, mem=conf('cfg') if pos else conf('cfg', 'o', 'opt'))
                ctx.paths_obey('validation gates success', '%s of type %s, any arguments' % (name[8:], sig(f)), ps, gated(pos), what)
            ctx.attempt('validation gates success', name + sig(f), go)
            if not pos:
                def any_id(f=f, name=name):
                    ps = R.run(f, mem={'cfg.required': FALSE})
                    ctx.paths_obey('validation gates success', '%s of type %s, any arguments and identifiers' % (name[8:], sig(f)),
                                   ps, gated(False), what)
                ctx.attempt('validation gates success', name + sig(f) + ' any', any_id)
    for name, pos in (('drv::sc_user_option', False), ('drv::sc_user_positional', True)):
        for f in [f for f in R.p.functions(name) if 'opaque' in f['params'][2]['t']]:
            t = sig(f)
            lst, conv = 'list' in t, 'int' in t
            row = Rows(ctx, f, conf('c', required=True) if pos else conf('c', 'o', 'opt'))
            if pos:
                row('fixed shapes', 'positional, ' + t, [A], exact([A], lst, conv), what, positional(A))
                row('fixed shapes', 'positional behind --, ' + t, ['--', A], exact([A], lst, conv), what, [nonempty(A)])
                if lst:
                    row('fixed shapes', 'two positionals, ' + t, [A, B], exact([A, B], lst, conv), what, positional(A, B))
            else:
                for l, line, asm in [('-o V', ['-o', A], isnt(A, '--')), ('--opt V', ['--opt', A], isnt(A, '--') + noprefix(A, '-o')),
                                     ('-o=V', [cat(S('-o='), A)], [nonempty(A)]), ('--opt=V', [cat(S('--opt='), A)], [nonempty(A)]),
                                     ('-oV', [cat(S('-o'), A)], [nonempty(A), (prefix(A, S('=')), False)])]:
                    row('fixed shapes', l + ', ' + t, line, exact([A], lst, conv), what, asm)
                if lst:
                    asm = isnt(A, '--') + isnt(B, '--') + noprefix(A, '-o') + noprefix(B, '-o')
                    row('fixed shapes', 'twice, ' + t, ['-o', A, '-o', B], exact([A, B], lst, conv), what, asm)
                    row('fixed shapes', 'short and long, ' + t, ['-o', A, '--opt', B], exact([A, B], lst, conv), what, asm)
                row('defaults are not validated', t, ['--'], lambda p: (p.out == 'ok' and not p.ev('validate'), p.outcome()),
                    'a default value is not validated')
