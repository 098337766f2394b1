"""Acceptance conditions of the identifiers, decided for every character and every string: for each registration of the public
interface and each ordered pair of registrations, every path is compared with the legality condition (empty, alphabet,
length, first character, reserved, already used). A path that establishes legality must succeed, a path that establishes
illegality must end in design_error, and no path may leave the question open."""
from common import *

ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
SHORT = mask_of(ALNUM + '_@')
LONG = mask_of(ALNUM + '_@-')
RESERVED = ['h', 'hh', 'help', 'advanced-help', 'export-help', 'version', 'version-check', 'copyright']


def legal_short(c):
    return And(In(c, SHORT), Not(eq_char(c, I(ord('h')))))


def legal_long(l):
    return And(Le(sub(I(2), size(l))), Not(prefix(l, S('-'))), Not(exists(l, ('cset', ALL & ~LONG))),
               *[Not(eq_str(l, S(r))) for r in RESERVED if len(r) > 1])


def legal(c, l):
    """identifiers c (character, 0: none) and l (string, empty: none)"""
    none_c, none_l = eq_char(c, I(0)), Le(size(l))
    return And(Or(none_c, legal_short(c)), Or(none_l, legal_long(l)), Not(And(none_c, none_l)))


def run(ctx):
    R = ctx.runner()

    def judge(cond, start=None):
        def allowed(p):
            if start and not any(e[1] == 'drv::mark' for e in p.ev('call')):
                return True
            v = p.val(cond)
            if v is True:
                return p.out == 'ok', 'legal identifiers are refused: ' + p.outcome()
            if v is False:
                return p.exc == 'sharg::design_error', 'illegal identifiers: ' + p.outcome()
            if p.out == 'ok':
                return False, 'accepted without establishing that the identifiers are legal'
            return (False, 'refused without a reason') if p.exc == 'sharg::design_error' else (False, p.outcome())
        return allowed

    c, l = sym('c'), sym('l')
    d, m = sym('d'), sym('m')
    for name, base in [('option', conf('c', c, l)), ('flag', {**conf('c', c, l), 'a': FALSE})]:
        f = R.fn('drv::registry::' + name)
        for label, mem, asm, cond in [
                ('short only', {'c.short_id': c, 'c.long_id': S('')}, [], And(legal_short(c))),
                ('long only', {'c.short_id': I(0), 'c.long_id': l}, [], And(legal_long(l))),
                ('both', {}, [(eq_char(c, I(0)), False), (Le(size(l)), False)], And(legal_short(c), legal_long(l))),
                ('any', {}, [], legal(c, l))]:
            def go(f=f, base=base, mem=mem, asm=asm, cond=cond, name=name, label=label):
                ps = R.run(f, mem={**base, **mem}, assume=asm, unroll=12)
                ctx.paths_obey('legal identifiers', '%s, %s' % (name, label), ps, judge(cond),
                               'identifiers are accepted exactly when they are legal', minimum=2)
            ctx.attempt('legal identifiers', name + label, go)
        for r in RESERVED:
            def go(f=f, base=base, r=r, name=name):
                mem = {**base, 'c.short_id': I(ord(r)) if len(r) == 1 else I(0), 'c.long_id': S(r) if len(r) > 1 else S('')}
                ps = R.run(f, mem=mem, unroll=12)
                ctx.paths_obey('reserved identifiers', '%s, %s' % (name, r), ps, lambda p: (p.exc == 'sharg::design_error', p.outcome()),
                               'the identifiers of the built-in requests cannot be used')
                other = {**base, 'c.short_id': c if len(r) > 1 else I(ord(r)), 'c.long_id': S(r) if len(r) > 1 else l}
                ps = R.run(f, mem=other, unroll=12)
                ctx.paths_obey('reserved identifiers', '%s, %s with another identifier' % (name, r), ps,
                               lambda p: (p.exc == 'sharg::design_error', p.outcome()), 'the identifiers of the built-in requests cannot be used')
            ctx.attempt('reserved identifiers', name + r, go)

    # a second registration
    for name in ('option_option', 'option_flag', 'flag_option', 'flag_flag'):
        f = R.fn('drv::registry::' + name)
        extra = {}
        if name.startswith('flag'):
            extra['a'] = FALSE
        if name.endswith('flag'):
            extra['b'] = FALSE
        rows = [
            ('short against short', conf('c', c, ''), conf('d', d, ''), [(legal_short(c), True)], And(legal_short(d), Not(eq_char(c, d)))),
            ('long against long', conf('c', None, l), conf('d', None, m), [(legal_long(l), True)], And(legal_long(m), Not(eq_str(l, m)))),
            ('short against both', conf('c', 'x', 'xyz'), conf('d', d, ''), [], And(legal_short(d), Not(eq_char(d, I(ord('x')))))),
            ('long against both', conf('c', 'x', 'xyz'), conf('d', None, m), [], And(legal_long(m), Not(eq_str(m, S('xyz'))))),
            ('both against both', conf('c', 'x', 'xyz'), conf('d', d, m), [(eq_char(d, I(0)), False), (Le(size(m)), False)],
             And(legal_short(d), Not(eq_char(d, I(ord('x')))), legal_long(m), Not(eq_str(m, S('xyz'))))),
            ('both new', conf('c', 'x', 'xyz'), conf('d', 'y', 'yz'), [], TRUE),
            ('same short', conf('c', 'x', 'xyz'), conf('d', 'x', 'yz'), [], FALSE),
            ('same long', conf('c', 'x', 'xyz'), conf('d', 'y', 'xyz'), [], FALSE),
            ('same short alone', conf('c', 'x', ''), conf('d', 'x', ''), [], FALSE),
            ('same long alone', conf('c', None, 'xyz'), conf('d', None, 'xyz'), [], FALSE),
            ('different case', conf('c', 'x', 'xyz'), conf('d', 'X', 'XYZ'), [], TRUE),
        ]
        for label, c1, c2, asm, cond in rows:
            def go(f=f, c1=c1, c2=c2, asm=asm, cond=cond, name=name, label=label, extra=extra):
                ps = R.run(f, mem={**c1, **c2, **extra}, assume=asm, unroll=12)
                if not any(e[1] == 'drv::mark' for p in ps for e in p.ev('call')):
                    raise Broken('%s: the first registration never succeeds' % name)
                ctx.paths_obey('unique identifiers', '%s, %s' % (name.replace('_', ' then '), label), ps, judge(cond, True),
                               'an identifier can be used once')
            ctx.attempt('unique identifiers', name + label, go)
