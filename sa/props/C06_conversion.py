"""Per value type of the public interface (instantiated in driver/driver.cpp): every path from a value text to success
must pass the conversion of exactly that text and its failure tests, every path past a failed test must end in
user_input_error. The oracle is one acceptance condition per kind of type (number, bool, text, named enumeration,
streamable type), applied to option values, positional values and list elements alike."""
from common import *

A, B = sym('A'), sym('B')
ENUM = 'drv::enumeration_names'


def meaning(t, x):
    """(list of (accepted-when, value), all other texts are rejected) for element type t and text x"""
    t = t.rstrip(' &')
    if t == 'bool':
        return [(Or(eq_str(x, S('0')), eq_str(x, S('false'))), FALSE), (Or(eq_str(x, S('1')), eq_str(x, S('true'))), TRUE)]
    if 'basic_string' in t or 'filesystem::path' in t:
        return [(TRUE, x)]
    if t == 'drv::plain':
        m = ('app', ENUM, strlist())
        return [(exists(m, ('eqv', x)), ('field', ('elem', m, ('nat', ('find', m, x))), 'second'))]
    if t == 'drv::streamed':
        return [(And(Not(('bapp', 'xfail', x, S(t))), ('bapp', 'xeof', x, S(t))), ('app', 'conv', x, S(t)))]
    k = "%s,%r" % (t, ('i', 3) if t in ('float', 'double', 'long double') else ('i', 10))
    return [(And(Not(('bapp', 'fc_invalid', x, S(k))), Not(('bapp', 'fc_range', x, S(k))), ('bapp', 'fc_all', x, S(k))),
             ('app', 'conv', x, S(t)))]


def judge(t, texts, is_list):
    """verdict on one path for the texts"""
    def allowed(p):
        want = []
        for x in texts:
            res, open_ = None, False
            for cond, v in meaning(t, x):
                c = p.val(cond)
                if c is True:
                    res = v
                elif c is None:
                    open_ = True
            if res is None and not open_:
                # this text is no value of the type
                return p.exc == 'sharg::user_input_error', '%s is not a %s, outcome %s' % (pp(x), t, p.outcome())
            if res is None:
                # the path does not establish that the text is a value of the type
                if p.out == 'ok':
                    return False, 'success without establishing that all of %s is a %s' % (pp(x), t)
                return p.exc == 'sharg::user_input_error', 'outcome ' + p.outcome()
            want.append(res)
        if p.out != 'ok':
            return False, 'valid texts, but outcome ' + p.outcome()
        got = p.final('value')
        w = ('list', tuple(want)) if is_list else want[0]
        r = same(p, got, w)
        if r is None and not opaque(got):
            r = False
        return r, 'value is %s instead of %s' % (pp(got), pp(w))
    return allowed


def elem_of(t):
    t = t.rstrip(' &')
    if t.startswith(('std::vector<', 'std::list<')):
        inner = targs_of(t)[0]
        return inner, True
    return t, False


def targs_of(t):
    s = t[t.index('<') + 1:-1]
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '<':
            depth += 1
        if ch == '>':
            depth -= 1
        if ch == ',' and not depth:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def run(ctx):
    R = ctx.runner()
    opts = [f for f in R.p.functions('drv::sc_user_option') if 'opaque' not in f['params'][2]['t']]
    poss = [f for f in R.p.functions('drv::sc_user_positional') if 'opaque' not in f['params'][2]['t']]
    if len(opts) < 20 or len(poss) < 20:
        raise Broken('only %d/%d value types are instantiated' % (len(opts), len(poss)))
    for f in opts:
        t, lst = elem_of(f['params'][1]['t'])
        row = Rows(ctx, f, {**conf('c', 'o', 'opt')})
        what = 'success exactly for texts that are a %s, with exactly that value' % t
        name = kind_of(f['params'][1]['t'])
        row('option value', name + ', separate', ['-o', A], judge(t, [A], lst), what, isnt(A, '--'))
        row('option value', name + ', long = form', [cat(S('--opt='), A)], judge(t, [A], lst), what, [nonempty(A)])
        row('option value', name + ', attached', [cat(S('-o'), A)], judge(t, [A], lst), what,
            [nonempty(A), (prefix(A, S('=')), False)])
        if lst:
            row('list element', name, ['-o', A, '--opt', B], judge(t, [A, B], True), what,
                isnt(A, '--') + isnt(B, '--') + noprefix(B, '-o') + noprefix(A, '-o'))
    for f in poss:
        t, lst = elem_of(f['params'][1]['t'])
        row = Rows(ctx, f, {**conf('c', required=True)})
        what = 'success exactly for texts that are a %s, with exactly that value' % t
        name = kind_of(f['params'][1]['t'])
        row('positional value', name, [A], judge(t, [A], lst), what, positional(A))
        row('positional value', name + ', behind --', ['--', A], judge(t, [A], lst), what, [nonempty(A)])
        if lst:
            row('list element', name + ', positional', [A, B], judge(t, [A, B], True), what, positional(A, B))
