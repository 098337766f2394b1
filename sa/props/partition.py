"""The reference reading of a command line of known length with arbitrary arguments, against which paths are judged."""
from common import *


class Spec:
    """one option -o/--opt (list or not), one flag -f/--flag, one positional option (list or not)"""
    def __init__(self, opt_list=False, pos_list=False, pos_required=True):
        self.opt_list, self.pos_list = opt_list, pos_list

    def readings(self, xs):
        """all ways to read the arguments: (conditions, short values, long values, flags, positionals)"""
        def rest(i, behind):
            if i == len(xs):
                yield [], [], [], 0, []
                return
            x = xs[i]
            if behind:
                for c, s, l, f, p in rest(i + 1, True):
                    yield c, s, l, f, [x] + p
                return
            isdd = eq_str(x, S('--'))
            for c, s, l, f, p in rest(i + 1, True):
                yield [(isdd, True)] + c, s, l, f, p
            for c, s, l, f, p in rest(i + 1, False):
                # flag
                for t in ('-f', '--flag'):
                    yield [(eq_str(x, S(t)), True)] + c, s, l, f + 1, p
                # option with the value in the same argument
                for t, n in (('-o=', 3), ('--opt=', 6)):
                    v = suffix(x, I(n))
                    k = [(prefix(x, S(t)), True), (Le(size(v)), False)]
                    yield k + c, ([v] + s if n == 3 else s), ([v] + l if n == 6 else l), f, p
                v = suffix(x, I(2))
                yield [(prefix(x, S('-o')), True), (Le(size(v)), False), (prefix(x, S('-o=')), False)] + c, [v] + s, l, f, p
                # positional
                yield [(Or(Not(prefix(x, S('-'))), eq_str(x, S('-'))), True)] + c, s, l, f, [x] + p
            # option with the value in the next argument
            if i + 1 < len(xs):
                for c, s, l, f, p in rest(i + 2, False):
                    v = xs[i + 1]
                    nd = (eq_str(v, S('--')), False)
                    yield [(eq_str(x, S('-o')), True), nd] + c, [v] + s, l, f, p
                    # a value that starts with the short identifier of the very option is outside the property
                    yield [(eq_str(x, S('--opt')), True), nd, (prefix(v, S('-o')), False)] + c, s, [v] + l, f, p
        for c, s, l, f, p in rest(0, False):
            if f > 1 or (not self.opt_list and len(s) + len(l) > 1) or not p or (not self.pos_list and len(p) > 1):
                continue
            yield c, s, l, f, p

    def wanted(self, s, l, f, p):
        if self.opt_list:
            value = ('list', tuple(s + l)) if s + l else P('value')
        else:
            value = (s + l)[0] if s + l else P('value')
        return {'value': value, 'flag': ('b', f > 0), 'pos': ('list', tuple(p)) if self.pos_list else p[0]}

    def judge(self, xs, rejecting=True):
        rs = list(self.readings(xs))

        def allowed(p):
            known = []
            for i in range(len(xs) - 1):
                # outside the property: --opt followed by a value that starts with -o
                if p.val(eq_str(xs[i], S('--opt'))) is not False and p.val(prefix(xs[i + 1], S('-o'))) is not False \
                        and not any(p.val(eq_str(x, S('--'))) is True for x in xs[:i]):
                    return True
            for c, s, l, f, q in rs:
                v = True
                for t, want in c:
                    r = p.val(t)
                    if r is None:
                        v = None
                        if p.out != 'ok':
                            break
                    elif r is not want:
                        v = False
                        break
                if v is not False:
                    known.append((v, s, l, f, q))
            if p.out != 'ok':
                sure = [k for k in known if k[0] is True]
                if sure and rejecting:
                    return False, 'a valid command line is rejected: ' + p.outcome()
                return p.exc in USER, 'outcome ' + p.outcome()
            if not known:
                return False, 'success, but no reading of the command line accounts for every argument'
            res = []
            why = ''
            for v, s, l, f, q in known:
                w = self.wanted(s, l, f, q)
                bad = [n for n in w if same(p, p.final(n), w[n]) is False]
                unk = [n for n in w if same(p, p.final(n), w[n]) is None]
                if not bad and not unk and v is True:
                    return True
                if bad:
                    why = '; '.join('%s is %s instead of %s' % (n, pp(p.final(n)), pp(w[n])) for n in bad)
                res.append((v, bad, unk))
            if all(b for v, b, u in res):
                return False, why or 'wrong values'
            if not any(v is True for v, b, u in res) and not p.opq and len(res) == 1:
                pass
            return None
        return allowed


USER = ['sharg::' + x for x in ('too_few_arguments', 'too_many_arguments', 'unknown_option', 'option_declared_multiple_times',
                                'user_input_error', 'required_option_missing', 'validation_error')]
