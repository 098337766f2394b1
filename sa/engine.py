"""Path-sensitive abstract interpreter over the AST dump (see tool/extract.cpp).

Works on terms (domain.py); a path is a conjunction of facts plus a trace of events.  Functions of the library and
lambdas are inlined, std:: functions are described in models.py, loops are summarised: the first iteration starts from
the exact state, all further iterations from a state in which everything the loop modifies is unknown except for
values from a finite set (flags), for which every reachable combination is explored.
"""
import re
import json
import sys
from domain import *

sys.setrecursionlimit(20000)


class Explosion(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('mem', 'kids', 'env', 'facts', 'trace', 'opq', 'exc')

    def __init__(self):
        self.mem = {}
        self.kids = {}
        self.env = {}
        self.facts = Facts()
        self.trace = None
        self.opq = ()       # reasons why this path may be infeasible (unmodelled code decided a branch)
        self.exc = ()       # stack of exceptions being handled

    def copy(self):
        n = State()
        n.mem = dict(self.mem)
        n.kids = dict(self.kids)
        n.env = dict(self.env)
        n.facts = self.facts
        n.trace = self.trace
        n.opq = self.opq
        n.exc = self.exc
        return n

    def event(self, *ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.fn = {}
        self.by_name = {}
        for f in d['functions']:
            self.fn[f['id']] = f
            self.by_name.setdefault(f['n'], []).append(f)
        self.globals = {int(k): v for k, v in d['globals'].items()}
        self.classes = d['classes']
        self.bases = d['bases']
        self.enums = d['enums']
        self.overrides = {}
        self.dtors = {}
        self.class_plain = {}
        for n, c in self.classes.items():
            self.class_plain.setdefault(c.get('pn'), []).append(n)
            for m in c.get('methods', []):
                for o in m.get('overrides', []):
                    self.overrides.setdefault(o, {})[n] = m['id']
                if m.get('kind') == 'dtor' and m['id'] in self.fn and not self.fn[m['id']].get('defaulted'):
                    b = self.fn[m['id']].get('body')
                    if b and b.get('b'):
                        self.dtors[n] = m['id']

    def is_a(self, t, base):
        if t == base:
            return True
        return any(self.is_a(b, base) for b in self.bases.get(t, []))

    def functions(self, name):
        return self.by_name.get(name, [])

    def find(self, name, pred=lambda f: True):
        r = [f for f in self.by_name.get(name, []) if pred(f)]
        return r


def unq(t):
    """type without const / reference"""
    t = t.strip()
    while True:
        u = t
        if t.endswith('&'):
            t = t.rstrip('&').strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if t == u:
            return t


class Engine:
    LIMIT = 6000

    def __init__(self, prog, models, hooks=None):
        self.p = prog
        self.models = models
        self.uid = 0
        self.depth = 0
        self.loggers = []
        self.hooks = hooks or {}
        self.stack = []
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0, 'loops': set(), 'opaque_calls': set()}
        self.lines = set()
        self.inline_stop = set()
        self.throwing_std = False

    # ------------------------------------------------------------ helpers
    def fresh(self):
        self.uid += 1
        return self.uid

    def load(self, st, loc):
        v = self._raw(st, loc)
        k = st.kids.get(loc)
        if k:
            ov = []
            for c in sorted(k, key=repr):
                ov.append(((c[0], c[2]), self.load(st, c)))
            v = self._overlay(v, ov)
        return v

    def _overlay(self, v, ov):
        base, old = v, {}
        if v[0] == 'list' and all(s[0] == 'e' and s[1][0] == 'i' and 0 <= s[1][1] < len(v[1]) for s, x in ov):
            xs = list(v[1])
            for s, x in ov:
                xs[s[1][1]] = x
            return ('list', tuple(xs))
        if v[0] == 'rec':
            base, old = v[1], dict(v[2])
        for s, x in ov:
            old[s] = x
        return ('rec', base, tuple(sorted(old.items(), key=repr)))

    def _raw(self, st, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        h = loc[0]
        if h == 'f':
            return field(self._raw(st, loc[1]), loc[2])
        if h == 'e':
            return elem(self._raw(st, loc[1]), loc[2])
        if h == 'd':
            return ('deref', loc[1])
        if h == 'c':
            return idx(self.load(st, loc[1]), loc[2])
        if h == 'g':
            return self.global_value(st, loc)
        if h == 't':
            return loc[1]
        return ('sym', loc)

    def global_value(self, st, loc):
        g = self.p.globals.get(loc[1])
        if g is not None and g['n'].endswith('::npos'):
            return I(2 ** 64 - 1)
        if g is None:
            return ('sym', loc)
        if 'init' in g and not g.get('_busy'):
            g['_busy'] = True
            try:
                if '_val' not in g:
                    s = State()
                    rs = self.ev(g['init'], s)
                    if len(rs) == 1 and rs[0][0] == 'v':
                        g['_val'] = self.rv(rs[0][2], rs[0][1])
                    else:
                        g['_val'] = ('sym', 'global:' + g['n'])
            except (Explosion, Unsupported, RecursionError):
                g['_val'] = ('sym', 'global:' + g['n'])
            finally:
                g['_busy'] = False
            return g['_val']
        return ('sym', 'global:' + g['n'])

    def store(self, st, loc, v):
        if loc[0] == 'c':
            return self.store(st, loc[1], ('updc', self.load(st, loc[1]), loc[2], v))
        for lg in self.loggers:
            lg.add(loc)
        self._drop(st, loc)
        if loc[0] == 't':
            return
        st.mem[loc] = v
        c = loc
        while c[0] in ('f', 'e'):
            par = c[1]
            ks = st.kids.get(par)
            if ks is None:
                st.kids[par] = frozenset([c])
            elif c in ks:
                break
            else:
                st.kids[par] = ks | {c}
            c = par
        r = root(loc)
        if r[0] not in ('v', 't') and not (r[0] == 'o' and isinstance(r[1], int)):
            st.event('w', loc, v, self.line)

    def _drop(self, st, loc):
        ks = st.kids.pop(loc, None)
        if ks:
            for c in ks:
                self._drop(st, c)
                st.mem.pop(c, None)

    line = ''

    def rv(self, st, x):
        """load if it is a location"""
        if x[0] == 'L':
            return self.load(st, x[1])
        return x

    def lv(self, st, x):
        """location of x; temporaries are materialised"""
        if x[0] == 'L':
            return x[1]
        loc = ('o', self.fresh())
        st.mem[loc] = x
        return loc

    def setfacts(self, st, facts):
        n = st.copy()
        n.facts = facts
        return n

    def branch(self, t, st):
        """boolean term -> [(bool, state)]"""
        v = st.facts.value(t)
        if v is not None:
            return [(v, st)]
        out = []
        for val in (True, False):
            for f in st.facts.assume(t, val):
                n = self.setfacts(st, f)
                o = opaque_in(t)
                if o is not None:
                    n.opq = n.opq + (o,)
                out.append((val, n))
        if len(out) > self.LIMIT:
            raise Explosion()
        return out

    def epoch(self, st):
        """number of file system effects so far: answers of queries are stable between effects"""
        n = 0
        for ev in st.events():
            if ev[0] == 'fs' or (ev[0] == 'open' and ev[1] == 'w'):
                n += 1
        return I(n)

    def cap(self, rs):
        if len(rs) > self.LIMIT:
            raise Explosion('too many paths at ' + str(self.line))
        return rs

    # ------------------------------------------------------------ expressions
    def seq(self, es, st):
        cur = [([], st)]
        out = []
        for e in es:
            nxt = []
            for vals, s in cur:
                for k, v, s2 in self.ev(e, s):
                    if k == 'v':
                        nxt.append((vals + [v], s2))
                    else:
                        out.append((k, v, s2))
            cur = nxt
            if len(cur) > self.LIMIT:
                raise Explosion()
        return [('v', vals, s) for vals, s in cur] + out

    def ev(self, e, st):
        if e is None:
            return [('v', ('void',), st)]
        l = e.get('l')
        if l and not l.startswith('/'):
            self.line = l
        return getattr(self, 'e_' + e['k'], self.e_unknown)(e, st)

    def ev1(self, e, st):
        """evaluate and load"""
        return [(k, self.rv(s, v) if k == 'v' else v, s) for k, v, s in self.ev(e, st)]

    def e_unknown(self, e, st):
        return [('v', ('opq', 'expr:' + e['k'], self.fresh()), st)]

    def e_other(self, e, st):
        out = []
        for k, v, s in self.seq(e.get('a', []), st):
            if k == 'v':
                out.append(('v', ('opq', e.get('n', '?'), self.fresh()), s))
            else:
                out.append((k, v, s))
        return out

    def e_int(self, e, st):
        return [('v', I(int(e['v'])), st)]

    def e_chr(self, e, st):
        return [('v', I(e['v'] & 255 if e['v'] >= 0 else e['v'] & 255), st)]

    def e_bool(self, e, st):
        return [('v', ('b', bool(e['v'])), st)]

    def e_str(self, e, st):
        return [('v', S(e['v']), st)]

    def e_flt(self, e, st):
        return [('v', ('f', e['v']), st)]

    def e_null(self, e, st):
        return [('v', NULL, st)]

    def e_zero(self, e, st):
        t = unq(e['t'])
        if t == 'bool':
            return [('v', FALSE, st)]
        if t.endswith('*'):
            return [('v', NULL, st)]
        return [('v', I(0), st)] if not is_classy(t) else [('v', ('rec', ('new', t), ()), st)]

    def e_enum(self, e, st):
        return [('v', I(int(e['v'])), st)]

    def e_fn(self, e, st):
        return [('v', ('fnptr', e['f']['id'], e['f']['n']), st)]

    def e_typeid(self, e, st):
        return [('v', ('app', 'typeid'), st)]

    def e_this(self, e, st):
        loc = st.env.get((self.frame(), 'this'))
        if loc is None:
            loc = ('o', '$this')
        return [('v', ('ptr', loc), st)]

    def frame(self):
        return self.stack[-1] if self.stack else 0

    def e_ref(self, e, st):
        if e.get('glob'):
            return [('v', ('L', ('g', e['id'], e.get('qn'))), st)]
        key = (self.frame(), e['id'])
        loc = st.env.get(key)
        if loc is None:
            loc = ('v', self.frame(), e['id'], e['n'])
        return [('v', ('L', loc), st)]

    def e_mem(self, e, st):
        out = []
        for k, v, s in self.ev(e['b'], st):
            if k != 'v':
                out.append((k, v, s))
                continue
            if 'f' in e:
                out.append(('v', ('memfn', e['f'], v), s))
                continue
            loc = self.obj(s, v, e.get('arrow'))
            out.append(('v', ('L', ('f', loc, e['n'])), s))
        return out

    def obj(self, st, v, arrow):
        """object location for a member access"""
        if arrow:
            v = self.rv(st, v)
            if v[0] == 'ptr':
                return v[1]
            return ('d', v)
        if v[0] == 'L':
            return v[1]
        return ('t', v)

    def e_rv(self, e, st):
        return self.ev1(e['e'], st)

    def e_cast(self, e, st):
        out = []
        for k, v, s in self.ev1(e['e'], st):
            if k != 'v':
                out.append((k, v, s))
                continue
            out.append(('v', self.cast(e['ck'], v, unq(e.get('ft', '')), unq(e.get('t', ''))), s))
        return out

    exact_casts = False      # keep the conversions that may change a number

    def cast(self, ck, v, ft, t):
        if self.exact_casts and v[0] not in ('i', 'b', 'opq', 'opqb'):
            if ck == 'IntegralCast' and t in RANGES and ft in RANGES and not (RANGES[t][0] <= RANGES[ft][0] and RANGES[ft][1] <= RANGES[t][1]):
                return ('app', 'wrap', v, S(t))
            if ck == 'FloatingToIntegral':
                return ('app', 'trunc', v, S(t))
        if ck in ('IntegralToBoolean',):
            if v[0] == 'cv':
                return Not(In(v[1], 1))
            return Not(EqI(v, I(0))) if v[0] != 'b' else v
        if ck == 'PointerToBoolean':
            if v == NULL:
                return FALSE
            if v[0] in ('ptr', 's'):
                return TRUE
            return Not(('isnull', v))
        if ck == 'IntegralCast':
            if ft in ('char', 'signed char', 'unsigned char', 'uint8_t', 'int8_t'):
                if v[0] == 'cv' and t in ('int', 'unsigned int', 'long', 'unsigned long'):
                    return v
                if v[0] == 'i':
                    n = v[1]
                    if ft in ('char', 'signed char'):
                        n = n - 256 if n >= 128 else n
                    return I(n)
                if t in ('unsigned char', 'signed char', 'char'):
                    return v
                return ('cv', v, 'u' if ft in ('unsigned char', 'uint8_t') else 's')
            if t in ('char', 'signed char', 'unsigned char'):
                if v[0] == 'cv':
                    return v[1]
                if v[0] == 'i':
                    return I(v[1] & 255)
                return ('app', 'tochar', v)
            if t == 'bool':
                return Not(EqI(v, I(0)))
            if v[0] == 'b':
                return I(int(v[1]))
            return v
        if ck == 'FloatingToBoolean':
            return ('app', 'tobool', v)
        if ck == 'ToVoid':
            return ('void',)
        if ck in ('IntegralToFloating', 'FloatingCast'):
            return v
        return v

    def e_un(self, e, st):
        op = e['op']
        if op == '&':
            out = []
            for k, v, s in self.ev(e['e'], st):
                if k == 'v':
                    if v[0] == 'fnptr':
                        out.append((k, v, s))
                    else:
                        out.append((k, ('ptr', self.lv(s, v)), s))
                else:
                    out.append((k, v, s))
            return out
        if op == '*':
            out = []
            for k, v, s in self.ev1(e['e'], st):
                if k == 'v':
                    out.append((k, self.deref(s, v), s))
                else:
                    out.append((k, v, s))
            return out
        if op == '!':
            return [(k, Not(self.boolify(v)) if k == 'v' else v, s) for k, v, s in self.ev1(e['e'], st)]
        if op in ('++', '--'):
            out = []
            for k, v, s in self.ev(e['e'], st):
                if k != 'v':
                    out.append((k, v, s))
                    continue
                s = s.copy()
                loc = self.lv(s, v)
                old = self.load(s, loc)
                new = self.advance(s, old, I(1 if op == '++' else -1))
                self.store(s, loc, new)
                out.append(('v', old if e.get('post') else ('L', loc), s))
            return out
        if op == '-':
            return [(k, sub(I(0), v) if k == 'v' else v, s) for k, v, s in self.ev1(e['e'], st)]
        if op in ('+', '__extension__'):
            return self.ev1(e['e'], st)
        return [(k, ('app', 'un' + op, v) if k == 'v' else v, s) for k, v, s in self.ev1(e['e'], st)]

    def deref(self, st, v):
        if v[0] == 'ptr':
            return ('L', v[1])
        if v[0] == 'it':
            return self.itderef(st, v)
        if v[0] in ('s', 'cat', 'sfx'):
            return idx(v, I(0))
        if v[0] == 'some':
            return ('L', ('t', v[1]))
        return ('L', ('d', v))

    def itderef(self, st, v):
        c = self.load(st, v[1])
        st.event('deref', v, c, self.line)
        return self.at(st, v[1], v[2], v[3])

    def at(self, st, loc, pos, kind):
        """element at position pos of the container/string at loc"""
        if kind == 's':
            return ('L', ('c', loc, pos))
        return ('L', ('e', loc, pos))

    def advance(self, st, v, n):
        if v[0] == 'it':
            pos = add(v[2], n)
            st.event('inc', v, n, self.line)
            return ('it', v[1], pos, v[3])
        if v[0] in ('s', 'cat', 'sfx'):
            return suffix(v, n)
        if v[0] == 'ptr' or v[0] in ('opq',):
            return ('opq', 'ptradd', self.fresh())
        if v[0] == 'cv':
            return ('cv', add(v[1], n), v[2])
        if v[0] == 'fcptr':
            return ('app', 'ptr+', v, n)
        if v[:2] == ('app', 'ptr+'):
            return ('app', 'ptr+', v[2], add(v[3], n))
        return add(v, n)

    def boolify(self, v):
        h = v[0]
        if h in ('b', 'not', 'and', 'or', 'in', 'eq', 'eqc', 'le', 'eqz', 'prefix', 'exists', 'has', 'alt', 'lt', 'isnull',
                 'pred', 'fcmp', 'bapp', 'truth', 'opqb', 'fs'):
            return v
        if h == 'i':
            return ('b', v[1] != 0)
        if h == 'null':
            return FALSE
        return ('truth', v)

    def e_bin(self, e, st):
        op = e['op']
        a, b = e['a']
        if op in ('&&', '||'):
            out = []
            for k, v, s in self.ev1(a, st):
                if k != 'v':
                    out.append((k, v, s))
                    continue
                for val, s2 in self.branch(self.boolify(v), s):
                    if val == (op == '||'):
                        out.append(('v', ('b', val), s2))
                    else:
                        for k3, v3, s3 in self.ev1(b, s2):
                            out.append((k3, self.boolify(v3) if k3 == 'v' else v3, s3))
            return self.cap(out)
        if op == ',':
            out = []
            for k, v, s in self.ev(a, st):
                out += self.ev(b, s) if k == 'v' else [(k, v, s)]
            return out
        if op == '=':
            out = []
            for k, v, s in self.ev1(b, st):
                if k != 'v':
                    out.append((k, v, s))
                    continue
                for k2, l, s2 in self.ev(a, s):
                    if k2 != 'v':
                        out.append((k2, l, s2))
                        continue
                    s2 = s2.copy()
                    loc = self.lv(s2, l)
                    self.assign(s2, loc, v)
                    out.append(('v', ('L', loc), s2))
            return out
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=', '<<=', '>>='):
            out = []
            for k, vs, s in self.seq([a, b], st):
                if k != 'v':
                    out.append((k, vs, s))
                    continue
                s = s.copy()
                loc = self.lv(s, vs[0])
                old = self.load(s, loc)
                r = self.rv(s, vs[1])
                rs = self.binop(s, op[:-1], old, r, e.get('t', ''))
                for t, s3 in rs:
                    s3 = s3.copy()
                    self.store(s3, loc, t)
                    out.append(('v', ('L', loc), s3))
            return out
        if op == '<=>':
            return [('v', ('opq', 'spaceship', self.fresh()), st)]
        out = []
        if e.get('rew'):
            # rewritten comparison: (a <=> b) op 0 or !(a == b): evaluate the operands of the inner call
            inner = e['a'][0]
            if inner and inner.get('k') == 'call' and inner.get('op') == '<=>':
                for k, vs, s in self.seq(inner['a'], st):
                    if k == 'v':
                        x, y = [self.rv(s, t) for t in vs]
                        out.append((k, self.order_cmp(op, x, y, inner.get('at', ['', ''])), s))
                    else:
                        out.append((k, vs, s))
                return out
        for k, vs, s in self.seq([a, b], st):
            if k != 'v':
                out.append((k, vs, s))
                continue
            x, y = self.rv(s, vs[0]), self.rv(s, vs[1])
            for t, s2 in self.binop(s, op, x, y, e.get('t', '')):
                out.append(('v', t, s2))
        return out

    def order_cmp(self, op, x, y, types):
        if any('basic_string' in t for t in types):
            if op == '==':
                return eq_str(x, y)
            if op == '!=':
                return Not(eq_str(x, y))
        return ('bapp', 'cmp' + op, x, y)

    def binop(self, st, op, x, y, t):
        t = unq(t)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return [(self.compare(st, op, x, y, t), st)]
        if t in ('float', 'double', 'long double') or x[0] == 'f' or y[0] == 'f':
            return [(('app', 'f' + op, x, y), st)]
        if x[0] == 'it' or y[0] == 'it':
            if op == '+':
                return [(self.advance(st, x, y) if x[0] == 'it' else self.advance(st, y, x), st)]
            if op == '-':
                if y[0] == 'it':
                    return [(sub(x[2], y[2]), st)]
                return [(self.advance(st, x, sub(I(0), y)), st)]
        if t.endswith('*') and x[0] not in ('i', 'lin'):
            if op == '+' and (x[0] in ('s', 'cat', 'sfx', 'cstr') or x[0] == 'sym' and t.endswith('char *') and '**' not in t):
                return [(suffix(x, y), st)]
            return [(('app', 'ptr' + op, x, y), st)]
        if op == '+':
            return [(add(self.unchar(x), self.unchar(y)), st)]
        if op == '-':
            return [(sub(self.unchar(x), self.unchar(y)), st)]
        if op in ('&', '|', '^') and t == 'bool':
            bx, by = self.boolify(x), self.boolify(y)
            if op == '&':
                return [(And(bx, by), st)]
            if op == '|':
                return [(Or(bx, by), st)]
            return [(Or(And(bx, Not(by)), And(Not(bx), by)), st)]
        if x[0] == 'b' or y[0] == 'b' or x[0] in ('not', 'and', 'or', 'in', 'eq', 'le', 'eqz', 'prefix', 'exists'):
            if op == '|':
                return [(Or(self.boolify(x), self.boolify(y)), st)]
            if op == '&':
                return [(And(self.boolify(x), self.boolify(y)), st)]
        if x[0] == 'i' and y[0] == 'i':
            try:
                if op == '*':
                    return [(I(x[1] * y[1]), st)]
                if op == '/':
                    return [(I(x[1] // y[1]), st)]
                if op == '%':
                    return [(I(x[1] % y[1]), st)]
                if op == '<<':
                    return [(I(x[1] << y[1]), st)]
                if op == '&':
                    return [(I(x[1] & y[1]), st)]
                if op == '|':
                    return [(I(x[1] | y[1]), st)]
            except Exception:
                pass
        if op == '*':
            if x[0] == 'i' or y[0] == 'i':
                c, z = (x, y) if x[0] == 'i' else (y, x)
                d, k = lin(z)
                return [(mklin({a: b * c[1] for a, b in d.items()}, k * c[1]), st)]
        return [(('app', 'bin' + op, x, y), st)]

    def unchar(self, v):
        return ('nat', v) if v[0] == 'cv' else v

    def compare(self, st, op, x, y, t):
        if op in ('!=',):
            return Not(self.compare(st, '==', x, y, t))
        if t in ('float', 'double', 'long double'):
            return ('fcmp', op, x, y)
        if x[0] == 'null' or y[0] == 'null':
            o = y if x[0] == 'null' else x
            if o[0] == 'null':
                return ('b', op == '==')
            if o[0] in ('ptr', 's'):
                return ('b', op != '==')
            return ('isnull', o)
        if x[0] == 'it' or y[0] == 'it':
            if x[0] == 'it' and y[0] == 'it':
                return self.itcmp(st, op, x, y)
            return ('opqb', 'itcmp', self.fresh())
        if op in ('==', '<', '>', '<=', '>=') and (x[0] == 'rec' or y[0] == 'rec' or op != '==') and x[0] in ('rec', 'list') and y[0] in ('rec', 'list'):
            a, b = array_elems(x), array_elems(y)
            if a is not None and b is not None and len(a) == len(b):
                return array_cmp(op, a, b)
        if x[0] == 'findpos' or y[0] == 'findpos':
            r = self.models.findpos_cmp(self, st, op, x, y)
            if r is not None:
                return r
        if x[0] == 'fcec' or y[0] == 'fcec':
            a, b = (x, y) if x[0] == 'fcec' else (y, x)
            inv, rng = ('bapp', 'fc_invalid') + a[1:], ('bapp', 'fc_range') + a[1:]
            if op == '==' and b[0] == 'i':
                return inv if b[1] == 22 else And(Not(inv), rng) if b[1] == 34 else \
                    And(Not(inv), Not(rng)) if b[1] == 0 else FALSE
        if op == '==' and (x[0] in ('fcptr', 'ptr') or y[0] in ('fcptr', 'ptr')):
            r = self.models.ptr_eq(self, st, x, y)
            if r is not None:
                return r
        if x[0] == 'opq' or y[0] == 'opq':
            if op == '==' and x == y:
                return TRUE
        if x[0] == 'cv' or y[0] == 'cv':
            return self.charcmp(op, x, y)
        if is_boolterm(x) or is_boolterm(y):
            if op == '==':
                bx, by = self.boolify(x), self.boolify(y)
                if bx == TRUE:
                    return by
                if by == TRUE:
                    return bx
                if bx == FALSE:
                    return Not(by)
                if by == FALSE:
                    return Not(bx)
                if bx == by:
                    return TRUE
                return Or(And(bx, by), And(Not(bx), Not(by)))
        if stringish(x) or stringish(y):
            if op == '==':
                return eq_str(x, y)
            return ('bapp', 'strcmp' + op, x, y)
        if x[0] == 'ptr' and y[0] == 'ptr':
            if op == '==':
                return ('b', x == y)
        d = sub(x, y)
        if op == '==':
            return EqI(x, y)
        if op == '<':
            return Le(add(d, I(1)))
        if op == '<=':
            return Le(d)
        if op == '>':
            return Not(Le(d))
        if op == '>=':
            return Not(Le(add(d, I(1))))
        raise Unsupported(op)

    def itcmp(self, st, op, x, y):
        if x[1] != y[1]:
            return ('opqb', 'itcmp', x, y)
        if x == y:
            return ('b', op in ('==', '<=', '>='))
        a, b = x[2], y[2]
        if op == '==':
            return EqI(a, b)
        d = sub(a, b)
        if op == '<':
            return Le(add(d, I(1)))
        if op == '<=':
            return Le(d)
        if op == '>':
            return Not(Le(d))
        return Not(Le(add(d, I(1))))

    def charcmp(self, op, x, y):
        if x[0] == 'cv' and y[0] == 'cv':
            if op == '==':
                return eq_char(x[1], y[1])
            return ('bapp', 'chr' + op, x, y)
        if y[0] == 'cv':
            x, y = y, x
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if y[0] != 'i':
            return ('bapp', 'chr' + op, x, y)
        n = y[1]
        m = 0
        for b in range(256):
            v = b - 256 if (x[2] == 's' and b >= 128) else b
            if {'==': v == n, '<': v < n, '>': v > n, '<=': v <= n, '>=': v >= n}[op]:
                m |= 1 << b
        return In(x[1], m)

    def e_cond(self, e, st):
        out = []
        for k, v, s in self.ev1(e['c'], st):
            if k != 'v':
                out.append((k, v, s))
                continue
            for val, s2 in self.branch(self.boolify(v), s):
                out += self.ev(e['a'] if val else e['b'], s2)
        return self.cap(out)

    def e_idx(self, e, st):
        out = []
        for k, vs, s in self.seq(e['a'], st):
            if k != 'v':
                out.append((k, vs, s))
                continue
            b, i = vs[0], self.rv(s, vs[1])
            bv = self.rv(s, b) if b[0] != 'L' else None
            if b[0] == 'L':
                v = self.load(s, b[1])
                if v[0] == 'ptr':
                    out.append(('v', ('L', ('e', v[1], i)), s))
                elif stringish(v):
                    out.append(('v', idx(v, i), s))
                else:
                    out.append(('v', ('L', ('e', b[1], i)), s))
            else:
                if stringish(bv):
                    out.append(('v', idx(bv, i), s))
                else:
                    out.append(('v', ('L', ('e', ('t', bv), i)), s))
        return out

    def e_init(self, e, st):
        out = []
        for k, vs, s in self.seq(e['a'], st):
            if k != 'v':
                out.append((k, vs, s))
                continue
            vals = [self.rv(s, v) for v in vs]
            nb = len(vals) - len(e.get('fn') or [])
            if e.get('fn') is not None and nb > 0 and all(v[0] == 'rec' for v in vals[:nb]):
                # an aggregate with base classes: their subobjects come first
                d = {}
                for v in vals[:nb]:
                    d.update(dict(v[2]))
                d.update({('f', n): v for n, v in zip(e['fn'], vals[nb:])})
                out.append(('v', ('rec', ('new', unq(e['t'])), tuple(sorted(d.items(), key=repr))), s))
            elif e.get('fn'):
                rec = tuple(sorted(((('f', n), v) for n, v in zip(e['fn'], vals)), key=repr))
                out.append(('v', ('rec', ('new', unq(e['t'])), rec), s))
            elif not is_classy(unq(e['t'])) and '[' not in e['t'] and len(vals) == 1:
                out.append(('v', vals[0], s))
            elif unq(e['t']).startswith('std::array'):
                out.append(('v', vals[0] if vals and vals[0][0] == 'list' else ('list', tuple(vals)), s))
            elif not vals and not is_classy(unq(e['t'])) and '[' not in e['t']:
                out.append(('v', FALSE if unq(e['t']) == 'bool' else NULL if '*' in e['t'] else I(0), s))
            else:
                out.append(('v', ('list', tuple(vals)), s))
        return out

    def e_lambda(self, e, st):
        caps = []
        cur = [(caps, st)]
        for c in e['caps']:
            nxt = []
            for cs, s in cur:
                if c.get('this'):
                    k, v, _ = self.e_this(None, s)[0]
                    if c.get('mode') == 'copy':
                        loc = ('o', self.fresh())
                        s.mem[loc] = self.load(s, v[1])
                        v = ('ptr', loc)
                    nxt.append((cs + [('this', v, 'this')], s))
                    continue
                for k, v, s2 in self.ev(c['e'], s):
                    if k != 'v':
                        continue
                    if c['mode'] == 'ref':
                        nxt.append((cs + [(c['id'], ('ptr', self.lv(s2, v)), 'ref')], s2))
                    else:
                        nxt.append((cs + [(c['id'], self.rv(s2, v), 'copy')], s2))
            cur = nxt
        return [('v', ('clo', e['id'], tuple(o['id'] for o in e['ops']), tuple(cs)), s) for cs, s in cur]

    def e_throw(self, e, st):
        if 'e' not in e:
            # rethrow
            if st.exc:
                return [('throw', st.exc[-1], st)]
            return [('throw', ('?', None, self.line), st)]
        out = []
        line = e.get('l', self.line)
        for k, v, s in self.ev1(e['e'], st):
            if k == 'v':
                s = s.copy()
                out.append(('throw', (unq(e['t']), v, line), s))
            else:
                out.append((k, v, s))
        return out

    def e_new(self, e, st):
        out = []
        for k, v, s in self.ev1(e['e'], st) if e.get('e') else [('v', ('rec', ('new', e['t']), ()), st)]:
            if k == 'v':
                s = s.copy()
                loc = ('o', self.fresh())
                s.mem[loc] = v
                out.append((k, ('ptr', loc), s))
            else:
                out.append((k, v, s))
        return out

    def e_delete(self, e, st):
        return [(k, ('void',) if k == 'v' else v, s) for k, v, s in self.ev(e['e'], st)]

    def e_stmtexpr(self, e, st):
        out = []
        for k, v, s in self.ex(e['s'], st):
            if k == 'next':
                out.append(('v', ('void',), s))
            else:
                out.append((k, v, s))
        return out

    def e_ctor(self, e, st):
        c = e['c']
        ck = e.get('ck')
        a = e.get('a', [])
        sharg = c.startswith('sharg::') or c.startswith('drv::')
        if ck in ('copy', 'move') and len([x for x in a if not x.get('dflt')]) == 1:
            out = []
            for k, v, s in self.ev(a[0], st):
                out.append((k, self.rv(s, v) if k == 'v' else v, s))
            return out
        if sharg:
            f = self.p.fn.get(e.get('f', {}).get('id'))
            out = []
            for k, vs, s in self.seq(a, st):
                if k != 'v':
                    out.append((k, vs, s))
                    continue
                s = s.copy()
                loc = ('o', self.fresh())
                s.mem[loc] = ('rec', ('new', unq(e['t'])), ())
                if f is None:
                    out.append(('v', self.load(s, loc), s))
                    continue
                for k2, v2, s2 in self.call_fn(f, [('L', loc)] + vs, s, cls=unq(e['t'])):
                    if k2 == 'v':
                        out.append(('v', ('L', loc), s2))
                    else:
                        out.append((k2, v2, s2))
            return out
        out = []
        for k, vs, s in self.seq([x for x in a if not (x.get('dflt') and x.get('k') == 'ctor' and x.get('c') == 'std::allocator')], st):
            if k != 'v':
                out.append((k, vs, s))
                continue
            out += self.models.construct(self, s, e, vs)
        return out

    # ------------------------------------------------------------ calls
    def e_call(self, e, st):
        a = e.get('a', [])
        if 'ce' in e:
            out = []
            for k, fv, s in self.ev(e['ce'], st):
                if k != 'v':
                    out.append((k, fv, s))
                    continue
                for k2, vs, s2 in self.seq(a, s):
                    if k2 != 'v':
                        out.append((k2, vs, s2))
                        continue
                    out += self.invoke(s2, self.rv(s2, fv), vs, e)
            return out
        f = e['f']
        # assignment operators evaluate the right side first; order is irrelevant for our purposes
        out = []
        for k, vs, s in self.seq(a, st):
            if k != 'v':
                out.append((k, vs, s))
                continue
            self.line = e.get('l') or self.line
            out += self.call(s, f, vs, e)
        return self.cap(out)

    def call(self, st, f, vs, e):
        name = f['n']
        self.stats['calls'] += 1
        h = self.hooks.get(name)
        if h:
            r = h(self, st, f, vs, e)
            if r is not None:
                return r
        fn = None
        fid = f['id']
        if f.get('virtual') and not e.get('qual'):
            objv = vs[0]
            loc = self.obj(st, objv, e.get('arrow')) if vs else None
            if loc is not None:
                cls = self.dyn_class(st, loc)
                if cls:
                    c = cls
                    seen = [c]
                    while seen:
                        x = seen.pop(0)
                        m = self.p.overrides.get(fid, {}).get(x)
                        if m:
                            fid = m
                            break
                        if any(mm['id'] == fid for mm in self.p.classes.get(x, {}).get('methods', [])):
                            break
                        seen += self.p.bases.get(x, [])
        fn = self.p.fn.get(fid)
        if fn is not None and 'body' in fn and (name.startswith(('sharg::', 'drv::sc_', 'drv::lifecycle::', 'drv::registry::')) or '<lambda>' in name) \
                and name not in self.inline_stop:
            if '<lambda>' in name and e.get('m'):
                clo = self.rv(st, vs[0])
                if clo[0] == 'clo':
                    return self.call_closure(st, clo, vs[1:], fn)
                # operator() of a lambda we do not know the captures of
                return self.call_closure(st, ('clo', 0, (fid,), ()), vs[1:], fn)
            args = list(vs)
            if e.get('m') or (fn.get('cls') and not fn.get('static') and e.get('ot')):
                obj = self.obj(st, args[0], e.get('arrow'))
                args = [('L', obj)] + args[1:]
            elif fn.get('static') and e.get('ot') is not None and len(args) > len(fn['params']):
                args = args[1:]
            return self.call_fn(fn, args, st)
        if fn is not None and fn.get('defaulted') and name.endswith('operator=') and len(vs) == 2:
            st = st.copy()
            loc = self.lv(st, vs[0])
            self.store(st, loc, self.rv(st, vs[1]))
            return [('v', ('L', loc), st)]
        if name.startswith('sharg::') and name.endswith('operator=') and len(vs) == 2:
            st = st.copy()
            loc = self.lv(st, vs[0])
            self.store(st, loc, self.rv(st, vs[1]))
            return [('v', ('L', loc), st)]
        return self.models.call(self, st, f, vs, e)

    def dyn_class(self, st, loc):
        v = self._raw(st, loc)
        if v[0] == 'rec':
            b = v[1]
            if b and b[0] == 'new':
                return b[1]
            v = b
        if v and v[0] == 'obj':
            return v[1]
        return None

    def call_closure(self, st, clo, args, fn=None):
        if fn is None:
            ops = [self.p.fn.get(i) for i in clo[2]]
            ops = [o for o in ops if o]
            if not ops:
                return [('v', ('opq', 'closure', self.fresh()), st)]
            fn = ops[0]
        return self.call_fn(fn, args, st, clo=clo)

    def invoke(self, st, fv, args, e=None, prefer=None):
        """call a callable value"""
        args = [('L', a[2][1]) if a[:2] == ('app', 'ref') and a[2][0] == 'ptr' else a for a in args]
        if fv[0] == 'rec' and fv[1] and fv[1][0] == 'clo':
            fv = fv[1]
        if fv[0] == 'clo':
            fn = None
            cands = [self.p.fn[i] for i in fv[2] if i in self.p.fn]
            if prefer:
                cands = [c for c in cands if prefer(c)] or cands
            if cands:
                fn = cands[0]
            return self.call_closure(st, fv, args, fn)
        if fv[0] == 'fnptr':
            fn = self.p.fn.get(fv[1])
            if fn and 'body' in fn:
                return self.call_fn(fn, args, st)
            return self.models.call(self, st, {'n': fv[2], 'id': fv[1], 'p': []}, args, e or {})
        if fv[0] == 'memfn':
            return self.call(st, fv[1], [fv[2]] + list(args), {'m': True})
        if fv[0] == 'not1':
            return [(k, Not(self.boolify(self.rv(s, v))) if k == 'v' else v, s)
                    for k, v, s in self.invoke(st, fv[1], args, e)]
        st = st.copy()
        st.event('callback', fv, tuple(self.rv(st, a) for a in args), self.line)
        out = [('v', ('opq', 'callback', self.fresh()), st)]
        return out

    def call_fn(self, fn, args, st, clo=None, cls=None):
        """inline a function. args: list of values/L; a leading object for non static member functions"""
        if self.depth > 40 or sum(1 for x in self.callchain if x == fn['id']) > 3:
            st = st.copy()
            st.opq = st.opq + ('recursion',)
            return [('v', ('opq', 'rec:' + fn['n'], self.fresh()), st)]
        self.stats['functions'].add((fn['n'], fn['loc']))
        st = st.copy()
        fid = self.fresh()
        params = fn['params']
        args = list(args)
        if clo is not None:
            for cid, v, mode in clo[3]:
                if mode == 'this':
                    st.env[(fid, 'this')] = v[1]
                elif mode == 'ref':
                    st.env[(fid, cid)] = v[1]
                else:
                    l = ('v', fid, cid, 'cap')
                    st.mem[l] = v
                    st.env[(fid, cid)] = l
        elif fn.get('cls') and not fn.get('static'):
            o = args.pop(0)
            st.env[(fid, 'this')] = self.lv(st, o)
        for i, p in enumerate(params):
            if i < len(args):
                a = args[i]
                if a is None:
                    continue
                if p.get('isref'):
                    l = self.lv(st, a)
                    st.env[(fid, p['id'])] = l
                else:
                    l = ('v', fid, p['id'], p['n'])
                    v = self.rv(st, a)
                    st.mem[l] = v
        self.stack.append(fid)
        self.callchain.append(fn['id'])
        self.depth += 1
        saved = self.line
        try:
            rs = [('next', None, st)]
            if fn.get('kind') == 'ctor':
                rs = self.run_inits(fn, st, cls)
            out = []
            for k, v, s in rs:
                if k == 'next':
                    out += self.ex(fn['body'], s) if fn.get('body') else [(k, v, s)]
                else:
                    out.append((k, v, s))
            res = []
            isref = fn.get('ret', '').rstrip().endswith('&')
            for k, v, s in out:
                if k == 'next':
                    res.append(('v', ('void',), s))
                elif k == 'ret':
                    if not isref and v is not None and v[0] == 'L':
                        v = self.load(s, v[1])
                    res.append(('v', v if v is not None else ('void',), s))
                elif k in ('break', 'cont'):
                    raise Unsupported('stray ' + k)
                else:
                    res.append((k, v, s))
            return self.cap(res)
        finally:
            self.stack.pop()
            self.callchain.pop()
            self.depth -= 1
            self.line = saved

    callchain = []

    def run_inits(self, fn, st, cls=None):
        cur = [('next', None, st)]
        inits = fn.get('inits', [])
        for it in inits:
            nxt = []
            for k, v, s in cur:
                if k != 'next':
                    nxt.append((k, v, s))
                    continue
                this = s.env[(self.frame(), 'this')]
                e = it['e']
                if it.get('deleg') or it.get('base'):
                    # base / delegating constructor runs on the same object
                    if e and e['k'] == 'ctor':
                        f2 = self.p.fn.get(e.get('f', {}).get('id'))
                        if e.get('ck') in ('copy', 'move') and it.get('base'):
                            for k2, v2, s2 in self.ev1(e['a'][0], s):
                                nxt.append(('next', None, s2) if k2 == 'v' else (k2, v2, s2))
                            continue
                        if f2 is not None and (f2.get('body') or f2.get('inits')):
                            for k2, vs, s2 in self.seq(e['a'], s):
                                if k2 != 'v':
                                    nxt.append((k2, vs, s2))
                                    continue
                                for k3, v3, s3 in self.call_fn(f2, [('L', this)] + vs, s2):
                                    nxt.append(('next', None, s3) if k3 == 'v' else (k3, v3, s3))
                            continue
                        for k2, vs, s2 in self.seq(e.get('a', []), s):
                            if k2 == 'v':
                                s2 = s2.copy()
                                s2.mem[('f', this, '#base')] = ('list', tuple(self.rv(s2, x) for x in vs))
                                nxt.append(('next', None, s2))
                            else:
                                nxt.append((k2, vs, s2))
                        continue
                    nxt.append((k, v, s))
                    continue
                if e is None:
                    nxt.append((k, v, s))
                    continue
                for k2, v2, s2 in self.ev1(e, s):
                    if k2 != 'v':
                        nxt.append((k2, v2, s2))
                        continue
                    s2 = s2.copy()
                    self.store(s2, ('f', this, it['fld']), v2)
                    nxt.append(('next', None, s2))
            cur = nxt
        return cur

    def assign(self, st, loc, v):
        self.store(st, loc, v)

    # ------------------------------------------------------------ statements
    def ex(self, s, st):
        if s is None:
            return [('next', None, st)]
        return getattr(self, 's_' + s['k'], self.s_unknown)(s, st)

    def s_unknown(self, s, st):
        st = st.copy()
        st.opq = st.opq + ('stmt:' + str(s.get('n', s['k'])),)
        return [('next', None, st)]

    def s_null(self, s, st):
        return [('next', None, st)]

    def s_block(self, s, st):
        cur = [st]
        out = []
        declared = []
        for c in s['b']:
            nxt = []
            if c['k'] == 'decl':
                declared += [d for d in c['d']]
            for x in cur:
                for k, v, s2 in self.ex(c, x):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        out.append((k, v, s2))
            cur = self.merge(nxt)
            if len(cur) + len(out) > self.LIMIT:
                raise Explosion('block at ' + str(s.get('l')))
            if not cur:
                break
        res = [('next', None, x) for x in cur] + out
        guards = [d for d in declared if unq(d['t']) in self.p.dtors]
        for d in reversed(guards):
            nres = []
            for k, v, x in res:
                loc = ('v', self.frame(), d['id'], d['n'])
                if loc not in x.mem and loc not in x.kids:
                    nres.append((k, v, x))
                    continue
                if k == 'exit':
                    nres.append((k, v, x))
                    continue
                fn = self.p.fn[self.p.dtors[unq(d['t'])]]
                if k == 'ret' and v is not None and v[0] == 'L':
                    v = self.load(x, v[1])
                for k2, v2, x2 in self.call_fn(fn, [('L', loc)], x):
                    nres.append((k, v, x2) if k2 == 'v' else (k2, v2, x2))
            res = nres
        return res

    def merge(self, states):
        """states that differ in nothing observable are one state"""
        if len(states) < 8:
            return states
        seen = {}
        for s in states:
            key = (id(s.trace) if s.trace else 0, frozenset(s.mem.items()), s.facts.order, s.opq)
            if key not in seen:
                seen[key] = s
        return list(seen.values())

    def s_decl(self, s, st):
        cur = [('next', None, st)]
        for d in s['d']:
            nxt = []
            for k, v, x in cur:
                if k != 'next':
                    nxt.append((k, v, x))
                else:
                    nxt += self.declare(d, x)
            cur = nxt
        return cur

    def declare(self, d, st):
        fr = self.frame()
        loc = ('v', fr, d['id'], d['n'])
        if d.get('static') and not d.get('const'):
            st = st.copy()
            st.opq = st.opq + ('static local',)
        if 'init' not in d or d['init'] is None:
            st = st.copy()
            t = unq(d['t'])
            st.env.pop((fr, d['id']), None)
            st.mem[loc] = ('opq', 'uninit', self.fresh()) if not is_classy(t) else ('rec', ('new', t), ())
            for lg in self.loggers:
                lg.add(loc)
            return [('next', None, st)]
        out = []
        for k, v, s in self.ev(d['init'], st):
            if k != 'v':
                out.append((k, v, s))
                continue
            s = s.copy()
            if d.get('isref'):
                l = self.lv(s, v)
                s.env[(fr, d['id'])] = l
            else:
                val = self.rv(s, v)
                s.env.pop((fr, d['id']), None)
                self._drop(s, loc)
                s.mem[loc] = val
                for lg in self.loggers:
                    lg.add(loc)
                l = loc
            for b in d.get('bind', []):
                n = b.get('fld') or ('first' if b['i'] == 0 else 'second')
                s.env[(fr, b['id'])] = ('f', l, n)
            out.append(('next', None, s))
        return out

    def s_expr(self, s, st):
        out = []
        for k, v, x in self.ev(s['e'], st):
            out.append(('next', None, x) if k == 'v' else (k, v, x))
        return out

    def cond(self, s, st):
        """evaluate the condition (with declaration) of if/while/for -> [(bool|abrupt kind, payload, state)]"""
        cur = [('next', None, st)]
        if s.get('cv'):
            cur = self.declare(s['cv'], st)
        out = []
        for k, v, x in cur:
            if k != 'next':
                out.append((k, v, x))
                continue
            if s.get('c') is None:
                out.append((True, None, x))
                continue
            for k2, v2, x2 in self.ev1(s['c'], x):
                if k2 != 'v':
                    out.append((k2, v2, x2))
                    continue
                for val, x3 in self.branch(self.boolify(v2), x2):
                    out.append((val, None, x3))
        return out

    def s_if(self, s, st):
        cur = self.ex(s['init'], st) if s.get('init') else [('next', None, st)]
        out = []
        for k, v, x in cur:
            if k != 'next':
                out.append((k, v, x))
                continue
            for k2, v2, x2 in self.cond(s, x):
                if k2 is True:
                    out += self.ex(s['a'], x2)
                elif k2 is False:
                    out += self.ex(s.get('b'), x2)
                else:
                    out.append((k2, v2, x2))
        return self.cap(out)

    def s_ret(self, s, st):
        if s.get('e') is None:
            return [('ret', None, st)]
        return [('ret' if k == 'v' else k, v, x) for k, v, x in self.ev(s['e'], st)]

    def s_break(self, s, st):
        return [('break', None, st)]

    def s_continue(self, s, st):
        return [('cont', None, st)]

    def s_label(self, s, st):
        return self.ex(s['b'], st)

    def s_case(self, s, st):
        return self.ex(s['b'], st)

    s_default = s_case

    def s_switch(self, s, st):
        out = []
        cur = self.ex(s['init'], st) if s.get('init') else [('next', None, st)]
        body = s['b']
        stmts = body['b'] if body['k'] == 'block' else [body]
        # flatten case labels
        flat = []

        def add_stmt(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x.get('v') if x['k'] == 'case' else 'default')
                x = x['b']
            flat.append((labels, x))
        for x in stmts:
            add_stmt(x)

        def run_from(i, state):
            res = []
            states = [state]
            for labels, x in flat[i:]:
                nxt = []
                for y in states:
                    for k, v, z in self.ex(x, y):
                        if k == 'next':
                            nxt.append(z)
                        elif k == 'break':
                            res.append(('next', None, z))
                        else:
                            res.append((k, v, z))
                states = nxt
            return res + [('next', None, y) for y in states]
        for k, v, x in cur:
            if k != 'next':
                out.append((k, v, x))
                continue
            for k2, cv, x2 in self.ev1(s['c'], x):
                if k2 != 'v':
                    out.append((k2, cv, x2))
                    continue
                states = [x2]
                default = None
                for i, (labels, _) in enumerate(flat):
                    for lab in labels:
                        if lab == 'default':
                            default = i
                            continue
                        nxt = []
                        for y in states:
                            _, lvv, _ = self.ev1(lab, y)[0]
                            t = self.compare(y, '==', cv, lvv, 'int')
                            for val, z in self.branch(t, y):
                                if val:
                                    out += run_from(i, z)
                                else:
                                    nxt.append(z)
                        states = nxt
                for y in states:
                    if default is not None:
                        out += run_from(default, y)
                    else:
                        out.append(('next', None, y))
        return self.cap(out)

    def s_try(self, s, st):
        out = []
        for k, v, x in self.ex(s['b'], st):
            if k != 'throw':
                out.append((k, v, x))
                continue
            t = v[0]
            done = False
            for h in s['h']:
                ht = h['t']
                if ht is None or t == '?' or self.p.is_a(t, unq(ht)) or self.std_is_a(t, unq(ht)):
                    y = x.copy()
                    if t == '?' and ht is not None:
                        y.opq = y.opq + ('unknown exception type',)
                    y.event('catch', t, unq(ht) if ht else '...', self.line)
                    if h.get('v'):
                        loc = ('v', self.frame(), h['v']['id'], h['v']['n'])
                        y.mem[loc] = v[1] if v[1] is not None else ('opq', 'exc', self.fresh())
                        y.env.pop((self.frame(), h['v']['id']), None)
                    y.exc = y.exc + (v,)
                    for k2, v2, z in self.ex(h['b'], y):
                        z = z.copy()
                        z.exc = z.exc[:-1] if z.exc else ()
                        out.append((k2, v2, z))
                    if t == '?' and ht is not None:
                        continue
                    done = True
                    break
            if not done:
                out.append((k, v, x))
        return self.cap(out)

    STD_EXC = {
        'std::filesystem::filesystem_error': ['std::system_error'],
        'std::system_error': ['std::runtime_error'],
        'std::regex_error': ['std::runtime_error'],
        'std::runtime_error': ['std::exception'],
        'std::logic_error': ['std::exception'],
        'std::out_of_range': ['std::logic_error'],
        'std::length_error': ['std::logic_error'],
        'std::invalid_argument': ['std::logic_error'],
        'std::bad_alloc': ['std::exception'],
        'std::bad_optional_access': ['std::exception'],
        'std::bad_variant_access': ['std::exception'],
        'std::bad_cast': ['std::exception'],
        'std::future_error': ['std::logic_error'],
        'std::overflow_error': ['std::runtime_error'],
        'std::range_error': ['std::runtime_error'],
    }

    def std_is_a(self, t, base):
        base = base.replace('std::filesystem::__cxx11::', 'std::filesystem::').replace('std::__cxx11::', 'std::')
        t = t.replace('std::filesystem::__cxx11::', 'std::filesystem::').replace('std::__cxx11::', 'std::')
        if t == base:
            return True
        for b in self.STD_EXC.get(t, []) + self.p.bases.get(t, []):
            if self.std_is_a(b, base):
                return True
        return False

    # ------------------------------------------------------------ loops
    def s_while(self, s, st):
        return self.loop(s, st, s.get('inc'), s['b'])

    def s_for(self, s, st):
        out = []
        for k, v, x in self.ex(s.get('init'), st):
            if k != 'next':
                out.append((k, v, x))
            else:
                out += self.loop(s, x, s.get('inc'), s['b'])
        return out

    def s_do(self, s, st):
        # body once, then a while loop
        out = []
        for k, v, x in self.ex(s['b'], st):
            if k in ('next', 'cont'):
                out += self.loop(s, x, None, s['b'])
            elif k == 'break':
                out.append(('next', None, x))
            else:
                out.append((k, v, x))
        return out

    def s_rfor(self, s, st):
        out = []
        cur = self.ex(s['init'], st) if s.get('init') else [('next', None, st)]
        for k, v, x in cur:
            if k != 'next':
                out.append((k, v, x))
                continue
            for k2, r, x2 in self.ev(s['r'], x):
                if k2 != 'v':
                    out.append((k2, r, x2))
                    continue
                out += self.range_loop(s, x2.copy(), r)
        return self.cap(out)

    def range_loop(self, s, st, r):
        loc = self.lv(st, r)
        c = self.load(st, loc)
        if c[0] == 'view':      # transformed / reversed range: elements unknown in order
            pass
        if c[0] == 'ptr':
            loc = c[1]
            c = self.load(st, loc)
        if c[0] == 'rec':
            es = array_elems(c)
            if es is not None:
                c = ('list', tuple(es))
                self.store(st, loc, c)
        isstr = is_stringtype(s.get('rt', '')) or c[0] in ('s', 'cat', 'sfx', 'ch1')
        n = size(c)
        if c[0] in ('list', 's', 'cat', 'ch1') and n[0] == 'i' and n[1] <= max(12, self.unroll):
            cur = [st]
            out = []
            for i in range(n[1]):
                nxt = []
                for x in cur:
                    x = x.copy()
                    item = ('L', ('e', loc, I(i))) if c[0] == 'list' else ('L', ('c', loc, I(i)))
                    for k, v, y in self.bind_and_run(s, x, item):
                        if k in ('next', 'cont'):
                            nxt.append(y)
                        elif k == 'break':
                            out.append(('next', None, y))
                        else:
                            out.append((k, v, y))
                cur = nxt
            return out + [('next', None, x) for x in cur]
        lid = ('loop', s.get('l'), tuple(self.callchain[-3:]))
        return self.generic_loop(s, st, kind='range', loc=loc, cont=c, isstr=isstr,
                                 run=lambda y, item: self.bind_and_run(s, y, item))

    def bind_and_run(self, s, st, item):
        d = s['v']
        fr = self.frame()
        loc = ('v', fr, d['id'], d['n'])
        if d.get('isref'):
            l = self.lv(st, item)
            st.env[(fr, d['id'])] = l
        else:
            self._drop(st, loc)
            st.mem[loc] = self.rv(st, item)
            st.env.pop((fr, d['id']), None)
            l = loc
        for b in d.get('bind', []):
            n = b.get('fld') or ('first' if b['i'] == 0 else 'second')
            st.env[(fr, b['id'])] = ('f', l, n)
        return self.ex(s['b'], st)

    def loop(self, s, st, inc, body):
        return self.generic_loop(s, st, kind='while', inc=inc, body=body)

    def iterate(self, s, st, kind, kw, lid):
        """one evaluation of the loop: returns (exits, abrupt, continuing states)"""
        exits, abrupt, back = [], [], []
        if kind == 'range':
            c, loc = kw['cont'], kw['loc']
            x = st.copy()
            if kw['isstr']:
                item = ('L', ('c', loc, ('nat', lid)))
            else:
                item = ('L', ('e', loc, ('nat', lid)))
            more = Not(Le(sub(size(c), add(('nat', lid), I(1))))) if False else None
            # a generic element exists only if the range is not empty
            for val, y in self.branch(EqI(size(c), I(0)), x):
                if val:
                    exits.append(y)
                    continue
                exits.append(y)
                y = y.copy()
                for k, v, z in kw['run'](y, item):
                    if k in ('next', 'cont'):
                        back.append(z)
                    elif k == 'break':
                        abrupt.append(('next', None, z))
                    else:
                        abrupt.append((k, v, z))
            return exits, abrupt, back
        for k, v, x in self.cond(s, st):
            if k is True:
                for k2, v2, y in self.ex(kw['body'], x):
                    if k2 in ('next', 'cont'):
                        if kw.get('inc') is not None:
                            for k3, v3, z in self.ev(kw['inc'], y):
                                if k3 == 'v':
                                    back.append(z)
                                else:
                                    abrupt.append((k3, v3, z))
                        else:
                            back.append(y)
                    elif k2 == 'break':
                        abrupt.append(('next', None, y))
                    else:
                        abrupt.append((k2, v2, y))
            elif k is False:
                exits.append(x)
            else:
                abrupt.append((k, v, x))
        return exits, abrupt, back

    unroll = 0

    def generic_loop(self, s, st, kind, **kw):
        self.stats['loops'].add(s.get('l'))
        if kind == 'while' and self.unroll:
            # peel iterations as long as the facts decide whether there is another one
            out, cur = [], [st]
            for _ in range(self.unroll):
                nxt = []
                for x in cur:
                    exits, abrupt, back = self.iterate(s, x, kind, kw, None)
                    if exits and (abrupt or back):
                        out += self.summarise_loop(s, x, kind, **kw)
                        continue
                    out += [('next', None, y) for y in exits] + abrupt
                    nxt += back
                cur = nxt
                if not cur:
                    return self.cap(out)
                self.cap(cur)
            for x in cur:
                out += self.summarise_loop(s, x, kind, **kw)
            return self.cap(out)
        return self.summarise_loop(s, st, kind, **kw)

    def summarise_loop(self, s, st, kind, **kw):
        lid = ('L', s.get('l'), self.fresh() if kind != 'range' else self.fresh())
        uid0 = self.uid
        # 1. what does the loop modify
        mod = set()
        base = st

        def live(loc):
            r = root(loc)
            if r[0] == 'v':
                # variables of this frame or older, existing before the loop
                return loc_known(st, loc)
            if r[0] == 'o' and isinstance(r[1], int):
                return r[1] <= uid0
            return r[0] != 't'
        probe = st
        for _ in range(4):
            log = set()
            self.loggers.append(log)
            try:
                self.iterate(s, self.havoc(st, mod, lid, {}), kind, kw, lid)
            finally:
                self.loggers.pop()
            new = {l for l in log if live(l)} - mod
            # a modified parent covers its children
            if not new:
                break
            mod |= new
        for lg in self.loggers:
            lg |= mod
        mod = {l for l in mod if not any(anc in mod for anc in ancestors(l))}
        # 2. reachable combinations of finite values
        out = []
        finite = {l: set() for l in mod}

        def key_of(x):
            k = {}
            for l in mod:
                v = self.load(x, l)
                if is_const(v) and v[0] != 's' and l not in widened:
                    k[l] = v
            return k
        widened = set()
        # the first iteration starts from the exact state
        n0 = len(base.facts.order)
        start = base.copy()
        start.event('loop', s.get('l'), 'first')
        work = []
        seen = {}
        exits_all = []
        k0 = key_of(base)
        results = []

        def run(x, key, hv):
            n0 = len(x.facts.order)
            ex, ab, back = self.iterate(s, x, kind, kw, lid)
            results.append((key, hv, x, n0, ex, ab, back))
            return back
        for x in run(start, 'first', None):
            work.append(x)
        heads = {}
        guard = 0
        while work:
            x = work.pop()
            k = key_of(x)
            for l, v in k.items():
                finite[l].add(v)
                if len(finite[l]) > 4 or (v[0] == 'i' and len(finite[l] | {k0.get(l)}) > 3):
                    widened.add(l)
            k = {l: v for l, v in k.items() if l not in widened}
            fk = frozenset(k.items())
            if fk in heads:
                continue
            guard += 1
            if guard > 64:
                raise Explosion('loop ' + str(s.get('l')))
            h = self.havoc(base, mod, lid, k)
            h.event('loop', s.get('l'), 'any')
            heads[fk] = h
            for y in run(h, fk, h):
                work.append(y)
        if widened:
            # drop heads that were explored before a location was widened: they are subsumed
            pass
        # 3. existence facts for loops over a container
        self.search_facts(s, kind, kw, lid, results, key_of, out, mod)
        return self.cap(out)

    def search_facts(self, s, kind, kw, lid, results, key_of, out, mod):
        cont = None
        var = None
        if kind == 'range':
            cont = kw['cont']
            var = idx(cont, ('nat', lid)) if kw['isstr'] else elem(self_raw_elem(cont), ('nat', lid))
        else:
            cont, var = self.loop_subject(results, lid)
        if cont is None:
            for key, hv, x, n0, ex, ab, back in results:
                out += [('next', None, y) for y in ex] + ab
            return
        # conditions under which an iteration leaves through an early exit or changes the finite values
        leave = []
        ok = True
        stay_only = True
        dnfs = []
        for key, hv, x, n0, ex, ab, back in results:
            if key == 'first':
                continue
            for k, v, y in ab:
                d = self.delta(y, n0, var, cont, lid)
                if d is None:
                    ok = False
                else:
                    dnfs.append((('abrupt',), d))
        first = None
        # finite keys: which head is the "nothing found yet" head = key of the state before the loop
        any_abrupt = [d for t, d in dnfs if t == ('abrupt',)]
        changed = {}
        k_init = None
        init_state = results[0][2]
        k_init = frozenset(key_of(init_state).items())
        keep_ok = True
        for key, hv, x, n0, ex, ab, back in results:
            if key == 'first':
                continue
            kk = key
            for y in back:
                nk = frozenset((l, v) for l, v in key_of(y).items() if l in dict(kk) or True)
                if restrict(nk, kk) != kk:
                    d = self.delta(y, n0, var, cont, lid)
                    if kk == restrict(k_init, kk):
                        if d is None:
                            keep_ok = False
                        else:
                            changed.setdefault(nk, []).append(d)
        p_ab = pred_from_dnf(any_abrupt) if (ok and any_abrupt) else None
        all_changed = [d for ds in changed.values() for d in ds]
        p_ch = pred_from_dnf(all_changed) if (keep_ok and all_changed) else None
        for key, hv, x, n0, ex, ab, back in results:
            kk = key if key != 'first' else None
            for y in ex:
                ys = [y]
                if p_ab is not None:
                    ys = self.assume_all(ys, exists(cont, p_ab), False)
                if p_ch is not None and (kk is None or kk == restrict(k_init, kk)):
                    ys = self.assume_all(ys, exists(cont, p_ch), False)
                elif p_ch is not None and kk is not None:
                    ds = [d for nk, l in changed.items() if restrict(nk, kk) == kk for d in l]
                    if ds:
                        ys = self.assume_all(ys, exists(cont, pred_from_dnf(ds)), True)
                out += [('next', None, z) for z in ys]
            for k, v, y in ab:
                ys = [y]
                if p_ab is not None and key != 'first':
                    ys = self.assume_all(ys, exists(cont, p_ab), True)
                elif p_ab is not None and kind == 'range':
                    ys = self.assume_all(ys, exists(cont, p_ab), True)
                out += [(k, v, z) for z in ys]

    def assume_all(self, ys, t, val):
        out = []
        for y in ys:
            for f in y.facts.assume(t, val):
                out.append(self.setfacts(y, f))
        return out

    def delta(self, y, n0, var, cont, lid):
        """facts added in this iteration, with the element replaced by the bound variable; None if they mention
        anything else that changes with the iteration"""
        d = []
        for a, v in y.facts.order[n0:]:
            if not mentions(a, var):
                if mentions_loop(a, lid):
                    if a == ('le', sub(size(cont), I(0))) or a[0] in ('le', 'eqz'):
                        continue
                    return None
                if a in (Le(size(cont)),):
                    continue
                d.append((a, v))
                continue
            b = subst(a, {var: BOUND})
            if mentions_loop(b, lid):
                return None
            d.append((renorm(b) if b[0] in ('eq', 'prefix', 'in', 'eqc', 'le', 'eqz') else b, v))
        return d

    def loop_subject(self, results, lid):
        """iterator / index loops: the container whose element at the havocked position is inspected"""
        for key, hv, x, n0, ex, ab, back in results:
            if key == 'first' or hv is None:
                continue
            cands = set()
            for k, v, y in ab + [('next', None, z) for z in back]:
                for a, val in y.facts.order[n0:]:
                    t = find_loop_elem(a, lid)
                    if t is not None:
                        cands.add(t)
            if len(cands) == 1:
                t = cands.pop()
                pos = t[2]
                if t[1][0] == 'sym' or t[1][0] in ('field', 'elem', 'deref', 'list'):
                    return t[1], t
        return None, None

    def havoc(self, st, mod, lid, keep):
        n = st.copy()
        for l in sorted(mod, key=repr):
            if l in keep:
                self._drop(n, l)
                n.mem[l] = keep[l]
                continue
            old = self.load(st, l)
            if old[0] == 'it':
                pos = ('nat', ('hv', lid, lockey(l)))
                v = ('it', old[1], pos, old[3])
                # iterators stay inside their container
                c = self.load(st, old[1])
                t = Le(sub(pos, size(c)))
                fs = n.facts.assume(t, True)
                if fs:
                    n.facts = fs[0]
            elif old[0] == 'i' or old[0] in ('lin', 'size', 'nat'):
                if old[0] == 'i' and old[1] < 0:
                    v = ('hv', lid, lockey(l))
                else:
                    v = ('nat', ('hv', lid, lockey(l)))
            elif old[0] == 'rec' and any(k == ('f', '#src') for k, _ in old[2]):
                # an input stream: an unknown rest and unknown flags
                src = dict(old[2])[('f', '#src')]
                new = {('f', '#src'): ('sym', ('rest', src, lid)), ('f', '#eof'): ('bapp', 'later_eof', src, S(str(lid))),
                       ('f', '#fail'): ('bapp', 'later_fail', src, S(str(lid)))}
                v = ('rec', old[1], tuple((k, new.get(k, y)) for k, y in old[2]))
            else:
                v = ('hv', lid, lockey(l))
            self._drop(n, l)
            n.mem[l] = v
            c = l
            while c[0] in ('f', 'e'):
                par = c[1]
                ks = n.kids.get(par)
                n.kids[par] = (ks or frozenset()) | {c}
                c = par
        return n


def self_raw_elem(c):
    return c


def lockey(l):
    if l[0] in ('f', 'e'):
        return (l[0], lockey(l[1]), l[2])
    if l[0] == 'v':
        return ('v', l[3], l[1])
    return l


def loc_known(st, loc):
    r = root(loc)
    if r in st.mem or r in st.kids:
        return True
    return False


def ancestors(l):
    while l[0] in ('f', 'e', 'c'):
        l = l[1]
        yield l


def root(l):
    while l[0] in ('f', 'e', 'c'):
        l = l[1]
    return l


def restrict(nk, kk):
    keys = {l for l, _ in kk}
    return frozenset((l, v) for l, v in nk if l in keys)


def mentions_loop(t, lid):
    if t == lid:
        return True
    if isinstance(t, tuple):
        return any(mentions_loop(x, lid) for x in t if isinstance(x, tuple))
    return False


def find_loop_elem(t, lid):
    if isinstance(t, tuple) and t:
        if t[0] in ('elem', 'idx') and len(t) == 3 and mentions_loop(t[2], lid) and not mentions_loop(t[1], lid):
            return t
        for x in t:
            if isinstance(x, tuple):
                r = find_loop_elem(x, lid)
                if r is not None:
                    return r
    return None


def is_boolterm(v):
    return v[0] in ('b', 'not', 'and', 'or', 'in', 'eq', 'eqc', 'le', 'eqz', 'prefix', 'exists', 'has', 'alt', 'lt', 'isnull',
                    'pred', 'fcmp', 'bapp', 'truth', 'opqb', 'fs')


def is_stringtype(t):
    t = unq(t)
    return t.startswith('std::basic_string<') or t.startswith('std::basic_string_view<') or t == 'std::basic_string'


def is_classy(t):
    return '::' in t and not t.endswith('*') and not t.startswith('enum')


def field(v, n):
    if v[0] == 'rec':
        for s, x in v[2]:
            if s == ('f', n):
                return x
        b = v[1]
        if b is None or b[0] == 'new':
            return ('undef', n, b)
        return field(b, n)
    if v[0] == 'pair':
        return v[1] if n == 'first' else v[2]
    return ('field', v, n)


def elem(v, i):
    if v[0] == 'rec':
        for s, x in v[2]:
            if s == ('e', i):
                return x
        b = v[1]
        if b is None or b[0] == 'new':
            return ('undef', i, b)
        return elem(b, i)
    if v[0] == 'list' and i[0] == 'i' and 0 <= i[1] < len(v[1]):
        return v[1][i[1]]
    return ('elem', v, i)


def array_elems(t):
    """elements of a std::array value"""
    if t[0] == 'list':
        return list(t[1])
    if t[0] != 'rec':
        return None
    b = t
    while b[0] == 'rec' and b[1] is not None and b[1][0] == 'rec':
        b = b[1]
    m = re.match(r'std::array<.*, (\d+)>$', str(b[1][1])) if b[1] is not None and b[1][0] == 'new' else None
    if not m:
        return None
    out = [I(0)] * int(m.group(1))

    def apply(t):
        if t[1] is not None and t[1][0] == 'rec':
            apply(t[1])
        for k, v in sorted(t[2], key=lambda kv: kv[0] != ('f', '_M_elems')):
            i = k[1]
            if k == ('f', '_M_elems'):
                if v[0] == 'list':
                    for j, y in enumerate(v[1]):
                        out[j] = y
            elif k[0] == 'e' and i[0] == 'i':
                out[i[1]] = v
            elif k[0] in ('e', 'f') and isinstance(i, str) and i.isdigit():
                out[int(i)] = v
            else:
                return False
        return True
    return out if apply(t) else None


def array_cmp(op, a, b):
    if op == '==':
        return And(*[TRUE if x == y else ('eqz', sub(x, y)) if x[0] != 'i' or y[0] != 'i' else FALSE for x, y in zip(a, b)])
    if op in ('>', '<='):
        r = array_cmp('<', b, a)
        return r if op == '>' else Not(r)
    if op == '>=':
        return Not(array_cmp('<', a, b))
    if all(x[0] == 'i' for x in list(a) + list(b)):
        return ('b', a < b)
    return ('bapp', 'array<', ('list', tuple(a)), ('list', tuple(b)))


RANGES = {}
for _n, _b, _s in (('signed char', 8, 1), ('char', 8, 1), ('unsigned char', 8, 0), ('short', 16, 1), ('unsigned short', 16, 0), ('int', 32, 1),
                   ('unsigned int', 32, 0), ('long', 64, 1), ('unsigned long', 64, 0), ('long long', 64, 1), ('unsigned long long', 64, 0)):
    RANGES[_n] = (-(1 << _b - 1), (1 << _b - 1) - 1) if _s else (0, (1 << _b) - 1)
OPAQUE_HEADS = ('opq', 'opqb', 'hv', 'undef')


def opaque_in(t):
    """name of the first unmodelled value a term depends on"""
    if isinstance(t, tuple) and t:
        if t[0] in ('opq', 'opqb'):
            return str(t[1])
        if t[0] == 'hv':
            return 'loop variable'
        if t[0] == 'undef':
            return 'undefined value'
        if t[0] == 'nat':
            return None
        if t[0] in ('s', 'i', 'b'):
            return None
        for x in t:
            if isinstance(x, tuple):
                r = opaque_in(x)
                if r is not None:
                    return r
    return None
