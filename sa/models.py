"""What the analyses know about std:: (and C library) functions: values, effects and the exceptions they may throw."""
import itertools
import re
from domain import *
import engine as EG
from engine import (State, unq, field, elem, is_boolterm, is_classy, is_stringtype, Unsupported, root, opaque_in)

NPOS = I(2 ** 64 - 1)
SPACE = mask_of(' \t\n\r\f\v')


def chs(c):
    if c[0] == 'i':
        return S(chr(c[1] & 255))
    if c[0] == 'cv':
        c = c[1]
    return ('ch1', c)


def V(v, st):
    return [('v', v, st)]


def as_str(v):
    if v[0] == 'rec' and v[1] is not None and v[1][0] == 'new' and not v[2] and 'string' in v[1][1]:
        return S('')
    return v


STRINGY = ('std::basic_string', 'std::basic_string_view', 'std::filesystem::path')
PURE_EXC = {'std::bad_alloc'}


def char_class_regex(p):
    """(set of characters, least length) for patterns such as ^[a-z_]+$, None for everything else"""
    m = re.fullmatch(r'\^?\[(\^?)((?:[^\]\\\[]|\\.)*)\]([+*]?)\$?', p)
    if not m or not m.group(3) or '\\' in m.group(2):
        return None
    body, mask, i = m.group(2), 0, 0
    while i < len(body):
        if i + 2 < len(body) and body[i + 1] == '-':
            for c in range(ord(body[i]), ord(body[i + 2]) + 1):
                mask |= 1 << c
            i += 3
        else:
            mask |= 1 << ord(body[i])
            i += 1
    if m.group(1):
        mask = ALL & ~mask
    return mask, 1 if m.group(3) == '+' else 0


def targs(f):
    """template arguments of the callee"""
    t = f.get('ta')
    if not t:
        return ['?']
    if isinstance(t, (list, tuple)):
        return list(t)
    out, d, cur = [], 0, ''
    for c in t:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def plain_order(f, n):
    """the extra arguments of an algorithm (comparison, projection) are the default ones"""
    ps = [q.split('::')[-1].rstrip(' &') for q in f.get('p', [])[-n:]] if n else []
    return all(q in ('less', 'identity', 'equal_to') for q in ps)


def pathjoin(st, a, b):
    """a / b; plain concatenation when a is known not to end, and b not to begin, with a slash"""
    def known(c):
        return st.facts.value(In(c, 1 << 47)) is False if c[0] != 'i' else c[1] != 47
    if a[0] in ('s', 'cat', 'ch1') and b[0] in ('s', 'cat', 'ch1') and a != S('') and b != S(''):
        last = a[1][-1] if a[0] == 'cat' else a
        first = b[1][0] if b[0] == 'cat' else b
        if last[0] in ('s', 'ch1') and first[0] in ('s', 'ch1') and \
                known(I(ord(last[1][-1])) if last[0] == 's' else last[1]) and known(I(ord(first[1][0])) if first[0] == 's' else first[1]):
            return cat(a, S('/'), b)
    return ('app', 'path/', a, b)


def fixed_chars(s):
    """the characters of a text of known length"""
    out = []
    for q in s[1] if s[0] == 'cat' else (s,):
        if q[0] == 's':
            out += [I(ord(c)) for c in q[1]]
        elif q[0] == 'ch1':
            out.append(q[1])
        else:
            return None
    return out


KNOWN_OUTSIDE = ('drv::', 'ioctl', '__cxxabiv1::', 'std::type_info::', 'sharg::')


class Models:
    def __init__(self):
        self.epoch = 0

    def words(self, E, st, ptr):
        """the words a stream over a text of known length still has"""
        if ptr[0] != 'ptr':
            return None
        src = E.load(st, ('f', ptr[1], '#src'))
        cs = fixed_chars(as_str(src)) if stringish(src) else None
        if cs is None or len(cs) > 4096:
            return None
        cur = [((), (), st)]        # words, characters of the current word
        for c in cs:
            nxt = []
            for ws, w, s in cur:
                if c[0] == 'i':
                    bs = [(bool(SPACE >> (c[1] & 255) & 1), s)]
                else:
                    bs = E.branch(In(c, SPACE), s)
                for sp, s2 in bs:
                    if sp:
                        nxt.append((ws + (cat(*w),) if w else ws, (), s2))
                    else:
                        nxt.append((ws, w + (chs(c),), s2))
            cur = nxt
        out = []
        for ws, w, s in cur:
            s = s.copy()
            E.store(s, ('f', ptr[1], '#src'), S(''))
            out += V(('list', ws + (cat(*w),) if w else ws), s)
        return out

    # ------------------------------------------------------------------ constructors
    def construct(self, E, st, e, vs):
        c = e['c']
        t = unq(e['t'])
        n = len(vs)
        a = [E.rv(st, v) for v in vs]
        dflt = [bool(x.get('dflt')) for x in e.get('a', []) if not (
            x.get('dflt') and x.get('k') == 'ctor' and x.get('c') == 'std::allocator')]
        while dflt and dflt[-1] and n > 1:
            dflt.pop()
            n -= 1
        if c == 'std::basic_string' or c == 'std::basic_string_view':
            if n and c == 'std::basic_string' and a[n - 1][0] == 'rec' and a[n - 1][1][:1] == ('new',) \
                    and 'allocator' in str(a[n - 1][1]):
                n -= 1
            if n == 0:
                return V(S(''), st)
            x = a[0]
            if n == 1:
                if x[0] == 'list':
                    return V(cat(*[chs(y) for y in x[1]]), st)
                if x[0] in ('app', 'opq') and x[1] == 'getenv' or x == NULL:
                    st = st.copy()
                    st.event('cstr', x, E.line)
                return V(as_str(self.ptr_str(E, st, x)), st)
            if n == 2 and x[0] != 'it':
                pt = [y.get('t', '') for y in e.get('a', [])]
                p0 = ' '.join(e.get('f', {}).get('p', [])[:1]) if e.get('f') else ''
                if 'char' in p0 or '*' in p0 or 'string' in p0:
                    return V(('app', 'substr0', x, a[1]), st)
                if x == I(1):
                    return V(chs(a[1]), st)
                if x[0] == 'i' and a[1][0] == 'i' and x[1] < 4096:
                    return V(S(chr(a[1][1]) * x[1]), st)
                return V(('app', 'repeat', x, a[1]), st)
            if n == 2 and x[0] == 'it' and a[1][0] == 'it':
                return V(self.slice(E, st, x, a[1]), st)
            return V(('app', 'ctor:' + c) + tuple(a[:n]), st)
        if c in ('std::vector', 'std::list', 'std::unordered_set', 'std::unordered_map', 'std::deque', 'std::set'):
            if n and a[0][0] == 'list':
                return V(a[0], st)
            if n == 0:
                return V(('list', ()), st)
            if a[0][0] == 'it' and n >= 2 and a[1][0] == 'it':
                return V(self.slice(E, st, a[0], a[1]), st)
            if a[0][0] == 'list' or 'initializer_list' in str(e.get('f', {}).get('p', '')):
                return V(a[0], st)
            if a[0][:2] == ('app', 'istream_iterator') and len(a[0]) == 3 and 'std::basic_string' in t:
                r = self.words(E, st, a[0][2])
                if r is not None:
                    return r
            if c in ('std::vector', 'std::deque', 'std::list') and a[0][0] == 'i' and a[0][1] <= 64 and n == 2:
                return V(('list', (a[1],) * a[0][1]), st)
            return V(('opq', 'ctor:' + c, E.fresh()), st)
        if c == 'std::function':
            return V(a[0], st)
        if c == 'std::optional':
            if n == 0 or a[0] == ('list', ()):
                return V(('none',), st)
            return V(a[0] if a[0][0] in ('none', 'some') else ('some', a[0]), st)
        if c == 'std::variant':
            return V(a[0] if n else ('opq', 'variant', E.fresh()), st)
        if c == 'std::unique_ptr':
            return V(a[0] if n else NULL, st)
        if c in ('std::filesystem::path', 'std::filesystem::__cxx11::path'):
            if n == 0:
                return V(S(''), st)
            return V(as_str(self.ptr_str(E, st, a[0])), st)
        if c in ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream'):
            st = st.copy()
            u = E.fresh()
            mode = 'r' if 'ifstream' in c else 'w'
            st.event('open', mode, a[0] if n else None, u, E.line)
            return V(('rec', ('new', c), ((('f', '#path'), a[0] if n else NULL), (('f', '#u'), I(u)))), st)
        if c in ('std::basic_stringstream', 'std::basic_ostringstream'):
            return V(('rec', ('new', c), ((('f', '#buf'), a[0] if n else S('')),)), st)
        if c == 'std::basic_istringstream':
            return V(('rec', ('new', c), ((('f', '#src'), a[0] if n else S('')),)), st)
        if c == 'std::error_code':
            return V(FALSE, st)
        if c == 'std::basic_regex':
            if a and a[0][0] != 's':
                return self.may_throw(E, st, ('app', 'regex', a[0]), 'std::regex_error')
            return V(('app', 'regex', a[0] if a else S('')), st)
        if c == 'std::thread':
            st = st.copy()
            st.event('thread', tuple(a), E.line)
            out = V(('app', 'thread', I(E.fresh())), st)
            # the arguments are copied before the thread starts; what it runs
            return out
        if c == 'std::promise':
            u = E.fresh()
            return V(('app', 'promise', I(u)), st)
        if c == 'std::future':
            return V(('app', 'future0'), st)
        if c in ('std::istream_iterator', 'std::ostream_iterator'):
            return V(('app', c.split('::')[1]) + tuple(('ptr', E.lv(st, v)) for v in vs), st)
        if c == '__gnu_cxx::__normal_iterator':
            return V(a[0] if n else ('opq', 'iterator', E.fresh()), st)
        if c == 'std::filesystem::directory_iterator':
            return self.fs_effect(E, st, 'list_directory', vs, e, ('app', 'diriter', a[0]))
        if c in ('std::array', 'std::pair', 'std::tuple') and n:
            if c == 'std::pair' and n == 2:
                return V(('pair', a[0], a[1]), st)
            if n == 1 and a[0][0] == 'list':
                return V(a[0], st)
            return V(('list', tuple(a)), st)
        if c == 'std::runtime_error' or c.endswith('_error') or c == 'std::exception':
            return V(('rec', ('new', t), ((('f', '#what'), a[0] if n else S('')),)), st)
        if c.startswith('drv::'):
            return V(('rec', ('new', t), ()) if n == 0 else ('app', 'ctor:' + c) + tuple(a), st)
        if n == 0:
            return V(('rec', ('new', t), ()), st)
        return V(('app', 'ctor:' + c) + tuple(a[:n]), st)

    def ptr_str(self, E, st, x):
        """a char pointer / view as the string it denotes"""
        if x[0] == 'ptr' and x[1][0] == 'c':
            return suffix(E.load(st, x[1][1]), x[1][2])
        if x[0] == 'ptr':
            return E.load(st, x[1])
        return x

    def slice(self, E, st, b, e):
        c = E.load(st, b[1])
        if b[2] == I(0) and e[2] == size(c):
            return c
        if c[0] == 'list' and b[2][0] == 'i' and e[2][0] == 'i':
            return ('list', c[1][b[2][1]:e[2][1]])
        if stringish(c) and b[2][0] == 'i' and e[2][0] == 'i':
            cs = fixed_chars(c)
            if cs is not None and 0 <= b[2][1] <= e[2][1] <= len(cs):
                return cat(*[chs(x) for x in cs[b[2][1]:e[2][1]]]) if b[2][1] < e[2][1] else S('')
        return ('range', c, b[2], e[2])

    # ------------------------------------------------------------------ helpers
    def may_throw(self, E, st, v, exc):
        out = [('v', v, st)]
        if E.throwing_std:
            s2 = st.copy()
            s2.event('stdthrow', exc, E.line)
            out.append(('throw', (exc, ('opq', 'exc', E.fresh()), E.line), s2))
        return out

    def fork(self, E, st, t, vt=TRUE, vf=FALSE):
        return [('v', vt if val else vf, s) for val, s in E.branch(t, st)]

    def resolvable(self, fp, s):
        x = fp[2]
        return fp[1] == s and fp[3] == I(0) and fp[4] in ('first', 'last') and x[0] == 's' and len(x[1]) == 1

    def resolve_pos(self, E, st, fp):
        """the positions a single character can be found at: [(position, state)]"""
        s, x, k = fp[1], fp[2], fp[4]
        parts = s[1] if s[0] == 'cat' else (s,)
        starts, acc = [], I(0)
        for p in parts:
            starts.append(acc)
            acc = add(acc, size(p))
        todo = [st]
        out = []
        for q, b in (list(zip(parts, starts)) if k == 'first' else list(zip(parts, starts))[::-1]):
            nxt = []
            for t in todo:
                if q[0] == 's':
                    i = q[1].find(x[1]) if k == 'first' else q[1].rfind(x[1])
                    if i >= 0:
                        out.append((add(b, I(i)), t))
                    else:
                        nxt.append(t)
                    continue
                cond = eq_char(q[1], I(ord(x[1]))) if q[0] == 'ch1' else exists(q, ('cset', 1 << ord(x[1])))
                for val, t2 in E.branch(cond, t):
                    if not val:
                        nxt.append(t2)
                    elif q[0] == 'ch1':
                        out.append((b, t2))
                    else:
                        n = ('nat', ('pos', k, q, x))
                        for f2 in t2.facts.assume(Le(sub(add(n, I(1)), size(q))), True):
                            t3 = t2.copy()
                            t3.facts = f2
                            out.append((add(b, n), t3))
            todo = nxt
        return out + [(NPOS, t) for t in todo]

    def at_pos(self, t, fp, pos):
        if t == fp:
            return pos
        d, k = lin(t)
        if fp not in d:
            return t
        rest = add(t, fp, -1)
        if pos == NPOS:
            return add(rest, I(-1)) if rest[0] == 'i' and rest[1] > 0 else ('app', 'npos', rest)
        return add(rest, pos)

    def findpos_cmp(self, E, st, op, x, y):
        if op != '==':
            if x[0] == 'findpos' and y[0] != 'findpos':
                return ('bapp', 'cmp' + op, x, y)
            return ('bapp', 'cmp' + op, x, y)
        if y[0] == 'findpos':
            x, y = y, x
        if y == NPOS:
            return Not(self.contains(x))
        if y[0] == 'i' and x[4] == 'first' and x[3] == I(0) and y == I(0):
            return prefix(x[1], x[2])
        return ('bapp', 'eq', x, y)

    def contains(self, fp):
        _, s, pat, start, kind = fp
        if kind in ('first', 'last') and start == I(0):
            if pat[0] == 's' and len(pat[1]) == 1:
                return exists(s, ('cset', 1 << (ord(pat[1]) & 255)))
            return ('bapp', 'contains', s, pat)
        if kind.endswith('of') and start == I(0) and pat[0] == 's':
            return exists(s, ('cset', mask_of(pat[1])))
        return ('bapp', 'contains', s, pat, start, kind)

    def ptr_eq(self, E, st, x, y):
        if y[0] == 'fcptr':
            x, y = y, x
        if x[0] == 'fcptr' and y[0] == 'ptr' and y[1][0] == 'c':
            s = E.load(st, y[1][1])
            if s == x[1] and y[1][2] == size(s):
                return ('bapp', 'fc_all') + x[1:]
            return ('opqb', 'ptr', x, y)
        if x[0] in ('sfx', 'sym') and y[0] == 'ptr':
            x, y = y, x
        if x[0] == 'ptr' and x[1][0] == 'c' and y[0] in ('sfx', 'sym'):
            s, i = (y[1], y[2]) if y[0] == 'sfx' else (y, I(0))
            if E.load(st, x[1][1]) == s:
                return EqI(x[1][2], i)
        if x[0] == 'fcptr' and y[0] == 'sfx' and y[1] == x[1] and y[2] == size(x[1]):
            return ('bapp', 'fc_all') + x[1:]
        if x[0] == 'ptr' and y[0] == 'ptr':
            if x[1] == y[1]:
                return TRUE
            if x[1][0] == 'c' and y[1][0] == 'c' and x[1][1] == y[1][1]:
                return EqI(x[1][2], y[1][2])
            return FALSE
        return None

    def havoc_args(self, E, st, f, vs, skip_first=False):
        """an unknown function may change everything it gets by non-const reference or pointer"""
        ps = list(f.get('p', []))
        args = list(vs)
        if len(args) == len(ps) + 1:
            ps = ['&'] + ps
        for i, v in enumerate(args):
            p = ps[i] if i < len(ps) else ''
            if v[0] == 'L' and p.rstrip().endswith('&') and 'const' not in p and not p.rstrip().endswith('&&'):
                E.store(st, v[1], ('opq', 'by ' + f['n'], E.fresh()))
            x = E.rv(st, v) if v[0] == 'L' else v
            if x[0] == 'clo':
                for cid, cv, mode in x[3]:
                    if mode == 'ref':
                        E.store(st, cv[1], ('opq', 'by ' + f['n'], E.fresh()))

    # ------------------------------------------------------------------ calls
    def call(self, E, st, f, vs, e):
        n = f['n'].replace('std::filesystem::__cxx11::', 'std::filesystem::').replace('std::__cxx11::', 'std::')
        for pre in ('std::', '__gnu_cxx::', 'drv::', ''):
            pass
        if n.startswith('std::basic_string::operator std::basic_string_view'):
            n = 'std::basic_string::str'
            return V(E.rv(st, vs[0]), st)
        m = self.TABLE.get(n)
        if m is None:
            cls, _, meth = n.rpartition('::')
            m = self.CLASS.get((cls, meth)) or self.CLASS.get((cls, '*'))
            if m is None and cls.startswith('std::ranges::') and meth in ('operator()',):
                m = self.TABLE.get(cls)
            if m is None and meth.startswith('operator'):
                m = self.OPS.get(meth)
        if m is not None:
            r = m(self, E, st.copy(), n.rpartition('::')[2], vs, f, e)
            if r is not None:
                return r
        return self.unknown(E, st, f, vs, e, n)

    def unknown(self, E, st, f, vs, e, n):
        st = st.copy()
        E.stats['opaque_calls'].add(n)
        a = tuple(E.rv(st, v) for v in vs)
        if n.startswith('drv::') and n.endswith('operator()'):    # a validator nothing is known about
            st.event('validate', a[1] if len(a) > 1 else None, n, E.line)
            out = V(('void',), st)
            for exc in ('sharg::validation_error', 'std::runtime_error'):
                s2 = st.copy()
                s2.event('validator_throws', exc, E.line)
                out.append(('throw', (exc, ('opq', 'validator exception', E.fresh()), 'validator'), s2))
            return out
        st.event('call', n, a, E.line)
        self.havoc_args(E, st, f, vs)
        if any(x[0] == 'clo' for x in a) and not n.startswith('std::thread'):
            st.opq = st.opq + ('callable given to ' + n,)
        ret = unq(f.get('ret', '') or '')
        if ret == 'void':
            return V(('void',), st)
        if n.startswith(KNOWN_OUTSIDE):     # their result may be anything, the checks know what it means
            return V(('bapp' if ret == 'bool' else 'app', n) + a, st)
        return V(('opqb' if ret == 'bool' else 'opq', n, a), st)

    # ------------------------------------------------------------------ strings
    def m_str(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        s = as_str(E.load(st, loc))
        if s[0] == 'opq' and s[1] == 'uninit':
            s = S('')
        a = [E.rv(st, v) for v in vs[1:]]
        args_e = e.get('a', [])[1:]
        while args_e and args_e[-1].get('dflt') and a:
            args_e = args_e[:-1]
            a = a[:-1]
        ispath = 'path' in f['n'] and 'filesystem' in f['n']

        def put(v):
            E.store(st, loc, v)
            return V(('L', loc), st)
        if meth == 'operator=' or meth == 'assign':
            x = a[0]
            if x[0] == 'list':
                x = cat(*[chs(y) for y in x[1]])
            elif self.ischar(f, 0) or x[0] == 'i':
                x = chs(x)
            else:
                x = as_str(self.ptr_str(E, st, x))
            return put(x)
        if meth in ('empty',):
            return V(Le(size(s)), st)
        if meth in ('size', 'length'):
            return V(size(s), st)
        if meth in ('operator[]', 'at'):
            st.event('index', s, a[0], meth, E.line)
            return V(('L', ('c', loc, a[0])), st)
        if meth == 'front':
            st.event('front', s, E.line)
            return V(('L', ('c', loc, I(0))), st)
        if meth == 'back':
            st.event('front', s, E.line)
            return V(('L', ('c', loc, sub(size(s), I(1)))), st)
        if meth in ('begin', 'cbegin'):
            return V(('it', loc, I(0), 's'), st)
        if meth in ('end', 'cend'):
            return V(('it', loc, size(s), 's'), st)
        if meth in ('data', 'c_str', 'string', 'native', 'str') or 'basic_string_view' in meth:
            if meth == 'data' and 'string_view' in f['n']:
                st.event('svdata', s, E.line)
            return V(s, st)
        if meth == 'clear':
            return put(S('')) and V(('void',), st)
        if meth in ('operator+=', 'append', 'push_back') and not ispath:
            x = a[0]
            if len(a) == 1:
                if x[0] == 'list':
                    x = cat(*[chs(y) for y in x[1]])
                elif meth == 'push_back' or self.ischar(f, 0):
                    x = chs(x)
                else:
                    x = as_str(self.ptr_str(E, st, x))
                return put(cat(s, x))
            if len(a) == 2 and a[0][0] == 'it' and a[1][0] == 'it':
                return put(cat(s, self.slice(E, st, a[0], a[1])))
            return put(cat(s, ('app', 'append') + tuple(a)))
        if meth == 'pop_back':
            if s[0] == 's':
                return put(S(s[1][:-1])) and V(('void',), st)
            if s[0] == 'cat' and s[1][-1][0] == 's':
                return put(cat(*(s[1][:-1] + (S(s[1][-1][1][:-1]),)))) and V(('void',), st)
            st.event('pop_back', s, E.line)
            return put(('app', 'pop_back', s)) and V(('void',), st)
        if meth == 'substr':
            b = a[0] if a else I(0)
            ln = a[1] if len(a) > 1 else NPOS
            out = []
            fp = find_head(('x', b, ln), ('findpos',))
            if fp and s[0] != 's' and ln in (NPOS, fp) and self.resolvable(fp, s):
                for pos, s2 in self.resolve_pos(E, st, fp):
                    s2 = s2.copy()
                    b2, l2 = [self.at_pos(y, fp, pos) for y in (b, ln)]
                    s2.event('substr', s, b2, E.line)
                    if l2 == NPOS:
                        out += V(suffix(s, b2), s2)
                    elif b2 == I(0) and l2[0] == 'i':
                        out += V(cat(*[chs(idx(s, I(i))) for i in range(l2[1])]), s2)
                    else:
                        out += V(('substr', s, b2, l2), s2)
                return out
            if s[0] == 's' and b[0] == 'i' and ln[0] == 'i':
                return V(S(s[1][b[1]:b[1] + ln[1]]), st)
            st.event('substr', s, b, E.line)
            if b[0] == 'i' and ln[0] == 'i' and s[0] == 'cat':
                cs = fixed_chars(s)
                if cs is not None and b[1] <= len(cs):
                    return V(cat(*[chs(c) for c in cs[b[1]:b[1] + ln[1]]]) if cs[b[1]:b[1] + ln[1]] else S(''), st)
            if b == I(0) and ln != NPOS:
                if ln[0] == 'findpos':
                    return V(('substr', s, b, ln), st)
                return V(('substr', s, b, ln), st)
            if ln == NPOS:
                if b[0] in ('findpos',) or find_head(b, ('findpos',)):
                    return V(('substr', s, b, ln), st)
                return V(suffix(s, b), st)
            return V(('substr', s, b, ln), st)
        if meth == 'remove_prefix':
            return put(suffix(s, a[0])) and V(('void',), st)
        if meth in ('starts_with',):
            x = chs(a[0]) if self.ischar(f, 0) else as_str(self.ptr_str(E, st, a[0]))
            return V(prefix(s, x), st)
        if meth in ('ends_with', 'contains'):
            x = chs(a[0]) if self.ischar(f, 0) else as_str(self.ptr_str(E, st, a[0]))
            if meth == 'contains':
                return V(self.contains(('findpos', s, x, I(0), 'first')), st)
            return V(('bapp', meth, s, x), st)
        if meth in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            x = chs(a[0]) if self.ischar(f, 0) else as_str(self.ptr_str(E, st, a[0]))
            k = {'find': 'first', 'rfind': 'last', 'find_first_of': 'first_of', 'find_last_of': 'last_of',
                 'find_first_not_of': 'first_nof', 'find_last_not_of': 'last_nof'}[meth]
            if s[0] == 's' and x[0] == 's' and len(a) == 1 and k in ('first', 'last'):
                p = s[1].find(x[1]) if k == 'first' else s[1].rfind(x[1])
                return V(I(p) if p >= 0 else NPOS, st)
            if s[0] == 's' and x[0] == 's' and all(y[0] == 'i' for y in a[1:]):
                p = const_find(s[1], x[1], k, a[1][1] if len(a) > 1 else None)
                return V(I(p) if p >= 0 else NPOS, st)
            if s[0] == 'cat' and s[1][0][0] == 's' and x[0] == 's' and len(a) == 1 and k in ('first', 'first_of', 'first_nof') and (len(x[1]) == 1 or k != 'first'):
                p = const_find(s[1][0][1], x[1], k, None)
                if p >= 0:
                    return V(I(p), st)
            return V(('findpos', s, x, a[1] if len(a) > 1 else I(0), k), st)
        if meth == 'erase':
            if a and a[0][0] == 'it':
                st.event('erase', s, E.line)
                return put(('app', 'erase', s) + tuple(a))
            if s[0] == 's' and all(x[0] == 'i' for x in a):
                b = a[0][1] if a else 0
                ln = a[1][1] if len(a) > 1 else len(s[1])
                return put(S(s[1][:b] + s[1][b + ln:]))
            if len(a) == 2 and a[0] == I(0):
                return put(suffix(s, a[1]))
            return put(('app', 'erase', s) + tuple(a))
        if meth in ('insert', 'replace', 'resize'):
            if meth == 'insert' and len(a) == 2 and a[0][0] == 'i' and s[0] == 's' and 0 <= a[0][1] <= len(s[1]) and not self.ischar(f, 1):
                x = as_str(self.ptr_str(E, st, a[1]))
                return put(cat(S(s[1][:a[0][1]]), x, S(s[1][a[0][1]:])))
            if meth == 'insert' and len(a) == 2 and a[0][0] == 'i' and s[0] == 'cat' and s[1][0][0] == 's' and 0 <= a[0][1] <= len(s[1][0][1]) and not self.ischar(f, 1):
                x = as_str(self.ptr_str(E, st, a[1]))
                return put(cat(S(s[1][0][1][:a[0][1]]), x, S(s[1][0][1][a[0][1]:]), *s[1][1:]))
            if meth == 'resize' and len(a) == 2 and a[0][0] == 'i':
                out = []
                n = a[0][1]
                # longer strings are cut, shorter ones are filled
                for val, s2 in E.branch(Le(sub(I(n), size(s))), st):
                    s2 = s2.copy()
                    if val:
                        E.store(s2, loc, cat(*[chs(idx(s, I(i))) for i in range(n)]))
                        out += V(('void',), s2)
                    else:
                        if n == 1:
                            E.store(s2, loc, chs(a[1]))
                        else:
                            E.store(s2, loc, ('app', 'resize', s) + tuple(a))
                        out += V(('void',), s2)
                return out
            if meth == 'resize' and len(a) == 1 and s[0] == 'cat' and s[1][-1][0] == 's':
                k = sub(size(s), a[0])
                if k[0] == 'i' and 0 <= k[1] <= len(s[1][-1][1]):
                    t = s[1][-1][1]
                    return put(cat(*(s[1][:-1] + (S(t[:len(t) - k[1]]),)))) and V(('void',), st)
            return put(('app', meth, s) + tuple(a))
        if meth == 'reserve' or meth == 'shrink_to_fit':
            return V(('void',), st)
        if meth in ('compare',):
            return V(('app', 'compare', s) + tuple(a), st)
        # paths
        if meth in ('operator/=', 'operator+='):
            return put(pathjoin(st, s, as_str(self.ptr_str(E, st, a[0]))) if meth == 'operator/=' else ('app', 'path+', s, as_str(self.ptr_str(E, st, a[0]))))
        if meth in ('filename', 'extension', 'stem', 'has_extension', 'has_filename', 'has_stem'):
            r = self.path_part(E, st, meth, s)
            if r is not None:
                return r
        if meth in ('filename', 'extension', 'stem', 'parent_path'):
            return V(('app', meth, s), st)
        if meth in ('has_extension', 'has_filename', 'has_stem', 'is_absolute'):
            return V(('bapp', meth, s), st)
        return None

    def path_part(self, E, st, meth, s):
        """parts of a path of known length"""
        cs = fixed_chars(s)
        if cs is None:
            return None
        out = []

        def text(part):
            return cat(*[chs(c) for c in part])

        def last(cs, ch, st, lo=0):
            """(index of the last ch at lo or behind it | -1, state)"""
            todo, res = [(len(cs) - 1, st)], []
            while todo:
                i, s1 = todo.pop()
                if i < lo:
                    res.append((-1, s1))
                    continue
                for val, s2 in E.branch(eq_char(cs[i], I(ord(ch))), s1):
                    if val:
                        res.append((i, s2))
                    else:
                        todo.append((i - 1, s2))
            return res
        for i, s1 in last(cs, '/', st):
            name = cs[i + 1:]
            if meth == 'filename':
                out += V(text(name), s1)
                continue
            if meth == 'has_filename':
                out += V(('b', bool(name)), s1)
                continue
            if meth == 'has_stem':
                out += V(('b', bool(name)), s1)
                continue
            for j, s2 in last(name, '.', s1, 1):
                special = [(False, s2)]
                if j == 1 and len(name) == 2:      # ".." has no extension
                    special = E.branch(eq_char(name[0], I(46)), s2)
                for dots, s3 in special:
                    k = len(name) if j < 1 or dots else j
                    if meth == 'has_extension':
                        out += V(('b', k < len(name)), s3)
                    else:
                        out += V(text(name[k:] if meth == 'extension' else name[:k]), s3)
        return out

    def ischar(self, f, i):
        p = f.get('p', [])
        return i < len(p) and unq(p[i]) in ('char', 'value_type', 'std::basic_string<char>::value_type', 'const char')

    # ------------------------------------------------------------------ containers
    def m_cont(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        c = E.load(st, loc)
        if c[0] == 'rec' and c[1] == ('new', c[1][1] if c[1] and len(c[1]) > 1 else None) and not c[2]:
            c = ('list', ())
        if c[0] == 'undef':
            c = ('list', ())
        a = [E.rv(st, v) for v in vs[1:]]
        isset = 'unordered' in f['n'] or '::set' in f['n'] or '::map' in f['n']

        def put(v):
            E.store(st, loc, v)
            return V(('void',), st)
        if meth == 'operator=':
            x = a[0]
            E.store(st, loc, x)
            return V(('L', loc), st)
        if meth == 'empty':
            return V(Le(size(c)), st)
        if meth == 'size':
            return V(size(c), st)
        if meth in ('operator[]', 'at') and not isset:
            st.event('index', c, a[0], meth, E.line)
            return V(('L', ('e', loc, a[0])), st)
        if meth == 'front':
            st.event('front', c, E.line)
            return V(('L', ('e', loc, I(0))), st)
        if meth == 'back':
            st.event('front', c, E.line)
            return V(('L', ('e', loc, sub(size(c), I(1)))), st)
        if meth in ('begin', 'cbegin'):
            return V(('it', loc, I(0), 'c'), st)
        if meth in ('end', 'cend'):
            return V(('it', loc, size(c), 'c'), st)
        if meth in ('rbegin', 'crbegin', 'rend', 'crend') and c[0] == 'list' and len(c[1]) <= 64:
            # the elements in reverse order (read only)
            r = ('t', ('list', c[1][::-1]))
            return V(('it', r, I(0 if 'begin' in meth else len(c[1])), 'c'), st)
        if meth == 'data':
            return V(('it', loc, I(0), 'c'), st)
        if meth == 'clear':
            return put(('list', ()))
        if meth in ('push_back', 'emplace_back') or (isset and meth in ('emplace', 'insert') and len(a) == 1):
            x = a[0] if a else ('rec', ('new', '?'), ())
            if x[0] == 'ptr' and x[1][0] in ('c',):
                x = self.ptr_str(E, st, x)
            x = as_str(x)
            if isset:
                had = exists(c, ('eqv', x))
                new = ('list', c[1] + (x,)) if c[0] == 'list' else ('push', c, x)
                if had == TRUE:
                    return V(('pair', ('opq', 'iterator', E.fresh()), FALSE), st)
                E.store(st, loc, new)
                return V(('pair', ('opq', 'iterator', E.fresh()), Not(had)), st)
            new = ('list', c[1] + (x,)) if c[0] == 'list' else ('push', c, x)
            E.store(st, loc, new)
            return V(('L', ('e', loc, size(c))), st)
        if meth == 'pop_back':
            if c[0] == 'push':
                return put(c[1])
            if c[0] == 'list' and c[1]:
                return put(('list', c[1][:-1]))
            st.event('pop_back', c, E.line)
            return put(('app', 'pop_back', c))
        if meth == 'contains' or meth == 'count':
            return V(exists(c, ('eqv', as_str(a[0]))), st)
        if meth == 'find':
            t = exists(c, ('eqv', as_str(a[0])))
            out = []
            for val, s in E.branch(t, st):
                if val:
                    pos = ('nat', ('find', c, a[0]))
                    for g in s.facts.assume(Le(add(sub(pos, size(c)), I(1))), True):
                        out += V(('it', loc, pos, 'c'), E.setfacts(s, g))
                else:
                    out += V(('it', loc, size(c), 'c'), s)
            return out
        if meth == 'insert' and len(a) >= 2:
            if a[0][0] == 'it' and len(a) == 3 and a[1][0] == 'it':
                new = self.slice(E, st, a[1], a[2])
                if a[0][2] == size(c):
                    if c == ('list', ()):
                        return put(new)
                    if new == ('list', ()):
                        return put(c)
                    return put(('app', 'concat', c, new))
                if a[0][2] == I(0):
                    return put(('app', 'concat', new, c))
            return put(('app', 'insert', c) + tuple(a))
        if meth == 'erase':
            st.event('erase', c, E.line)
            if len(a) == 2 and a[0][0] == 'it' and a[0] == a[1]:
                return put(c)
            if len(a) == 2 and a[0] == ('uniq_end',):
                return put(c)
            if len(a) == 2 and c[0] == 'list' and all(x[0] == 'it' and x[2][0] == 'i' for x in a):
                return put(('list', c[1][:a[0][2][1]] + c[1][a[1][2][1]:]))
            return put(('app', 'erase', c) + tuple(a))
        if meth in ('reserve', 'shrink_to_fit'):
            return V(('void',), st)
        if meth == 'resize':
            return put(('app', 'resize', c) + tuple(a))
        return None

    # ------------------------------------------------------------------ iterators
    def m_iter(self, E, st, meth, vs, f, e):
        if meth == 'operator=':
            loc = E.lv(st, vs[0])
            E.store(st, loc, E.rv(st, vs[1]))
            return V(('L', loc), st)
        x = E.rv(st, vs[0])
        if meth in ('operator*', 'operator->'):
            if x[0] == 'it':
                r = E.itderef(st, x)
                if meth == 'operator->':
                    return V(('ptr', r[1]) if r[0] == 'L' else r, st)
                return V(r, st)
            return V(('app', 'iterderef', x), st)
        if meth in ('operator++', 'operator--'):
            loc = E.lv(st, vs[0])
            new = E.advance(st, x, I(1 if meth == 'operator++' else -1)) if x[0] == 'it' else ('app', 'iternext', x)
            E.store(st, loc, new)
            return V(x if len(vs) > 1 else ('L', loc), st)
        if meth in ('operator+', 'operator-', 'operator+=', 'operator-='):
            y = E.rv(st, vs[1])
            if x[0] == 'it':
                if y[0] == 'it':
                    return V(sub(x[2], y[2]), st)
                r = E.advance(st, x, y if '+' in meth else sub(I(0), y))
                if meth.endswith('='):
                    loc = E.lv(st, vs[0])
                    E.store(st, loc, r)
                    return V(('L', loc), st)
                return V(r, st)
            return V(('app', 'iter' + meth, x, y), st)
        if meth in ('base',):
            return V(x, st)
        return None

    def m_cmp(self, E, st, meth, vs, f, e):
        x, y = E.rv(st, vs[0]), E.rv(st, vs[1])
        op = meth[len('operator'):]
        if x[0] == 'it' or y[0] == 'it':
            if x[0] == 'it' and y[0] == 'it':
                return V(E.itcmp(st, op if op != '!=' else '==', x, y) if op != '!=' else Not(E.itcmp(st, '==', x, y)), st)
            return V(('opqb', 'itcmp', E.fresh()), st)
        types = f.get('p', [])
        if x == ('null',) or y == ('null',):
            return V(E.compare(st, op, x, y, ''), st)
        if op in ('==', '!='):
            x, y = as_str(self.ptr_str(E, st, x)), as_str(self.ptr_str(E, st, y))
            if any('string' in t or 'path' in t or 'char' in t for t in types) or stringish(x) or stringish(y):
                # s.substr(0, n) == t with n = size(t): t is a prefix of s
                for p, q in ((x, y), (y, x)):
                    if p[0] == 'substr' and p[2] == I(0) and p[3] == size(q):
                        r = prefix(p[1], q)
                        return V(r if op == '==' else Not(r), st)
                r = eq_str(x, y)
                return V(r if op == '==' else Not(r), st)
            if is_boolterm(x) and y[0] == 'b':
                r = x if y[1] else Not(x)
                return V(r if op == '==' else Not(r), st)
            if x[0] in ('i', 'lin', 'size', 'nat') or y[0] in ('i', 'lin'):
                return V(E.compare(st, op, x, y, ''), st)
            r = TRUE if x == y and opaque_in(x) is None else ('bapp', 'equal', x, y)
            return V(r if op == '==' else Not(r), st)
        return V(('bapp', 'cmp' + op, x, y), st)

    # ------------------------------------------------------------------ operators on strings / streams
    def m_plus(self, E, st, meth, vs, f, e):
        a = [E.rv(st, v) for v in vs]
        if a[0][0] == 'it':
            return self.m_iter(E, st, meth, vs, f, e)
        ts = f.get('p', [])
        out = []
        for i, x in enumerate(a):
            if x[0] == 'it':
                return None
            t = unq(ts[i]) if i < len(ts) else ''
            out.append(chs(x) if t == 'char' or (x[0] == 'i') else as_str(self.ptr_str(E, st, x)))
        return V(cat(*out), st)

    def m_pathdiv(self, E, st, meth, vs, f, e):
        a = [as_str(self.ptr_str(E, st, E.rv(st, v))) for v in vs]
        return V(pathjoin(st, a[0], a[1]), st)

    def stream_of(self, E, st, v):
        loc = E.lv(st, v)
        r = loc
        if r[0] == 'g' or (r[0] == 'd'):
            return 'ext', loc
        x = E.load(st, loc)
        if x[0] == 'rec':
            for k, y in x[2]:
                if k == ('f', '#buf'):
                    return 'buf', loc
                if k == ('f', '#path'):
                    return 'file', loc
                if k == ('f', '#src'):
                    return 'src', loc
        return 'ext', loc

    def m_out(self, E, st, meth, vs, f, e):
        kind, loc = self.stream_of(E, st, vs[0])
        x = E.rv(st, vs[1]) if len(vs) > 1 else ('void',)
        t = ''
        ps = f.get('p', [])
        if ps:
            t = unq(ps[-1])
        if x[0] == 'fnptr':
            x = S('') if 'flush' in x[2] else S('\n') if 'endl' in x[2] else ('app', 'manip', x)
        elif t in ('char', 'unsigned char', 'signed char'):
            x = chs(x)
        else:
            y = self.ptr_str(E, st, x)
            x = as_str(y)
            if x[0] in ('i',):
                x = S(str(x[1])) if t != 'bool' else S(str(int(x[1])))
            elif x[0] == 'b':
                x = S('1' if x[1] else '0')
            elif not stringish(x) and t and ('int' in t or 'long' in t or 'double' in t or 'float' in t or t == 'bool'):
                x = ('app', 'tostr', x)
        if kind == 'buf':
            old = E.load(st, ('f', loc, '#buf'))
            E.store(st, ('f', loc, '#buf'), cat(old, x))
        elif kind == 'file':
            st.event('write', E.load(st, ('f', loc, '#path')), x, E.line)
        else:
            g = loc[2] if loc[0] == 'g' and len(loc) > 2 else str(loc[0])
            st.event('out', g, x, E.line)
        return V(('L', loc), st)

    def m_in(self, E, st, meth, vs, f, e):
        kind, loc = self.stream_of(E, st, vs[0])
        if kind != 'src':
            return None
        src = E.load(st, ('f', loc, '#src'))
        out = []
        ty = unq(f.get('p', ['', ''])[-1])
        if '(*)' in ty or '(&)' in ty:      # std::ws skips white space
            if self.flag(E, st, loc, '#eof') == TRUE or self.flag(E, st, loc, '#fail') == TRUE:
                return V(('L', loc), st)
            for v, s in E.branch(('bapp', 'blank_rest', src), st):
                s = s.copy()
                E.store(s, ('f', loc, '#eof'), ('b', v))
                E.store(s, ('f', loc, '#src'), ('sym', ('rest', src)))
                out += V(('L', loc), s)
            return out
        tloc = E.lv(st, vs[1])
        if TRUE in (self.flag(E, st, loc, '#eof'), self.flag(E, st, loc, '#fail')):     # nothing can be read any more
            E.store(st, ('f', loc, '#fail'), TRUE)
            return V(('L', loc), st)
        for fail in (0, 1):
            for eof in (1, 0):
                s = st.copy()
                for atom, val in ((('bapp', 'xfail', src, S(ty)), bool(fail)), (('bapp', 'xeof', src, S(ty)), bool(eof))):
                    fs = s.facts.assume(atom, val)
                    if not fs:
                        s = None
                        break
                    s.facts = fs[0]
                if s is None:
                    continue
                E.store(s, tloc, ('app', 'conv', src, S(ty)) if not fail else ('app', 'badconv', src, S(ty)))
                E.store(s, ('f', loc, '#fail'), ('b', bool(fail)))
                E.store(s, ('f', loc, '#eof'), ('b', bool(eof)))
                E.store(s, ('f', loc, '#src'), ('sym', ('rest', src)))
                s.event('extract', src, ty, bool(fail), bool(eof), E.line)
                out += V(('L', loc), s)
        return out

    def m_stream(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        kind, loc = self.stream_of(E, st, ('L', loc))
        if meth == 'str':
            if kind == 'buf':
                return V(E.load(st, ('f', loc, '#buf')), st)
            return None
        if kind == 'file':
            u = E.load(st, ('f', loc, '#u'))
            p = E.load(st, ('f', loc, '#path'))
            if meth in ('is_open', 'good', 'operator bool'):
                return V(('bapp', 'stream_' + meth.replace('operator bool', 'good'), p, u), st)
            if meth in ('fail', 'operator!'):
                return V(Not(('bapp', 'stream_good', p, u)), st)
            if meth == 'close':
                st.event('close', p, u, E.line)
                return V(('void',), st)
            if meth == 'open':
                return None
        if kind == 'src':
            if meth in ('fail', 'bad', 'operator!'):
                return V(self.flag(E, st, loc, '#fail'), st)
            if meth == 'eof':
                return V(self.flag(E, st, loc, '#eof'), st)
            if meth in ('good',):
                return V(And(Not(self.flag(E, st, loc, '#fail')), Not(self.flag(E, st, loc, '#eof'))), st)
            if meth == 'operator bool':
                return V(Not(self.flag(E, st, loc, '#fail')), st)
            if meth in ('peek', 'get') and not vs[1:]:
                if TRUE in (self.flag(E, st, loc, '#eof'), self.flag(E, st, loc, '#fail')):
                    E.store(st, ('f', loc, '#fail'), TRUE)
                    return V(I(-1), st)
                src = E.load(st, ('f', loc, '#src'))
                out = []
                for v, s in E.branch(Le(size(src)), st):
                    s = s.copy()
                    if v:
                        E.store(s, ('f', loc, '#eof'), TRUE)
                        if meth == 'get':
                            E.store(s, ('f', loc, '#fail'), TRUE)
                        out += V(I(-1), s)
                    else:
                        if meth == 'get':
                            E.store(s, ('f', loc, '#src'), suffix(src, I(1)))
                        out += V(idx(src, I(0)), s)
                return out
        if meth in ('flush',):
            return V(('L', loc), st)
        return None

    def flag(self, E, st, loc, n):
        v = E.load(st, ('f', loc, n))
        return FALSE if v[0] == 'undef' else v

    def m_getline(self, E, st, meth, vs, f, e):
        loc = E.lv(st, vs[1])
        sl = E.lv(st, vs[0])
        src = E.load(st, sl)
        name = sl[2] if sl[0] == 'g' and len(sl) > 2 else 'file'
        if len(vs) > 2:
            d = E.rv(st, vs[2])
            if d != I(10):
                name = '%s up to %s' % (name, d[1:])
        k = E.fresh()
        v = ('app', 'line', S(str(name)), I(k)) if False else ('sym', ('line', str(name), k))
        st.event('getline', str(name), v, E.line)
        E.store(st, loc, v)
        return V(('L', sl), st)

    # ------------------------------------------------------------------ algorithms
    def m_find(self, E, st, meth, vs, f, e):
        b, en = E.rv(st, vs[0]), E.rv(st, vs[1])
        if b[0] == 'it':
            x = as_str(self.ptr_str(E, st, E.rv(st, vs[2])))
            return self.search(E, st, b, en, lambda s, el: [(t, s) for t in [self.equal(E, s, el, x)]])
        # std::ranges::find(range, value)
        return None

    def equal(self, E, st, a, b):
        if b[0] in ('i',) or a[0] == 'idx':
            return eq_char(a, b[1] if b[0] == 'cv' else b)
        return eq_str(a, b)

    def m_cmpint(self, E, st, meth, vs, f, e):
        a, b = E.rv(st, vs[0]), E.rv(st, vs[1])
        if opaque_in(a) or opaque_in(b):
            return None
        return V({'cmp_equal': lambda: EqI(a, b), 'cmp_not_equal': lambda: Not(EqI(a, b)), 'cmp_less_equal': lambda: Le(sub(a, b)),
                  'cmp_greater_equal': lambda: Le(sub(b, a)), 'cmp_less': lambda: Not(Le(sub(b, a))), 'cmp_greater': lambda: Not(Le(sub(a, b)))}[meth](), st)

    def m_equal(self, E, st, meth, vs, f, e):
        """element-wise comparison of two sequences of known length"""
        ranges_ = meth == 'operator()'
        r = vs[1:] if ranges_ else vs
        if ranges_ and (len(r) < 2 or not all(E.rv(st, x)[0] in ('s', 'cat', 'ch1', 'list', 'sfx', 'sym', 'app', 'substr') for x in r[:2])):
            return None
        if ranges_:
            a, b, rest = E.rv(st, r[0]), E.rv(st, r[1]), [E.rv(st, x) for x in r[2:]]
            rest = [x for x in rest if not (x[0] == 'list' and not x[1]) and not (x[0] == 'g')]
            if len(rest) > 1:
                return None
            pred = rest[0] if rest and rest[0][0] == 'clo' else None
            if rest and pred is None and not (rest[0][0] == 'rec' or rest[0] == ('list', ())):
                return None

            def seq(x):
                if x[0] == 'list':
                    return list(x[1])
                return fixed_chars(x)
            xs, ys = seq(a), seq(b)
            if pred is None and xs is None and ys is None and stringish(a) and stringish(b):
                return V(eq_str(a, b), st)
        else:
            its = [E.rv(st, x) for x in r]
            n = 4 if len(its) > 3 and its[3][0] == 'it' else 3
            if any(x[0] != 'it' for x in its[:n]) or len(its) - n > 1:
                return None
            pred = its[n] if len(its) > n else None
            if pred is not None and pred[0] != 'clo':
                return None

            def seq(i, j):
                c = E.load(st, i[1])
                if c[0] != 'list':
                    c = fixed_chars(as_str(c)) if c[0] in ('s', 'cat', 'ch1') else None
                else:
                    c = list(c[1])
                if c is None or i[2][0] != 'i' or j is not None and (j[2][0] != 'i' or j[1] != i[1]):
                    return None
                return c[i[2][1]:j[2][1] if j is not None else None]
            xs, ys = seq(its[0], its[1]), seq(its[2], its[3] if n == 4 else None)
            if xs is not None and ys is not None and n == 3:
                if len(ys) < len(xs):
                    return None
                ys = ys[:len(xs)]
        if xs is None or ys is None:
            return None
        if len(xs) != len(ys):
            return V(FALSE, st)
        todo, out = [(0, st)], []
        while todo:
            i, s = todo.pop()
            if i == len(xs):
                out += V(TRUE, s)
                continue
            if pred is None:
                ts = [('v', self.equal(E, s, xs[i], ys[i]) if xs[i][0] not in ('i', 'ch') else eq_char(xs[i], ys[i]), s)]
            else:
                ts = E.invoke(s, pred, [xs[i], ys[i]])
            for k, v, s1 in ts:
                if k != 'v':
                    out.append((k, v, s1))
                    continue
                for val, s2 in E.branch(E.boolify(E.rv(s1, v)), s1):
                    if val:
                        todo.append((i + 1, s2))
                    else:
                        out += V(FALSE, s2)
        return out

    def m_rfind(self, E, st, meth, vs, f, e):
        r = vs[1:] if e.get('m') or len(vs) == 3 else vs
        loc = E.lv(st, r[0])
        c = E.load(st, loc)
        x = as_str(self.ptr_str(E, st, E.rv(st, r[1])))
        k = 's' if self.is_string_arg(E, st, e, c) else 'c'
        return self.search(E, st, ('it', loc, I(0), k), ('it', loc, size(c), k),
                           lambda s, el: [(self.equal(E, s, el, x), s)])

    def is_string_arg(self, E, st, e, c):
        at = e.get('at', [])
        return c[0] in ('s', 'cat', 'ch1', 'sfx') or any('basic_string<' in t and 'vector' not in t for t in at[1:2])

    def pred_of(self, E, st, fn, var, bases):
        """canonical predicate of a callable applied to var; None when it has effects or depends on more"""
        n0 = len(st.facts.order)
        dnf = []
        base = st.copy()
        tr = base.trace
        for k, v, s in E.invoke(base, fn, [('L', ('t', var))] if var[0] != 'idx' else [var]):
            if k != 'v':
                return None, k
            v = E.boolify(E.rv(s, v))
            for val, s2 in E.branch(v, s):
                if s2.opq != st.opq:
                    return None, 'opaque'
                if val:
                    dnf.append([(renorm2(subst(a, {var: BOUND})), x) for a, x in s2.facts.order[n0:]])
        return pred_from_dnf(flatten_dnf(dnf)), None

    def search(self, E, st, b, en, test):
        """first position in [b, en) for which test holds"""
        c = E.load(st, b[1])
        out = []
        if c[0] == 'list' and b[2][0] == 'i' and en[2][0] == 'i':
            cur = [st]
            for i in range(b[2][1], en[2][1]):
                nxt = []
                for s in cur:
                    el = E.load(s, b[3] == 's' and ('c', b[1], I(i)) or ('e', b[1], I(i)))
                    for t, s2 in test(s, el):
                        for val, s3 in E.branch(t, s2):
                            if val:
                                out += V(('it', b[1], I(i), b[3]), s3)
                            else:
                                nxt.append(s3)
                cur = nxt
            for s in cur:
                out += V(en, s)
            return out
        whole = b[2] == I(0) and en[2] == size(c)
        sub_c = c if whole else ('range', c, b[2], en[2])
        var = idx(('symstr',), ('nat', ('bnd',))) if b[3] == 's' else ('sym', 'bound-element')
        n0 = len(st.facts.order)
        dnf = []
        bad = False
        for t, s in test(st.copy(), var):
            for val, s2 in E.branch(t, s):
                if val:
                    dnf.append([(renorm2(subst(a, {var: BOUND})), x) for a, x in s2.facts.order[n0:]])
                if s2.opq != st.opq:
                    bad = True
        p = pred_from_dnf(flatten_dnf(dnf))
        t = exists(sub_c, p)
        if bad:
            t = ('opqb', 'search', E.fresh())
        for val, s in E.branch(t, st):
            if not val:
                out += V(en, s)
                continue
            pos = ('nat', ('find', sub_c, p))
            s = s.copy()
            fs = s.facts.assume(Le(add(sub(pos, en[2]), I(1))), True)
            nf = []
            for g in fs:
                nf += g.assume(Le(sub(b[2], pos)), True)
            el = E.load(E.setfacts(s, nf[0]), ('c', b[1], pos) if b[3] == 's' else ('e', b[1], pos)) if nf else None
            for g in nf:
                for g2 in g.assume(pred_holds(p, el), True):
                    out += V(('it', b[1], pos, b[3]), E.setfacts(s, g2))
        return out

    def m_find_if(self, E, st, meth, vs, f, e):
        b, en, fn = [E.rv(st, v) for v in vs[:3]]
        if b[0] != 'it':
            return None
        neg = meth == 'find_if_not'

        def test(s, el):
            r = []
            for k, v, s2 in E.invoke(s, fn, [el if b[3] == 's' else ('L', ('t', el))]):
                if k != 'v':
                    continue
                t = E.boolify(E.rv(s2, v))
                r.append((Not(t) if neg else t, s2))
            return r
        return self.search(E, st, b, en, test)

    def quant(self, E, st, b, en, fn, which):
        neg = which == 'all_of'

        def test(s, el):
            r = []
            for k, v, s2 in E.invoke(s, fn, [el if b[3] == 's' else ('L', ('t', el))]):
                if k != 'v':
                    continue
                t = E.boolify(E.rv(s2, v))
                r.append((Not(t) if neg else t, s2))
            return r
        out = []
        for k, v, s in self.search(E, st, b, en, test):
            found = v[2] != en[2]
            if which == 'any_of':
                out += V(('b', found), s)
            else:
                out += V(('b', not found), s)
        return out

    def m_quant(self, E, st, meth, vs, f, e):
        b, en, fn = [E.rv(st, v) for v in vs[:3]]
        if b[0] != 'it':
            return None
        return self.quant(E, st, b, en, fn, meth)

    def m_rquant(self, E, st, meth, vs, f, e):
        which = 'all_of' if 'all_of' in f['n'] else 'any_of' if 'any_of' in f['n'] else 'none_of'
        r = vs[1:]
        loc = E.lv(st, r[0])
        c = E.load(st, loc)
        k = 's' if self.is_string_arg(E, st, e, c) else 'c'
        return self.quant(E, st, ('it', loc, I(0), k), ('it', loc, size(c), k), E.rv(st, r[1]), which)

    def m_rfind_if(self, E, st, meth, vs, f, e):
        r = vs[1:]
        loc = E.lv(st, r[0])
        c = E.load(st, loc)
        k = 's' if self.is_string_arg(E, st, e, c) else 'c'
        return self.m_find_if(E, st, 'find_if', [('it', loc, I(0), k), ('it', loc, size(c), k), r[1]], f, e)

    def m_rfor_each(self, E, st, meth, vs, f, e):
        if E.rv(st, vs[1])[0] == 'it':
            return self.m_for_each(E, st, meth, vs[1:], f, e)
        loc = E.lv(st, vs[1])
        c = E.load(st, loc)
        k = 's' if self.is_string_arg(E, st, e, c) else 'c'
        return self.m_for_each(E, st, meth, [('it', loc, I(0), k), ('it', loc, size(c), k), vs[2]], f, e)

    def m_for_each(self, E, st, meth, vs, f, e):
        b, en, fn = [E.rv(st, v) for v in vs[:3]]
        if b[0] != 'it':
            return None
        c = E.load(st, b[1])
        if not (b[2] == I(0) and en[2] == size(c)):
            c = ('range', c, b[2], en[2])
        if c[0] == 'list' and len(c[1]) <= 12:
            cur, out = [st], []
            for i in range(len(c[1])):
                nxt = []
                for s in cur:
                    for k, v, s2 in E.invoke(s, fn, [('L', ('e', b[1], I(i)))]):
                        if k == 'v':
                            nxt.append(s2)
                        else:
                            out.append((k, v, s2))
                cur = nxt
            return out + [('v', ('void',), s) for s in cur]

        def run(s, item):
            r = []
            for k, v, s2 in E.invoke(s, fn, [item]):
                r.append(('next', None, s2) if k == 'v' else (k, v, s2))
            return r
        out = []
        for k, v, s in E.generic_loop({'l': e.get('l')}, st, kind='range', loc=b[1], cont=c, isstr=b[3] == 's', run=run):
            out.append(('v', fn, s) if k == 'next' else (k, v, s))
        return out

    def m_minmax(self, E, st, meth, vs, f, e):
        x, y = E.rv(st, vs[0]), E.rv(st, vs[1])
        if x[0] == 'i' and y[0] == 'i':
            return V(I((min if meth == 'min' else max)(x[1], y[1])), st)
        if NPOS in (x, y):
            return V((y if x == NPOS else x) if meth == 'min' else NPOS, st)
        if x[0] == 'findpos' or y[0] == 'findpos':
            fp, o = (x, y) if x[0] == 'findpos' else (y, x)
            return V(('app', meth, fp, o), st)
        d = sub(x, y)
        out = []
        for val, s in E.branch(Le(d), st):
            out += V((x if val else y) if meth == 'min' else (y if val else x), s)
        return out

    def m_exchange(self, E, st, meth, vs, f, e):
        if vs[0][0] != 'L':
            return None
        old, new = E.rv(st, vs[0]), E.rv(st, vs[1])
        if len(f.get('params', ())) < 3 and old[0] == 's' and new[0] != 's':
            new = as_str(new)
        E.store(st, vs[0][1], new)
        return V(old, st)

    def m_swap(self, E, st, meth, vs, f, e):
        if e.get('m') or len(vs) != 2 or vs[0][0] != 'L' or vs[1][0] != 'L':
            return None
        a, b = E.rv(st, vs[0]), E.rv(st, vs[1])
        E.store(st, vs[0][1], b)
        E.store(st, vs[1][1], a)
        return V(('void',), st)

    def m_sort(self, E, st, meth, vs, f, e):
        r = vs[1:] if e.get('m') or 'ranges' in f['n'] else vs
        a = [E.rv(st, v) for v in r]
        if a[0][0] == 'it':
            c = E.load(st, a[0][1])
            if c[0] == 'list' and len(a) >= 2 and a[0][2] == I(0) and a[1][0] == 'it' and a[1][2] == I(len(c[1])):
                return self.permute(E, st, a[0][1], c, plain_order(f, len(a) - 2))
            E.store(st, a[0][1], ('app', 'sorted', E.load(st, a[0][1])))
            return V(('void',), st)
        loc = E.lv(st, r[0])
        c = E.load(st, loc)
        return self.permute(E, st, loc, c, plain_order(f, len(r) - 1))

    def permute(self, E, st, loc, c, plain):
        """sorting: known values are ordered, a few unknown ones can end up in any order"""
        if c[0] == 'list' and len(c[1]) < 2:
            return V(('void',), st)
        if c[0] == 'list' and plain and all(x[0] in ('s', 'i') for x in c[1]):
            E.store(st, loc, ('list', tuple(sorted(c[1]))))
            return V(('void',), st)
        if c[0] == 'list' and len(c[1]) <= 3:
            out = []
            for p in itertools.permutations(c[1]):
                s2 = st.copy()
                E.store(s2, loc, ('list', p))
                out += V(('void',), s2)
            return out
        E.store(st, loc, ('app', 'sorted', c))
        return V(('void',), st)

    def m_unique(self, E, st, meth, vs, f, e):
        r = vs[1:]
        loc = E.lv(st, r[0])
        c = E.load(st, loc)
        if c[0] == 'list' and (len(c[1]) < 2 or plain_order(f, len(r) - 1) and all(x[0] in ('s', 'i') for x in c[1])):
            kept, rest = [], []
            for x in c[1]:
                (rest if kept and kept[-1] == x else kept).append(x)
            E.store(st, loc, ('list', tuple(kept + rest)))
            return V(('pair', ('it', loc, I(len(kept)), 'c'), ('it', loc, I(len(c[1])), 'c')), st)
        if c[0] == 'list' and len(c[1]) <= 3 and all(stringish(x) for x in c[1]) and (len(r) == 1 or plain_order(f, len(r) - 1)):
            todo = [((c[1][0],), (), st)]
            for x in c[1][1:]:
                nxt = []
                for kept, rest, t in todo:
                    for val, t2 in E.branch(eq_str(kept[-1], x), t):
                        nxt.append((kept, rest + (x,), t2) if val else (kept + (x,), rest, t2))
                todo = nxt
            out = []
            for kept, rest, t in todo:
                t = t.copy()
                E.store(t, loc, ('list', kept + rest))
                out += V(('pair', ('it', loc, I(len(kept)), 'c'), ('it', loc, I(len(c[1])), 'c')), t)
            return out
        return V(('pair', ('uniq_end',), ('it', loc, size(c), 'c')), st)

    def m_id(self, E, st, meth, vs, f, e):
        if len(vs) == 1:
            return V(vs[0], st)
        if meth == 'move' and len(vs) == 3:
            b, en, o = [E.rv(st, v) for v in vs]
            if o[0] == 'app' and o[1] == 'back_inserter' and b[0] == 'it':
                loc = o[2][1]
                c = E.load(st, loc)
                x = self.slice(E, st, b, en)
                E.store(st, loc, x if c == ('list', ()) or c[0] == 'undef' else ('app', 'concat', c, x))
                return V(o, st)
        return None

    def m_back_inserter(self, E, st, meth, vs, f, e):
        return V(('app', 'back_inserter', ('ptr', E.lv(st, vs[0]))), st)

    def m_transform(self, E, st, meth, vs, f, e):
        a = [E.rv(st, v) for v in vs]
        back = a[2][0] == 'app' and a[2][1] == 'back_inserter'
        inplace = a[2][0] == 'it' and a[0][0] == 'it' and a[2][1:3] == a[0][1:3]
        if a[0][0] == 'it' and a[1][0] == 'it' and (back or inplace or a[2][0] == 'app' and a[2][1] == 'ostream_iterator') and len(a) == 4:
            src = self.slice(E, st, a[0], a[1])
            cs = fixed_chars(src) if stringish(src) else None
            if inplace and src != E.load(st, a[0][1]) or back and not stringish(E.load(st, a[2][2][1])):
                cs = None
            if cs is not None and len(cs) <= 512:
                fn = a[3]
                cur = [((), st)]
                for c in cs:
                    nxt = []
                    for got, s in cur:
                        for k, v, s2 in E.invoke(s, fn, [c]):
                            if k != 'v':
                                return None
                            nxt.append((got + (chs(E.rv(s2, v)),), s2))
                    cur = nxt
                out = []
                for got, s in cur:
                    s = s.copy()
                    x = cat(*got) if got else S('')
                    if inplace:
                        E.store(s, a[0][1], x)
                        out += V(('it', a[0][1], size(x)) + a[2][3:], s)
                        continue
                    if back:
                        E.store(s, a[2][2][1], cat(E.load(s, a[2][2][1]), x))
                    else:
                        s.event('out', self.oname(a[2]), x, E.line)
                    out += V(a[2], s)
                return out
        if a[0][0] == 'it' and a[2][0] == 'app' and a[2][1] == 'ostream_iterator':
            st.event('out', self.oname(a[2]), ('app', 'transform', E.load(st, a[0][1])), E.line)
            return V(a[2], st)
        if a[2][0] == 'app' and a[2][1] == 'ostream_iterator':
            st.event('out', self.oname(a[2]), ('app', 'transform', a[0]), E.line)
            return V(a[2], st)
        if a[2][0] == 'it':
            E.store(st, a[2][1], ('app', 'transform', E.load(st, a[0][1])))
            return V(a[2], st)
        return None

    def oname(self, it):
        try:
            return it[2][1][2]
        except Exception:
            return '?'

    def m_fill_n(self, E, st, meth, vs, f, e):
        a = [E.rv(st, v) for v in vs]
        if a[0][0] == 'app' and a[0][1] == 'ostream_iterator':
            x = ('app', 'repeat', a[1], a[2])
            if a[1][0] == 'i' and a[2][0] == 'i' and 0 <= a[1][1] < 4096:
                x = S(chr(a[2][1] & 255) * a[1][1])
            st.event('out', self.oname(a[0]), x, E.line)
            return V(a[0], st)
        return None

    # ------------------------------------------------------------------ variant, optional, function, pointers
    def m_visit(self, E, st, meth, vs, f, e):
        fn = E.rv(st, vs[0])
        loc = E.lv(st, vs[1])
        cls = E.dyn_class(st, loc)
        out = []
        if fn[0] != 'clo':
            return None
        ops = [E.p.fn[i] for i in fn[2] if i in E.p.fn]

        def arg(o):
            return unq(o['params'][0]['t']) if o['params'] else ''
        if cls:
            c = [o for o in ops if arg(o) == cls]
            if not c:
                st.opq = st.opq + ('visit:' + cls,)
                return V(('opq', 'visit', E.fresh()), st)
            return E.call_closure(st, fn, [('L', loc)], c[0])
        v = E.load(st, loc)
        for o in ops:
            t = arg(o)
            for val, s in self.alt(E, st, v, t):
                if val:
                    s = s.copy()
                    out += E.call_closure(s, fn, [('L', loc)], o)
        return E.cap(out)

    def alt(self, E, st, v, t):
        """branch on 'variant v holds t' keeping the alternatives exclusive"""
        b = v
        while b[0] == 'rec':
            b = b[1]
        for a, val in st.facts.lits.items():
            if a[0] == 'alt' and a[1] == b and val:
                return [(a[2] == t, st)]
        return E.branch(('alt', b, t), st)

    def m_holds(self, E, st, meth, vs, f, e):
        loc = E.lv(st, vs[0])
        t = unq(targs(f)[0])
        cls = E.dyn_class(st, loc)
        if cls:
            return V(('b', cls == t), st)
        return [('v', ('b', val), s) for val, s in self.alt(E, st, E.load(st, loc), t)]

    def m_assign(self, E, st, meth, vs, f, e):
        loc = E.lv(st, vs[0])
        x = E.rv(st, vs[1])
        if 'optional' in f['n'] and x[0] not in ('none', 'some'):
            x = ('none',) if x == ('list', ()) else ('some', x)
        E.store(st, loc, x)
        return V(('L', loc), st)

    def m_optional(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        v = E.load(st, loc)
        if meth in ('has_value', 'operator bool'):
            if v[0] in ('none', 'some'):
                return V(('b', v[0] == 'some'), st)
            return V(('has', v), st)
        if meth in ('value', 'operator*', 'value_or'):
            if v[0] == 'some':
                return V(v[1], st)
            if v[0] == 'none':
                if meth == 'value_or':
                    return V(E.rv(st, vs[1]), st)
                if meth == 'value':
                    return [('throw', ('std::bad_optional_access', None, E.line), st)]
                st.event('badopt', E.line)
                return V(('opq', 'empty optional', E.fresh()), st)
            out = []
            for val, s in E.branch(('has', v), st):
                if val:
                    out += V(('truth', ('field', v, '*')) if 'bool' in str(f.get('ret', '')) or True else ('field', v, '*'), s)
                elif meth == 'value_or':
                    out += V(E.rv(s, vs[1]), s)
                elif meth == 'value':
                    out.append(('throw', ('std::bad_optional_access', None, E.line), s))
                else:
                    s = s.copy()
                    s.event('badopt', E.line)
                    out += V(('opq', 'empty optional', E.fresh()), s)
            return out
        return None

    def m_function(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        v = E.load(st, loc)
        if meth == 'operator()':
            return E.invoke(st, v, vs[1:], e)
        if meth == 'operator bool':
            return V(TRUE if v[0] == 'clo' else Not(('isnull', v)), st)
        return None

    def m_uptr(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        if meth == 'operator=':
            return self.m_assign(E, st, meth, vs, f, e)
        v = E.load(st, loc)
        if v[0] == 'undef':
            v = NULL
        if meth == 'operator bool':
            return V(Not(E.compare(st, '==', v, NULL, '')), st)
        if meth in ('operator->', 'get'):
            st.event('ptrderef', v, E.line)
            return V(v, st)
        if meth == 'operator*':
            st.event('ptrderef', v, E.line)
            return V(E.deref(st, v), st)
        return None

    def m_make_unique(self, E, st, meth, vs, f, e):
        ta = [unq(t) for t in targs(f)]
        a = tuple(E.rv(st, v) for v in vs)
        loc = ('o', E.fresh())
        st.mem[loc] = ('rec', ('obj', ta[0], a), ())
        st.event('make_unique', ta[0], a, E.line)
        return V(('ptr', loc), st)

    # ------------------------------------------------------------------ conversions
    def text_from(self, E, st, p):
        """a pointer into a text as the rest of the text"""
        return suffix(E.load(st, p[1][1]), p[1][2]) if p[0] == 'ptr' and p[1][0] == 'c' else p

    def m_from_chars(self, E, st, meth, vs, f, e):
        a = [E.rv(st, v) for v in vs[:2]]
        p, q = a[0], a[1]
        src = None
        if [p[0] == 'ptr' and p[1][0] == 'c', q[0] == 'ptr' and q[1][0] == 'c'].count(True) == 1:
            p, q = self.text_from(E, st, p), self.text_from(E, st, q)
        if p[0] == 'ptr' and p[1][0] == 'c' and q[0] == 'ptr' and q[1][0] == 'c' and p[1][1] == q[1][1]:
            s = E.load(st, p[1][1])
            if p[1][2] == I(0) and q[1][2] == size(s):
                src = s
            else:
                src = ('range', s, p[1][2], q[1][2])
        elif p[0] == 'sfx' or q[0] == 'sfx' or stringish(p):
            src = p if q == suffix(p, size(p)) else ('range', p, I(0), q)
        if p[0] == 'ptr' and p[1][0] != 'c' and q[0] in ('app', 'sfx'):
            src = ('range', p, I(0), q)
        if src is None:
            src = ('range', p, I(0), q)
        tloc = E.lv(st, vs[2])
        ty = unq(f['p'][2]) if len(f.get('p', [])) > 2 else '?'
        base = ('' if len(vs) <= 3 else ',' + repr(E.rv(st, vs[3])))
        key = S(ty + base)
        E.store(st, tloc, ('app', 'conv', src, S(ty)))
        st.event('from_chars', src, ty, base, E.line)
        rec = ('rec', ('new', 'std::from_chars_result'),
               tuple(sorted(((('f', 'ec'), ('fcec', src, key)), (('f', 'ptr'), ('fcptr', src, key))), key=repr)))
        return V(rec, st)

    def m_tostring(self, E, st, meth, vs, f, e):
        x = E.rv(st, vs[0])
        return V(S(str(x[1])) if x[0] == 'i' else ('app', 'tostr', x), st)

    def m_limits(self, E, st, meth, vs, f, e):
        return V(('app', f['n']), st)

    def m_quoted(self, E, st, meth, vs, f, e):
        x = as_str(E.rv(st, vs[0]))
        if x[0] == 's':
            return V(S('"' + x[1].replace('\\', '\\\\').replace('"', '\\"') + '"'), st)
        return V(('app', 'quoted', x), st)

    def m_ctype(self, E, st, meth, vs, f, e):
        x = E.rv(st, vs[0])
        st.event('ctype', meth, x, E.line)
        if x[0] == 'i':
            c = chr(x[1]) if 0 <= x[1] < 128 else None
            if c:
                return V(I(ord(c.lower() if meth == 'tolower' else c.upper())), st)
        return V(('app', meth, x), st)

    def m_ctype_pred(self, E, st, meth, vs, f, e):
        x = E.rv(st, vs[0])
        st.event('ctype', meth, x, E.line)
        fnm = {'isalpha': str.isalpha, 'isdigit': str.isdigit, 'isalnum': str.isalnum, 'isspace': str.isspace,
               'isupper': str.isupper, 'islower': str.islower}.get(meth)
        if fnm and x[0] == 'cv':
            m = 0
            for i in range(128):
                if fnm(chr(i)):
                    m |= 1 << i
            if meth == 'isspace':
                m = SPACE
            return V(In(x[1], m), st)
        return V(('bapp', meth, x), st)

    # ------------------------------------------------------------------ regex
    def m_regex(self, E, st, meth, vs, f, e):
        a = [E.rv(st, v) for v in vs]
        rx = a[-1] if a[-1][0] == 'app' and a[-1][1] == 'regex' else None
        flags = None
        for x in a:
            if x[0] == 'app' and x[1] == 'regex':
                rx = x
        rxl = rx if rx is not None else a[1] if meth == 'regex_match' and len(a) >= 2 else ('opq', 'regex', 0)
        subj = as_str(a[0])
        if a[0][0] == 'it':
            subj = self.slice(E, st, a[0], a[1])
        st.event(meth, subj, rxl, E.line)
        if meth == 'regex_search' and len(vs) > 2:
            E.store(st, E.lv(st, vs[1]), ('app', 'match', subj, rxl))
        if subj[0] == 's' and rxl[0] == 'app' and rxl[2][0] == 's' and len(rxl) == 3:
            r = const_regex(rxl[2][1], subj[1], meth == 'regex_match')
            if r is not None:
                return V(('b', r), st)
        if meth == 'regex_match' and rxl[0] == 'app' and rxl[2][0] == 's':
            cls = char_class_regex(rxl[2][1])
            if cls is not None:
                mask, least = cls
                t = Not(exists(subj, ('cset', ALL & ~mask)))
                if least:
                    t = And(Not(Le(size(subj))), t)
                return V(t, st)
        return self.may_throw(E, st, ('bapp', meth, subj, rxl), 'std::regex_error')

    def m_match(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        a = [E.rv(st, v) for v in vs[1:]]
        return V(('app', 'group', E.load(st, loc)) + tuple(a), st)

    # ------------------------------------------------------------------ file system
    def errc(self, f):
        ps = f.get('p', [])
        return ps and 'error_code' in ps[-1]

    def m_fsq(self, E, st, meth, vs, f, e):
        p = as_str(self.ptr_str(E, st, E.rv(st, vs[0])))
        st.event('fsq', meth, p, E.line)
        ep = E.epoch(st)
        t = ('fs', meth, p, ep)
        if self.errc(f) and len(vs) > 1:
            out = []
            loc = E.lv(st, vs[-1])
            for val, s in E.branch(t, st):
                s = s.copy()
                E.store(s, loc, FALSE if val else ('bapp', 'fserr', meth, p, ep))
                out += V(('b', val), s)
            return out
        out = V(t, st)
        if E.throwing_std:
            s2 = st.copy()
            s2.event('stdthrow', 'std::filesystem::filesystem_error', E.line)
            out.append(('throw', ('std::filesystem::filesystem_error', ('opq', 'exc', E.fresh()), E.line), s2))
        return out

    def fs_effect(self, E, st, meth, vs, e, val=None, f=None):
        p = as_str(self.ptr_str(E, st, E.rv(st, vs[0])))
        st = st.copy()
        ps = (f or e.get('f', {})).get('p', [])
        u = E.fresh()
        st.event('fs', meth, p, E.line)
        if ps and 'error_code' in ps[-1] and len(vs) > 1:
            loc = E.lv(st, vs[-1])
            E.store(st, loc, ('bapp', 'fserr', meth, p, I(u)))
            return V(val if val is not None else ('bapp', 'fsres', meth, p, I(u)), st)
        out = V(val if val is not None else ('bapp', 'fsres', meth, p, I(u)), st)
        if E.throwing_std:
            s2 = st.copy()
            s2.event('stdthrow', 'std::filesystem::filesystem_error', E.line)
            out.append(('throw', ('std::filesystem::filesystem_error', ('opq', 'exc', E.fresh()), E.line), s2))
        return out

    def m_fse(self, E, st, meth, vs, f, e):
        val = None
        if meth == 'temp_directory_path':
            st = st.copy()
            u = E.fresh()
            if vs:
                E.store(st, E.lv(st, vs[-1]), ('bapp', 'fserr', meth, NULL, I(u)))
            return V(('app', 'tmpdir'), st) if vs else self.may_throw(E, st, ('app', 'tmpdir'),
                                                                     'std::filesystem::filesystem_error')
        return self.fs_effect(E, st, meth, vs, e, val, f)

    # ------------------------------------------------------------------ environment
    def m_getenv(self, E, st, meth, vs, f, e):
        x = E.rv(st, vs[0])
        st.event('getenv', x, E.line)
        return V(('app', 'getenv', self.ptr_str(E, st, x)), st)

    def m_system(self, E, st, meth, vs, f, e):
        x = self.ptr_str(E, st, E.rv(st, vs[0]))
        st.event('system', x, E.line)
        return V(('app', 'system', x, I(E.fresh())), st)

    def m_exit(self, E, st, meth, vs, f, e):
        x = E.rv(st, vs[0]) if vs else I(0)
        st.event('exit', meth, x, E.line)
        return [('exit', (meth, x), st)]

    def m_assert(self, E, st, meth, vs, f, e):
        st.event('assert', E.line)
        return [('exit', ('assert', NULL), st)]

    def m_isatty(self, E, st, meth, vs, f, e):
        x = E.rv(st, vs[0])
        st.event('isatty', x, E.line)
        return V(('app', 'isatty', x), st)

    def m_nested(self, E, st, meth, vs, f, e):
        t = unq(targs(f)[0])
        return [('throw', (t, E.rv(st, vs[0]), E.line), st)]

    def m_rethrow(self, E, st, meth, vs, f, e):
        x = E.rv(st, vs[0])
        if x[0] == 'excptr':
            return [('throw', x[1], st)]
        return [('throw', ('?', None, E.line), st)]

    def m_curexc(self, E, st, meth, vs, f, e):
        if st.exc:
            return V(('excptr', st.exc[-1]), st)
        return V(NULL, st)

    def m_what(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        return V(('app', 'what', E.load(st, loc)), st)

    def m_thread(self, E, st, meth, vs, f, e):
        st.event('thread_' + meth, E.line)
        return V(('void',), st)

    def m_future(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        v = E.load(st, loc)
        if meth == 'valid':
            return V(FALSE if v == ('app', 'future0') else TRUE if v[:2] == ('app', 'future') else ('bapp', 'future_valid', v), st)
        if meth in ('wait_for', 'wait_until', 'get', 'wait'):
            st.event('future_' + meth, tuple(E.rv(st, x) for x in vs[1:]), tuple(f.get('p', ())), E.line)
            return V(I(0), st)
        return None

    def m_refwrap(self, E, st, meth, vs, f, e):
        return V(('app', 'ref', ('ptr', E.lv(st, vs[0]))), st)

    def m_promise(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        v = E.load(st, loc)
        st.event('promise_' + meth, v, E.line)
        if meth == 'get_future':
            return V(('app', 'future', v), st)
        return V(('void',), st)

    def m_pair(self, E, st, meth, vs, f, e):
        return None

    def m_opbool(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        return V(E.boolify(E.load(st, loc)), st)

    def m_mkerr(self, E, st, meth, vs, f, e):
        return V(TRUE, st)

    def m_begin_r(self, E, st, meth, vs, f, e):
        r = vs[1:] if len(vs) > 1 else vs
        loc = E.lv(st, r[0])
        c = E.load(st, loc)
        k = 's' if self.is_string_arg(E, st, e, c) else 'c'
        return V(('it', loc, I(0) if '_Begin' in f['n'] or meth == 'begin' else size(c), k), st)

    def m_view(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        c = E.load(st, loc)
        if meth in ('begin', 'end'):
            return V(('it', loc, I(0) if meth == 'begin' else size(c), 'c'), st)
        if meth == 'empty':
            return V(Le(size(c)), st)
        return None

    def m_views_transform(self, E, st, meth, vs, f, e):
        if len(vs) < 3:
            return None
        c = E.rv(st, vs[1])
        if c[0] != 'list' or len(c[1]) > 12:
            return None
        fn = E.rv(st, vs[2])
        cur = [((), st)]
        for x in c[1]:
            nxt = []
            for got, s in cur:
                for k, v, s2 in E.invoke(s, fn, [('L', ('t', x))]):
                    if k != 'v':
                        return None
                    nxt.append((got + (E.rv(s2, v),), s2))
            cur = nxt
        out = []
        for got, s in cur:
            out += V(('list', got), s)
        return out

    def m_empty(self, E, st, meth, vs, f, e):
        return V(Le(size(E.rv(st, vs[0]))), st)

    def m_array(self, E, st, meth, vs, f, e):
        loc = E.obj(st, vs[0], e.get('arrow'))
        if meth in ('operator[]', 'at'):
            i = E.rv(st, vs[1])
            st.event('index', ('app', 'array'), i, meth, E.line)
            return V(('L', ('e', loc, i)), st)
        if meth == 'operator=':
            E.store(st, loc, E.rv(st, vs[1]))
            return V(('L', loc), st)
        return None

    def m_noop(self, E, st, meth, vs, f, e):
        return V(('void',), st)

    def m_now(self, E, st, meth, vs, f, e):
        return V(('app', 'time', *[E.rv(st, v) for v in vs]) if vs else ('app', 'now', I(E.fresh())), st)

    def m_addressof(self, E, st, meth, vs, f, e):
        return V(('ptr', E.lv(st, vs[0])), st)


def renorm2(a):
    """normalise an atom after substitution; result may be any boolean term"""
    return renorm(a)


def flatten_dnf(dnf):
    """atoms may have become composite after normalisation: expand"""
    out = []
    for c in dnf:
        cur = [[]]
        for t, v in c:
            nxt = []
            for lits in expand(t, v):
                for x in cur:
                    nxt.append(x + lits)
            cur = nxt
        out += cur
    return out


def expand(t, v):
    h = t[0]
    if h == 'b':
        return [[]] if t[1] == v else []
    if h == 'not':
        return expand(t[1], not v)
    if (h == 'and') == v and h in ('and', 'or'):
        cur = [[]]
        for x in t[1]:
            cur = [a + b for a in cur for b in expand(x, v)]
        return cur
    if h in ('and', 'or'):
        out = []
        for x in t[1]:
            out += expand(x, v)
        return out
    return [[(t, v)]]


def const_regex(rx, text, whole):
    """the verdict for constants, for patterns that mean the same in both dialects"""
    rx = re.sub(r'\[:(digit|alpha|alnum|space|upper|lower):\]', lambda m: {'digit': '0-9', 'alpha': 'a-zA-Z', 'alnum': '0-9a-zA-Z', 'space': ' \\t\\n\\r\\f\\v', 'upper': 'A-Z', 'lower': 'a-z'}[m[1]], rx)
    if '[:' in rx or '(?' in rx or '\n' in text or not re.fullmatch(r'[\[\](){}^$.+*?|\\\w\s,:;=!@#%&/<>"\'~`-]*', rx):
        return None
    try:
        r = re.compile(rx, re.ASCII)
    except re.error:
        return None
    return bool(r.fullmatch(text) if whole else r.search(text))


def const_find(s, x, k, start):
    if k == 'first':
        return s.find(x, start or 0)
    if k == 'last':
        return s.rfind(x) if start is None else s.rfind(x, 0, start + len(x))
    want = not k.endswith('nof')
    ps = [i for i, c in enumerate(s) if (c in x) == want]
    if k.startswith('first'):
        ps = [i for i in ps if i >= (start or 0)]
        return ps[0] if ps else -1
    ps = [i for i in ps if start is None or i <= start]
    return ps[-1] if ps else -1


M = Models
TABLE = {
    'std::find': M.m_find, 'std::ranges::__find_fn': M.m_rfind, 'std::find_if': M.m_find_if,
    **{'std::cmp_' + _n: M.m_cmpint for _n in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal')},
    'std::equal': M.m_equal, 'std::ranges::__equal_fn': M.m_equal, 'std::find_if_not': M.m_find_if, 'std::any_of': M.m_quant, 'std::all_of': M.m_quant, 'std::none_of': M.m_quant,
    'std::ranges::views::_Transform': M.m_views_transform,
    'std::ranges::__all_of_fn': M.m_rquant, 'std::ranges::__any_of_fn': M.m_rquant,
    'std::ranges::__none_of_fn': M.m_rquant, 'std::ranges::__find_if_fn': M.m_rfind_if,
    'std::for_each': M.m_for_each, 'std::ranges::__for_each_fn': M.m_rfor_each, 'std::min': M.m_minmax, 'std::max': M.m_minmax,
    'std::ranges::__sort_fn': M.m_sort, 'std::sort': M.m_sort, 'std::ranges::__unique_fn': M.m_unique,
    'std::move': M.m_id, 'std::forward': M.m_id, 'std::as_const': M.m_id, 'std::back_inserter': M.m_back_inserter,
    'std::transform': M.m_transform, 'std::fill_n': M.m_fill_n, 'std::visit': M.m_visit,
    'std::holds_alternative': M.m_holds, 'std::make_unique': M.m_make_unique, 'std::from_chars': M.m_from_chars,
    'std::to_string': M.m_tostring, 'std::quoted': M.m_quoted, 'tolower': M.m_ctype, 'toupper': M.m_ctype,
    'std::tolower': M.m_ctype, 'std::toupper': M.m_ctype,
    'isalpha': M.m_ctype_pred, 'isdigit': M.m_ctype_pred, 'isalnum': M.m_ctype_pred, 'isspace': M.m_ctype_pred,
    'isupper': M.m_ctype_pred, 'islower': M.m_ctype_pred, 'isprint': M.m_ctype_pred, 'ispunct': M.m_ctype_pred,
    'std::regex_match': M.m_regex, 'std::regex_search': M.m_regex,
    'std::filesystem::exists': M.m_fsq, 'std::filesystem::is_directory': M.m_fsq,
    'std::filesystem::is_regular_file': M.m_fsq, 'std::filesystem::is_empty': M.m_fsq,
    'std::filesystem::create_directory': M.m_fse, 'std::filesystem::create_directories': M.m_fse,
    'std::filesystem::remove': M.m_fse, 'std::filesystem::remove_all': M.m_fse, 'std::filesystem::rename': M.m_fse,
    'std::filesystem::temp_directory_path': M.m_fse, 'std::filesystem::operator/': M.m_pathdiv,
    'getenv': M.m_getenv, 'std::getenv': M.m_getenv, 'secure_getenv': M.m_getenv,
    'system': M.m_system, 'std::system': M.m_system, 'popen': M.m_system,
    'exit': M.m_exit, '_exit': M.m_exit, 'abort': M.m_exit, 'std::exit': M.m_exit, 'std::terminate': M.m_exit,
    'quick_exit': M.m_exit, 'std::abort': M.m_exit, '_Exit': M.m_exit, '__assert_fail': M.m_assert,
    'isatty': M.m_isatty, 'std::getline': M.m_getline, 'std::throw_with_nested': M.m_nested,
    'std::rethrow_exception': M.m_rethrow, 'std::current_exception': M.m_curexc, 'std::exception::what': M.m_what,
    'std::make_error_code': M.m_mkerr, 'std::empty': M.m_empty, 'std::addressof': M.m_addressof, 'std::ref': M.m_refwrap, 'std::cref': M.m_refwrap,
    'std::chrono::system_clock::now': M.m_now, 'std::chrono::duration_cast': M.m_now,
    'std::chrono::duration::count': M.m_now, 'std::chrono::time_point::time_since_epoch': M.m_now,
    'std::ranges::__cust_access::_Begin': M.m_begin_r, 'std::ranges::__cust_access::_End': M.m_begin_r,
    'std::ranges::__access::_Begin': M.m_begin_r, 'std::ranges::__access::_End': M.m_begin_r,
    'std::numeric_limits::max': M.m_limits, 'std::numeric_limits::min': M.m_limits,
    'std::numeric_limits::lowest': M.m_limits, 'free': M.m_noop,
    'std::operator+': M.m_plus, 'std::exchange': M.m_exchange, 'std::swap': M.m_swap,
}
CLASS = {}
for c in ('std::basic_string', 'std::basic_string_view', 'std::filesystem::path'):
    CLASS[(c, '*')] = M.m_str
for c in ('std::vector', 'std::list', 'std::unordered_set', 'std::unordered_map', 'std::set', 'std::map', 'std::deque'):
    CLASS[(c, '*')] = M.m_cont
for c in ('__gnu_cxx::__normal_iterator', 'std::_List_const_iterator', 'std::_List_iterator',
          'std::_Bit_const_iterator', 'std::_Bit_iterator', 'std::__detail::_Node_iterator',
          'std::__detail::_Node_const_iterator', 'std::ranges::transform_view::_Iterator'):
    CLASS[(c, '*')] = M.m_iter
for c in ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_ios', 'std::basic_stringstream',
          'std::basic_istringstream', 'std::basic_ostringstream', 'std::basic_fstream'):
    CLASS[(c, '*')] = M.m_stream
CLASS[('std::optional', 'operator=')] = M.m_assign
CLASS[('std::optional', '*')] = M.m_optional
CLASS[('std::_Optional_base_impl', '*')] = M.m_optional
CLASS[('std::variant', 'operator=')] = M.m_assign
CLASS[('std::function', 'operator=')] = M.m_assign
CLASS[('std::function', '*')] = M.m_function
CLASS[('std::unique_ptr', '*')] = M.m_uptr
CLASS[('std::error_code', 'operator bool')] = M.m_opbool
CLASS[('std::thread', '*')] = M.m_thread
CLASS[('std::future', 'operator=')] = M.m_assign
CLASS[('std::basic_regex', 'operator=')] = M.m_assign
CLASS[('std::__basic_future', '*')] = M.m_future
CLASS[('std::future', '*')] = M.m_future
CLASS[('std::promise', '*')] = M.m_promise
CLASS[('std::match_results', '*')] = M.m_match
CLASS[('std::array', '*')] = M.m_array
CLASS[('std::from_chars_result', 'operator=')] = M.m_assign
CLASS[('std::ranges::transform_view', '*')] = M.m_view
CLASS[('std::ranges::view_interface', '*')] = M.m_view
CLASS[('std::runtime_error', 'what')] = M.m_what
CLASS[('std::logic_error', 'what')] = M.m_what
CLASS[('std::basic_ostream', 'operator<<')] = M.m_out
CLASS[('std::basic_ostream', '*')] = M.m_stream
OPS = {'operator==': M.m_cmp, 'operator!=': M.m_cmp, 'operator<': M.m_cmp, 'operator>': M.m_cmp, 'operator<=': M.m_cmp,
       'operator>=': M.m_cmp, 'operator<<': M.m_out, 'operator>>': M.m_in, 'operator-': M.m_iter,
       'operator+': M.m_iter}
Models.TABLE = TABLE
Models.CLASS = CLASS
Models.OPS = OPS
