"""Terms and path facts.

Terms are nested tuples.  Facts is a conjunction of atoms together with three small value domains that decide whether
an atom is implied / contradicted: byte sets per string index, length and integer intervals, constant (in)equality.
There is no search: every question is answered by looking the value up in the domains ("None" = not known).
"""

ALL = (1 << 256) - 1

TRUE = ('b', True)
FALSE = ('b', False)
NULL = ('null',)


def I(n):
    return ('i', n)


def S(s):
    return ('s', s)


def is_const(t):
    return t[0] in ('b', 'i', 's', 'null', 'f')


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (ord(c) if isinstance(c, str) else c)
    return m


def lowbit(m):
    return (m & -m).bit_length() - 1


def single(m):
    return m != 0 and m & (m - 1) == 0


# ---------------------------------------------------------------- integers

def lin(t):
    """term -> (dict term->coef, const)"""
    if t[0] == 'i':
        return {}, t[1]
    if t[0] == 'b':
        return {}, int(t[1])
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mklin(d, k):
    d = {t: c for t, c in d.items() if c}
    if not d:
        return I(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ('lin', tuple(sorted(d.items(), key=repr)), k)


def add(a, b, sign=1):
    da, ka = lin(a)
    db, kb = lin(b)
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + sign * c
    return mklin(d, ka + sign * kb)


def sub(a, b):
    return add(a, b, -1)


# ---------------------------------------------------------------- strings

def cat(*parts):
    out = []
    for p in parts:
        ps = p[1] if p[0] == 'cat' else (p,)
        for q in ps:
            if q == ('s', ''):
                continue
            if out and out[-1][0] == 's' and q[0] == 's':
                out[-1] = ('s', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('s', '')
    if len(out) == 1 and out[0][0] in ('s',):
        return out[0]
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def size(t):
    h = t[0]
    if h == 's':
        return I(len(t[1]))
    if h == 'cat':
        r = I(0)
        for p in t[1]:
            r = add(r, size(p))
        return r
    if h == 'ch1':          # a one character string
        return I(1)
    if h == 'push':
        return add(size(t[1]), I(1))
    if h == 'list':
        return I(len(t[1]))
    if h == 'substr' and t[3] is not None and t[3][0] == 'i' and False:
        return t[3]
    if h in ('upd', 'updc'):
        return size(t[1])
    if h == 'range':
        return sub(t[3], t[2])
    if h == 'str' or h == 'view':
        return size(t[1])
    if h == 'sfx':          # suffix of t[1] starting at t[2]
        return sub(size(t[1]), t[2])
    if h == 'rec' and t[1] is not None and t[1][0] != 'new':
        return size(t[1])
    return ('size', t)


def erased_first(s):
    """(string, byte set) when s is a string without the first occurrence of a character"""
    if s[0] == 'app' and s[1] == 'erase' and len(s) == 5 and s[4] == I(1) and s[3][0] == 'findpos' and s[3][1] == s[2] \
            and s[3][3:] == (I(0), 'first') and s[2][0] in ('sym', 'app'):
        c = s[3][2]
        if c[0] == 's' and len(c[1]) == 1:
            return s[2], 1 << (ord(c[1]) & 255)
        if c[0] == 'i':
            return s[2], 1 << (c[1] & 255)
        if c[0] == 'ch1' and c[1][0] == 'i':
            return s[2], 1 << (c[1][1] & 255)
    return None


def surely_nonneg(t):
    d, k = lin(t)
    return k >= 0 and all(c > 0 and x[0] in ('size', 'nat') for x, c in d.items())


def idx(s, i):
    h = s[0]
    if h == 's' and i[0] == 'i':
        n = i[1]
        return I(ord(s[1][n])) if 0 <= n < len(s[1]) else I(0)
    if h == 'sfx':
        return idx(s[1], add(s[2], i))
    if h == 'ch1' and i == I(0):
        return s[1]
    if h == 'cat':
        ps = list(s[1])
        while ps:
            p = ps[0]
            n = size(p)
            d = sub(i, n)
            if d[0] == 'i' and d[1] < 0 and i[0] == 'i':
                return idx(p, i)
            if surely_nonneg(d):
                i = d
                ps.pop(0)
                continue
            if len(ps) == 1:
                return idx(p, i)
            return ('idx', ('cat', tuple(ps)), i)
        return I(0)
    return ('idx', s, i)


def suffix(s, i):
    if i == I(0):
        return s
    if s[0] == 's' and i[0] == 'i':
        return S(s[1][i[1]:])
    if s[0] == 'sfx':
        return suffix(s[1], add(s[2], i))
    if s[0] == 'cat':
        rest = list(s[1])
        cur = i
        while rest:
            p = rest[0]
            if cur == I(0):
                return cat(*rest)
            d = sub(cur, size(p))
            if surely_nonneg(d):
                cur = d
                rest.pop(0)
                continue
            if cur[0] == 'i' and p[0] == 's' and cur[1] < len(p[1]):
                rest[0] = S(p[1][cur[1]:])
                return cat(*rest)
            return ('sfx', cat(*rest), cur)
        return S('')
    return ('sfx', s, i)


def char_term(t):
    return t[0] in ('idx', 'ch') or (t[0] == 'cv')


# ---------------------------------------------------------------- boolean terms

def Not(a):
    if a[0] == 'b':
        return ('b', not a[1])
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def And(*xs):
    out = []
    for x in xs:
        if x == FALSE:
            return FALSE
        if x == TRUE:
            continue
        if x[0] == 'and':
            out += x[1]
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def Or(*xs):
    out = []
    for x in xs:
        if x == TRUE:
            return TRUE
        if x == FALSE:
            continue
        if x[0] == 'or':
            out += x[1]
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def In(t, m):
    """char term t is in byte set m"""
    if t[0] == 'i':
        return ('b', bool(m >> (t[1] & 255) & 1))
    if m == 0:
        return FALSE
    if m == ALL:
        return TRUE
    return ('in', t, m)


def stringish(t):
    return t[0] in ('s', 'cat', 'sfx', 'ch1', 'str', 'view', 'substr', 'updc')


def eq_str(a, b):
    if a == b:
        return TRUE
    if a[0] == 's' and b[0] == 's':
        return ('b', a[1] == b[1])
    if a[0] == 's':
        a, b = b, a
    if b[0] == 's':
        if b[1] == '':
            return Le(size(a))
        if a[0] == 'ch1':
            return In(a[1], 1 << ord(b[1])) if len(b[1]) == 1 and ord(b[1]) < 256 else FALSE
        if a[0] == 'sfx':
            # equality with a constant suffix
            return And(EqI(size(a), I(len(b[1]))), *[In(idx(a, I(i)), 1 << (ord(c) & 255)) for i, c in enumerate(b[1])])
        if a[0] == 'cat':
            # peel constant parts
            ps = list(a[1])
            c = b[1]
            conds = []
            while ps and ps[0][0] in ('s', 'ch1'):
                p = ps[0]
                n = 1 if p[0] == 'ch1' else len(p[1])
                if len(c) < n:
                    return FALSE
                if p[0] == 's':
                    if not c.startswith(p[1]):
                        return FALSE
                else:
                    conds.append(In(p[1], 1 << ord(c[0])))
                c = c[n:]
                ps.pop(0)
            while ps and ps[-1][0] in ('s', 'ch1'):
                p = ps[-1]
                n = 1 if p[0] == 'ch1' else len(p[1])
                if len(c) < n:
                    return FALSE
                if p[0] == 's':
                    if not c.endswith(p[1]):
                        return FALSE
                else:
                    conds.append(In(p[1], 1 << ord(c[-1])))
                c = c[:len(c) - n]
                ps.pop()
            if not ps:
                return And(*conds) if c == '' else FALSE
            if len(ps) == 1:
                return And(*conds, eq_str(ps[0], S(c)))
            if any(q[0] == 's' and q[1] not in c for q in ps):
                return FALSE
            return And(*conds, ('eq', ('cat', tuple(ps)), S(c)))
        return ('eq', a, b)
    if a[0] == 'ch1' and b[0] == 'ch1':
        return eq_char(a[1], b[1])
    if repr(a) > repr(b):
        a, b = b, a
    if a[0] == 'cat' and b[0] == 'cat' and a[1][0] == b[1][0]:
        return eq_str(cat(*a[1][1:]), cat(*b[1][1:]))
    if a[0] == 'cat' and b[0] == 'cat' and a[1][0][0] == 's' and b[1][0][0] == 's':
        s, t = a[1][0][1], b[1][0][1]
        n = min(len(s), len(t))
        if s[:n] != t[:n]:
            return FALSE
        return eq_str(cat(S(s[n:]), *a[1][1:]), cat(S(t[n:]), *b[1][1:]))
    return ('eq', a, b)


def prefix(x, p):
    """string x starts with string p"""
    if x == p or (x[0] == 'cat' and x[1][0] == p):
        return TRUE
    if x[0] == 'cat' and p[0] == 'cat' and x[1][0][0] == 's' and p[1][0][0] == 's':
        h, g = x[1][0][1], p[1][0][1]
        n = min(len(h), len(g))
        if h[:n] != g[:n]:
            return FALSE
        return prefix(cat(S(h[n:]), *x[1][1:]), cat(S(g[n:]), *p[1][1:]))
    if p[0] == 'ch1':
        return prefix1(x, p[1])
    if p[0] == 's':
        if x[0] == 's':
            return ('b', x[1].startswith(p[1]))
        if p[1] == '':
            return TRUE
        if x[0] == 'ch1':
            return In(x[1], 1 << (ord(p[1]) & 255)) if len(p[1]) == 1 else FALSE
        if x[0] == 'cat' and x[1][0][0] == 's':
            h = x[1][0][1]
            n = min(len(h), len(p[1]))
            if h[:n] != p[1][:n]:
                return FALSE
            return prefix(cat(*x[1][1:]), S(p[1][n:])) if n < len(p[1]) else TRUE
        if x[0] == 'cat' and x[1][0][0] == 'ch1':
            return And(In(x[1][0][1], 1 << (ord(p[1][0]) & 255)), prefix(cat(*x[1][1:]), S(p[1][1:])))
        return ('prefix', x, p) if x[0] != 'sfx' else \
            And(*[In(idx(x, I(i)), 1 << (ord(c) & 255)) for i, c in enumerate(p[1])])
    if p[0] == 'cat':
        if x[0] == 'cat' and x[1][0] == p[1][0]:
            return prefix(cat(*x[1][1:]), cat(*p[1][1:]))
        parts = list(p[1])
        tail = []
        while len(parts) > 1 and parts[-1][0] in ('s', 'ch1'):
            tail.insert(0, parts.pop())
        if any(q[0] not in ('s', 'ch1') for q in parts):
            head = cat(*parts)
            conds = []
            n = size(head)
            for q in tail:
                cs = [I(ord(c) & 255) for c in q[1]] if q[0] == 's' else [q[1]]
                for c in cs:
                    conds.append(eq_char(idx(x, n), c))
                    n = add(n, I(1))
            if conds:
                return And(prefix(x, head), *conds)
            return ('prefix', x, head)
        # constants and single characters only
        conds = []
        n = 0
        for q in parts + tail:
            cs = [I(ord(c) & 255) for c in q[1]] if q[0] == 's' else [q[1]]
            for c in cs:
                conds.append(eq_char(idx(x, I(n)), c))
                n += 1
        return And(*conds)
    return ('prefix', x, p)


def prefix1(x, c):
    return eq_char(idx(x, I(0)), c)


def eq_char(a, b):
    if a == b:
        return TRUE
    if a[0] == 'i' and b[0] == 'i':
        return ('b', (a[1] & 255) == (b[1] & 255))
    if a[0] == 'i':
        a, b = b, a
    if b[0] == 'i':
        return In(a, 1 << (b[1] & 255))
    if repr(a) > repr(b):
        a, b = b, a
    return ('eqc', a, b)


def Le(t):
    """t <= 0"""
    d, k = lin(t)
    if not d:
        return ('b', k <= 0)
    if all(c > 0 and nonneg(x) for x, c in d.items()) and k > 0:
        return FALSE
    if all(c < 0 and nonneg(x) for x, c in d.items()) and k <= 0:
        return TRUE
    return ('le', mklin(d, k))


def nonneg(t):
    return t[0] in ('size', 'nat')


def EqI(a, b):
    d = sub(a, b)
    if d[0] == 'i':
        return ('b', d[1] == 0)
    dd, k = lin(d)
    # sizes are never negative: size == 0 is size <= 0
    if all(c > 0 and nonneg(x) for x, c in dd.items()) and k >= 0:
        return Le(d)
    if all(c < 0 and nonneg(x) for x, c in dd.items()) and k <= 0:
        return Le(mklin({t: -c for t, c in dd.items()}, -k))
    if len(dd) == 1:
        (t, c), = dd.items()
        if t[:2] in (('app', 'tolower'), ('app', 'toupper')) and t[2][0] in ('cv', 'idx', 'ch') and c in (1, -1):
            want, m = -k // c, 0
            for b in range(256):
                ch = chr(b)
                if b < 128:
                    ch = ch.lower() if t[1] == 'tolower' else ch.upper()
                if ord(ch) == want:
                    m |= 1 << b
            return In(t[2][1] if t[2][0] == 'cv' else t[2], m)
    first = sorted(dd.items(), key=repr)[0]
    if first[1] < 0:
        d = mklin({t: -c for t, c in dd.items()}, -k)
    return ('eqz', d)


def atoms_of(t, out):
    h = t[0]
    if h == 'not':
        atoms_of(t[1], out)
    elif h in ('and', 'or'):
        for x in t[1]:
            atoms_of(x, out)
    elif h != 'b':
        out.add(t)
    return out


# ---------------------------------------------------------------- facts

class Str:
    __slots__ = ('ch', 'neq', 'npre', 'eq')

    def __init__(self):
        self.ch = {}
        self.neq = frozenset()
        self.npre = frozenset()
        self.eq = None

    def copy(self):
        n = Str()
        n.ch = dict(self.ch)
        n.neq, n.npre, n.eq = self.neq, self.npre, self.eq
        return n


class Facts:
    def __init__(self):
        self.lits = {}      # atom -> bool
        self.order = ()     # literals in order of assumption
        self.strs = {}      # string term -> Str
        self.cm = {}        # char term -> mask
        self.iv = {}        # normalised linear direction -> (lo, hi, frozenset neq)

    def copy(self):
        n = Facts()
        n.lits = dict(self.lits)
        n.order = self.order
        n.strs = dict(self.strs)
        n.cm = dict(self.cm)
        n.iv = dict(self.iv)
        return n

    # ---- integers
    @staticmethod
    def _dir(t):
        d, k = lin(t)
        items = sorted(d.items(), key=repr)
        sign = 1 if items[0][1] > 0 else -1
        key = tuple((x, c * sign) for x, c in items)
        return key, sign, k

    def _range(self, key):
        r = self.iv.get(key)
        lo, hi, ne = r if r else (None, None, frozenset())
        if len(key) == 1:
            x, c = key[0]
            if lo is None and nonneg(x) and c > 0:
                lo = 0
            if x[0] == 'size' and c == 1:
                l2, h2 = self._strlen(x[1])
                if l2 is not None and (lo is None or l2 > lo):
                    lo = l2
                if h2 is not None and (hi is None or h2 < hi):
                    hi = h2
        else:
            # interval arithmetic over the parts
            l2, h2 = 0, 0
            for x, c in key:
                a, b, _ = self._range(((x, 1),))
                if c < 0:
                    a, b = b, a
                l2 = None if (l2 is None or a is None) else l2 + a * c
                h2 = None if (h2 is None or b is None) else h2 + b * c
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
        return lo, hi, ne

    def _kept(self, s):
        e = erased_first(s)
        return 1 if e and not self._char(('idx', e[0], I(0))) & (e[1] | 1) else 0

    def _strlen(self, s):
        st = self.strs.get(s)
        if st is None:
            return self._kept(s), None
        if st.eq is not None:
            return len(st.eq), len(st.eq)
        lo = self._kept(s)
        hi = None
        for i, m in st.ch.items():
            if not m & 1:
                lo = max(lo, i + 1)
        return lo, hi

    # ---- strings
    def _str(self, s):
        return self.strs.get(s)

    def _char(self, t):
        m = self.cm.get(t, ALL)
        if t[0] == 'idx' and t[2][0] == 'i':
            s = self.strs.get(t[1])
            i = t[2][1]
            if s is not None:
                if s.eq is not None:
                    c = ord(s.eq[i]) & 255 if i < len(s.eq) else 0
                    return 1 << c
                m &= s.ch.get(i, ALL)
                for p in s.npre:
                    if len(p) == i + 1 and all(self._char(('idx', t[1], I(j))) == 1 << (ord(p[j]) & 255)
                                               for j in range(i)):
                        m &= ~(1 << (ord(p[i]) & 255)) & ALL
            lo, hi, _ = self._range(((('size', t[1]), 1),)) if t[1][0] not in ('s', 'cat', 'sfx') else (None, None, None)
            if hi is not None and i >= hi:
                m &= 1
            e = erased_first(t[1])
            if e:
                # characters in front of the erased first occurrence keep their place
                if all(not self._char(('idx', e[0], I(j))) & e[1] for j in range(i + 1)):
                    m &= self._char(('idx', e[0], t[2]))
        return m

    # ---- queries
    def value(self, t):
        """truth value of boolean term t under the facts, None if unknown"""
        h = t[0]
        if h == 'b':
            return t[1]
        if h == 'not':
            v = self.value(t[1])
            return None if v is None else not v
        if h == 'and':
            r = True
            for x in t[1]:
                v = self.value(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if h == 'or':
            r = False
            for x in t[1]:
                v = self.value(x)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        v = self.lits.get(t)
        if v is not None:
            return v
        if h == 'in':
            m = self._char(t[1])
            if m & t[2] == 0:
                return False
            if m & ~t[2] == 0:
                return True
            return self._member(t)
        if h == 'eqc':
            a, b = self._char(t[1]), self._char(t[2])
            if a & b == 0:
                return False
            if single(a) and a == b:
                return True
            return None
        if h in ('le', 'eqz'):
            key, sign, k = self._dir(t[1])
            lo, hi, ne = self._range(key)
            # value = sign*dir + k
            if h == 'le':
                if sign > 0:     # dir <= -k
                    if hi is not None and hi <= -k:
                        return True
                    if lo is not None and lo > -k:
                        return False
                else:            # dir >= k
                    if lo is not None and lo >= k:
                        return True
                    if hi is not None and hi < k:
                        return False
                return None
            c = -k * sign
            if lo is not None and c < lo or hi is not None and c > hi or c in ne:
                return False
            if lo is not None and lo == hi == c:
                return True
            # difference of two sizes through string equality
            return None
        if h == 'prefix':
            v = self._prefix(t[1], t[2])
            if v is not None:
                return v
        if h == 'eq':
            v = self._eq(t[1], t[2])
            if v is not None:
                return v
        if h == 'exists':
            if self.value(EqI(size(t[1]), I(0))) is True:
                return False
            if self._excluded(t[1], t[2]):
                return False
        if h in ('prefix', 'eq', 'in'):
            v = self._member(t)
            if v is not None:
                return v
        if h == 'fs':
            # what exists / is_directory / is_regular_file of one path at one time imply for each other
            def other(k):
                return self.lits.get(('fs', k) + t[2:])
            if t[1] in ('is_directory', 'is_regular_file'):
                if other('exists') is False:
                    return False
                o = 'is_directory' if t[1] == 'is_regular_file' else 'is_regular_file'
                if other(o) is True:
                    return False
            if t[1] == 'exists' and (other('is_directory') or other('is_regular_file')):
                return True
            if t[1] == 'exists' and False in (other('exists'),):
                return False
        return None

    def _none_of(self, c):
        """predicates no element of container c satisfies"""
        return [a[2] for a, v in self.lits.items() if v is False and a[0] == 'exists' and a[1] == c]

    def _excluded(self, c, q, depth=0):
        """no element of c (or of the container it is a part of) can satisfy q"""
        if depth > 6:
            return False
        if any(pred_implies(q, p) for p in self._none_of(c)):
            return True
        if c[0] == 'range':
            return self._excluded(c[1], q, depth + 1)
        if c[0] == 'rec' and c[1] is not None and all(k[0] in ('e', 'at', 'i') or True for k, _ in c[2]):
            if c[2] and all(self.value(pred_holds(q, v)) is False for _, v in c[2]):
                return self._excluded(c[1], q, depth + 1)
        return False

    def _member(self, t):
        """a statement about one element of a container whose elements are known to lack a property"""
        if not any(v is False and a[0] == 'exists' for a, v in self.lits.items()):
            return None
        e = find_head(t, ('elem',))
        if e is None:
            return None
        c = e[1]
        while c[0] == 'range' or (c[0] == 'rec' and c[1] is not None and not self._none_of(c)):
            c = c[1]
        ps = self._none_of(c)
        if not ps:
            return None
        q = subst(t, {e: BOUND})
        if find_head(q, ('elem',)) is not None:
            return None
        for p in ps:
            if atom_implies(q, True, p):
                return False
            if atom_implies(q, False, p):
                return True
        return None

    def _prefix(self, x, p):
        if p[0] == 's':
            c = p[1]
            st = self.strs.get(x)
            if st is not None and st.eq is not None:
                return st.eq.startswith(c)
            r = True
            for i, ch in enumerate(c):
                m = self._char(('idx', x, I(i)))
                bit = 1 << (ord(ch) & 255)
                if not m & bit:
                    return False
                if m != bit:
                    r = None
            if st is not None:
                for np in st.npre:
                    if c.startswith(np):
                        return False
            lo, hi, _ = self._range(((('size', x), 1),))
            if hi is not None and hi < len(c):
                return False
            return r
        # symbolic prefix
        if self.lits.get(('eq', x, p)) or self.lits.get(('eq', p, x)):
            return True
        if p[0] == 'cat':
            parts = p[1]
            if parts[0][0] == 's':
                if self._prefix(x, parts[0]) is False:
                    return False
        lo, hi, _ = self._range(self._dir(sub(size(x), size(p)))[0]) if sub(size(x), size(p))[0] != 'i' else (None, None, None)
        d = sub(size(x), size(p))
        if d[0] != 'i':
            v = self.value(('le', add(d, I(1))))   # size(x) < size(p)
            if v is True:
                return False
        return None

    def _eq(self, a, b):
        if b[0] == 's':
            c = b[1]
            st = self.strs.get(a)
            if st is not None:
                if st.eq is not None:
                    return st.eq == c
                if c in st.neq:
                    return False
                for np in st.npre:
                    if c.startswith(np):
                        return False
            d = EqI(size(a), I(len(c)))
            v = self.value(d)
            if v is False:
                return False
            r = v is True
            for i, ch in enumerate(c):
                m = self._char(('idx', a, I(i)))
                bit = 1 << (ord(ch) & 255)
                if not m & bit:
                    return False
                if m != bit:
                    r = False
            # any further character known to be non-NUL
            m = self._char(('idx', a, I(len(c))))
            if not m & 1:
                return False
            return True if r else None
        if stringish(a) or stringish(b) or ('prefix', a, b) in self.lits or ('prefix', b, a) in self.lits:
            if self.value(('prefix', a, b)) is False or self.value(('prefix', b, a)) is False:
                return False
            d = sub(size(a), size(b))
            v = self.value(EqI(d, I(0)))
            if v is False:
                return False
            if v is True and (self.lits.get(('prefix', a, b)) or self.lits.get(('prefix', b, a))):
                return True
        # constants known for both sides
        sa, sb = self.strs.get(a), self.strs.get(b)
        if sa and sb and sa.eq is not None and sb.eq is not None:
            return sa.eq == sb.eq
        if sa and sa.eq is not None:
            return self._eq(b, S(sa.eq))
        if sb and sb.eq is not None:
            return self._eq(a, S(sb.eq))
        return None

    # ---- assumption.  Returns list of fact sets whose union is (this and t == val)
    def assume(self, t, val=True):
        h = t[0]
        if h == 'not':
            return self.assume(t[1], not val)
        if h == 'b':
            return [self] if t[1] == val else []
        if (h == 'and' and val) or (h == 'or' and not val):
            cur = [self]
            for x in t[1]:
                nxt = []
                for f in cur:
                    nxt += f.assume(x, val)
                cur = nxt
            return cur
        if (h == 'and' and not val) or (h == 'or' and val):
            # first deciding operand splits
            want = (h == 'or')
            cur = [self]
            out = []
            for x in t[1]:
                nxt = []
                for f in cur:
                    out += f.assume(x, want)
                    nxt += f.assume(x, not want)
                cur = nxt
            return out
        v = self.value(t)
        if v is not None:
            if v != val:
                return []
            if t in self.lits:
                return [self]
            # record implied literal without growing the domains
            return [self]
        n = self.copy()
        n.lits[t] = val
        n.order = n.order + ((t, val),)
        if not n._learn(t, val):
            return []
        return [n]

    def _setchar(self, t, m):
        """intersect; returns False if empty"""
        if t[0] == 'idx' and t[2][0] == 'i' and t[1][0] not in ('s',):
            st = self.strs.get(t[1])
            st = st.copy() if st else Str()
            cur = self._char(t) & m
            if not cur:
                return False
            st.ch[t[2][1]] = cur
            if not cur & 1:
                for j in range(t[2][1]):
                    pass
            self.strs[t[1]] = st
            return self._settle(t[1])
        cur = self._char(t) & m
        if not cur:
            return False
        self.cm[t] = cur
        return True

    def _settle(self, s):
        """constant detection for string s"""
        st = self.strs.get(s)
        if st is None or st.eq is not None:
            return True
        lo, hi, ne = self._range(((('size', s), 1),))
        if lo is not None and hi is not None and lo > hi:
            return False
        for c in st.neq:
            if self._is(s, c):
                return False
        if lo is not None and lo == hi and lo <= 64:
            cs = []
            for i in range(lo):
                m = self._char(('idx', s, I(i)))
                if not m:
                    return False
                if not single(m):
                    return True
                cs.append(chr(lowbit(m)))
            c = ''.join(cs)
            if c in st.neq:
                return False
            st = st.copy()
            st.eq = c
            self.strs[s] = st
        return True

    def _is(self, s, c):
        lo, hi, _ = self._range(((('size', s), 1),))
        if not (lo == hi == len(c)):
            return False
        return all(self._char(('idx', s, I(i))) == 1 << (ord(ch) & 255) for i, ch in enumerate(c))

    def _learn(self, t, val):
        h = t[0]
        if h == 'in':
            return self._setchar(t[1], t[2] if val else ALL & ~t[2])
        if h == 'eqc':
            if val:
                m = self._char(t[1]) & self._char(t[2])
                return self._setchar(t[1], m) and self._setchar(t[2], m)
            a, b = self._char(t[1]), self._char(t[2])
            if single(a):
                return self._setchar(t[2], ALL & ~a)
            if single(b):
                return self._setchar(t[1], ALL & ~b)
            return True
        if h in ('le', 'eqz'):
            key, sign, k = self._dir(t[1])
            lo, hi, ne = self._range(key)
            if h == 'le':
                if sign > 0:
                    if val:
                        hi = -k if hi is None else min(hi, -k)
                    else:
                        lo = -k + 1 if lo is None else max(lo, -k + 1)
                else:
                    if val:
                        lo = k if lo is None else max(lo, k)
                    else:
                        hi = k - 1 if hi is None else min(hi, k - 1)
            else:
                c = -k * sign
                if val:
                    lo = c if lo is None else max(lo, c)
                    hi = c if hi is None else min(hi, c)
                else:
                    ne = ne | {c}
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            self.iv[key] = (lo, hi, ne)
            if len(key) == 1 and key[0][0][0] == 'size':
                s = key[0][0][1]
                if s in self.strs:
                    st = self.strs[s]
                    if st.eq is not None and (lo is not None and len(st.eq) < lo or hi is not None and len(st.eq) > hi):
                        return False
                    return self._settle(s)
                if lo == hi == 0:
                    st = Str()
                    st.eq = ''
                    self.strs[s] = st
                    # a container that is empty has no matching element
                    for a, v in self.lits.items():
                        if a[0] == 'exists' and a[1] == s and v:
                            return False
            return True
        if h == 'prefix':
            x, p = t[1], t[2]
            if p[0] == 's':
                st = self.strs.get(x)
                st = st.copy() if st else Str()
                if val:
                    for i, c in enumerate(p[1]):
                        st.ch[i] = 1 << (ord(c) & 255)
                else:
                    st.npre = st.npre | {p[1]}
                self.strs[x] = st
                if not val:
                    # propagate a single remaining character
                    unk = [i for i in range(len(p[1])) if self._char(('idx', x, I(i))) != 1 << (ord(p[1][i]) & 255)]
                    if len(unk) == 1:
                        return self._setchar(('idx', x, I(unk[0])), ALL & ~(1 << (ord(p[1][unk[0]]) & 255)))
                return self._settle(x)
            if p[0] == 'cat' and val:
                n = 0
                for q in p[1]:
                    if q[0] == 's':
                        for c in q[1]:
                            if not self._setchar(('idx', x, I(n)), 1 << (ord(c) & 255)):
                                return False
                            n += 1
                    else:
                        break
                # size(x) >= size(p)
                d = sub(size(p), size(x))
                v = self.value(Le(d))
                if v is False:
                    return False
                if v is None:
                    return self._learn(Le(d), True)
            return True
        if h == 'eq':
            a, b = t[1], t[2]
            if b[0] == 's' and a[0] not in ('s',):
                st = self.strs.get(a)
                st = st.copy() if st else Str()
                if val:
                    st.eq = b[1]
                    self.strs[a] = st
                    e = erased_first(a)
                    if e and self.value(exists(e[0], ('cset', e[1]))) is True:
                        # the original has the erased character in one of the positions in front of its next occurrence
                        c = chr(lowbit(e[1]))
                        cand = []
                        for i in range(len(b[1]) + 1):
                            if c in b[1][:i]:
                                break
                            k = b[1][:i] + c + b[1][i:]
                            if all(self._char(('idx', e[0], I(j))) & 1 << (ord(x) & 255) for j, x in enumerate(k)):
                                cand.append(k)
                        if not cand:
                            return False
                        if len(cand) == 1:
                            q = eq_str(e[0], S(cand[0]))
                            v = self.value(q)
                            if v is False or v is None and not self._learn(q, True):
                                return False
                    for x, v in list(self.lits.items()):
                        if x[0] == 'eq' and v and a in (x[1], x[2]):
                            o = x[2] if x[1] == a else x[1]
                            if o[0] != 's' and self._eq(o, b) is False:
                                return False
                else:
                    st.neq = st.neq | {b[1]}
                    self.strs[a] = st
                    unk = [i for i in range(len(b[1])) if self._char(('idx', a, I(i))) != 1 << (ord(b[1][i]) & 255)]
                    lo, hi, _ = self._range(((('size', a), 1),))
                    if len(unk) == 1 and lo == hi == len(b[1]):
                        return self._setchar(('idx', a, I(unk[0])), ALL & ~(1 << (ord(b[1][unk[0]]) & 255)))
                    if not unk and len(b[1]):
                        # all characters agree, so the length differs
                        return self._learn(EqI(size(a), I(len(b[1]))), False) if \
                            EqI(size(a), I(len(b[1])))[0] in ('eqz', 'le') else True
                return True
            if val and (stringish(a) or stringish(b)):
                d = EqI(size(a), size(b))
                if d[0] in ('le', 'eqz'):
                    if self.value(d) is False:
                        return False
                    self._learn(d, True)
                p, x = (a, b) if a[0] == 'cat' else (b, a)
                if p[0] == 'cat':
                    n = 0
                    for q in p[1]:
                        if q[0] == 's':
                            for c in q[1]:
                                if not self._setchar(('idx', x, I(n)), 1 << (ord(c) & 255)):
                                    return False
                                n += 1
                        else:
                            break
            return True
        return True


# ---------------------------------------------------------------- canonical predicates over one bound variable

BOUND = ('bound',)


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ('s', 'i', 'b', 'sym', 'null'):
        return t
    new = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return new


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t if isinstance(y, tuple))
    return False


def find_head(t, heads):
    """first sub-term whose head is in heads"""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in heads:
            return t
        for y in t:
            if isinstance(y, tuple):
                r = find_head(y, heads)
                if r is not None:
                    return r
    return None


def eval_bool(t, asg):
    h = t[0]
    if h == 'b':
        return t[1]
    if h == 'not':
        return not eval_bool(t[1], asg)
    if h == 'and':
        return all(eval_bool(x, asg) for x in t[1])
    if h == 'or':
        return any(eval_bool(x, asg) for x in t[1])
    return asg[t]


def pred_from_dnf(dnf, charvar=False):
    """dnf: list of lists of (atom,bool). Returns a canonical predicate (hashable)."""
    atoms = sorted({a for c in dnf for a, _ in c}, key=repr)
    if not dnf:
        return ('const', False)
    if any(len(c) == 0 for c in dnf):
        return ('const', True)
    # single-character predicates: byte set
    if all(a[0] == 'in' and a[1] == BOUND for a in atoms):
        m = 0
        for c in dnf:
            x = ALL
            for a, v in c:
                x &= a[2] if v else ALL & ~a[2]
            m |= x
        if m == 0:
            return ('const', False)
        if m == ALL:
            return ('const', True)
        return ('cset', m)
    if len(atoms) > 10:
        return ('dnf', tuple(sorted((tuple(sorted(c, key=repr)) for c in dnf), key=repr)))
    # truth table restricted to consistent assignments
    n = len(atoms)
    tt = []
    for bits in range(1 << n):
        asg = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
        f = [Facts()]
        for a, v in asg.items():
            f = f[0].assume(a, v) if f else []
        if not f:
            tt.append(None)
            continue
        tt.append(any(all(asg[a] == v for a, v in c) for c in dnf))
    # drop irrelevant atoms
    keep = list(range(n))
    for i in range(n):
        rel = False
        for bits in range(1 << n):
            o = bits ^ (1 << i)
            if tt[bits] is not None and tt[o] is not None and tt[bits] != tt[o]:
                rel = True
                break
        if not rel and n > 1:
            # only drop when every consistent assignment of the others decides the value
            keep.remove(i) if _can_drop(tt, i, n) else None
            if i not in keep:
                for bits in range(1 << n):
                    o = bits ^ (1 << i)
                    if tt[bits] is None:
                        tt[bits] = tt[o]
    vals = {v for v in tt if v is not None}
    if len(vals) == 1:
        return ('const', vals.pop())
    if len(keep) == 1:
        a = atoms[keep[0]]
        pos = None
        for bits in range(1 << n):
            if tt[bits] is not None and bits >> keep[0] & 1:
                pos = tt[bits]
                break
        base = atom_pred(a)
        return base if pos else neg_pred(base)
    ks = [atoms[i] for i in keep]
    rows = []
    for bits in range(1 << n):
        if tt[bits]:
            rows.append(tuple(bool(bits >> i & 1) for i in keep))
    return ('tab', tuple(ks), tuple(sorted(set(rows))))


def _can_drop(tt, i, n):
    for bits in range(1 << n):
        o = bits ^ (1 << i)
        if tt[bits] is not None and tt[o] is not None and tt[bits] != tt[o]:
            return False
    return True


_IMPL = {}


def atom_implies(a, val, p):
    k = (a, val, p)
    if k not in _IMPL:
        try:
            F = Facts().assume(a, val)
            _IMPL[k] = bool(F) and all(f.value(pred_holds(p, BOUND)) is True for f in F)
        except Exception:
            _IMPL[k] = False
    return _IMPL[k]


def pred_implies(q, p):
    """every value that satisfies q satisfies p"""
    if q == p:
        return True
    k = (q, p)
    if k not in _IMPL:
        try:
            F = Facts().assume(pred_holds(q, BOUND), True)
            _IMPL[k] = all(f.value(pred_holds(p, BOUND)) is True for f in F)
        except Exception:
            _IMPL[k] = False
    return _IMPL[k]


def atom_pred(a):
    if a[0] == 'eq' and a[1] == BOUND:
        return ('eqv', a[2])
    if a[0] == 'eq' and a[2] == BOUND:
        return ('eqv', a[1])
    if a[0] == 'le' and a[1] == ('size', BOUND):
        return ('eqv', S(''))
    return ('atom', a)


def neg_pred(p):
    if p[0] == 'const':
        return ('const', not p[1])
    if p[0] == 'cset':
        return ('cset', ALL & ~p[1])
    if p[0] == 'npred':
        return p[1]
    return ('npred', p)


def pred_holds(p, x):
    """boolean term: predicate p holds for x"""
    if p[0] == 'const':
        return ('b', p[1])
    if p[0] == 'cset':
        return In(x, p[1])
    if p[0] == 'npred':
        return Not(pred_holds(p[1], x))
    if p[0] == 'eqv':
        return eq_str(x, p[1])
    if p[0] == 'atom':
        return renorm(subst(p[1], {BOUND: x}))
    if p[0] == 'tab':
        ks = [renorm(subst(a, {BOUND: x})) for a in p[1]]
        return Or(*[And(*[k if v else Not(k) for k, v in zip(ks, r)]) for r in p[2]])
    if p[0] == 'dnf':
        return Or(*[And(*[renorm(subst(a, {BOUND: x})) if v else Not(renorm(subst(a, {BOUND: x}))) for a, v in c])
                    for c in p[1]])
    return ('pred', p, x)


def renorm_term(t):
    if not isinstance(t, tuple) or not t:
        return t
    h = t[0]
    if h == 'size':
        return size(renorm_term(t[1]))
    if h == 'cv':
        return ('cv', renorm_term(t[1]), t[2])
    if h == 'idx':
        return idx(renorm_term(t[1]), renorm_term(t[2]))
    if h == 'cat':
        return cat(*[renorm_term(x) for x in t[1]])
    if h == 'sfx':
        return suffix(renorm_term(t[1]), renorm_term(t[2]))
    if h == 'lin':
        r = I(t[2])
        for x, c in t[1]:
            y = renorm_term(x)
            d, k = lin(y)
            r = add(r, mklin({a: b * c for a, b in d.items()}, k * c))
        return r
    return t


def renorm(a):
    """re-normalise an atom after substitution"""
    h = a[0]
    if h == 'eq':
        return eq_str(renorm_term(a[1]), renorm_term(a[2]))
    if h == 'prefix':
        return prefix(renorm_term(a[1]), renorm_term(a[2]))
    if h == 'in':
        return In(renorm_term(a[1]), a[2])
    if h == 'eqc':
        return eq_char(renorm_term(a[1]), renorm_term(a[2]))
    if h == 'le':
        return Le(renorm_term(a[1]))
    if h == 'eqz':
        return EqI(renorm_term(a[1]), I(0))
    if h == 'not':
        return Not(renorm(a[1]))
    return a


def exists(c, p):
    """some element of container c satisfies predicate p"""
    if p == ('const', False):
        return FALSE
    if p == ('const', True):
        return Not(EqI(size(c), I(0)))
    if c[0] == 'list':
        return Or(*[pred_holds(p, x) for x in c[1]])
    if c[0] == 'push':
        return Or(exists(c[1], p), pred_holds(p, c[2]))
    if c[0] == 's':
        return ('b', any(pred_holds(p, I(ord(ch) & 255)) == TRUE for ch in c[1]))
    return ('exists', c, p)
