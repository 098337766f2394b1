"""Running entry points and looking at the resulting paths."""
import os
import re
import subprocess
import sys
import hashlib
import fcntl

from domain import *
from engine import Engine, Program, State, Explosion, Unsupported, root
from models import Models
from pp import pp, facts

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SHARG_REPO', '/repo')
INC = REPO + '/include/sharg/'


class Broken(Exception):
    """the analysis cannot give an answer (an anchor vanished, the headers do not compile, ...)"""


def header_hash():
    h = hashlib.sha256()
    fs = []
    for d, _, ff in os.walk(REPO + '/include'):
        fs += [os.path.join(d, f) for f in ff]
    fs += [VERIF + '/driver/driver.cpp', VERIF + '/tool/extract.cpp', VERIF + '/tool/extract.sh']
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


_progs = {}


def program(config):
    """the type-checked program of the current headers (config: release | debug)"""
    if config in _progs:
        return _progs[config]
    os.makedirs(VERIF + '/build', exist_ok=True)
    h = header_hash()
    out = '%s/build/%s.json' % (VERIF, config)
    stamp = out + '.stamp'
    with open(VERIF + '/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cur = open(stamp).read() if os.path.exists(stamp) and os.path.exists(out) else ''
        if cur != h:
            subprocess.run(['bash', VERIF + '/tool/build.sh'], check=True, stdout=subprocess.DEVNULL)
            r = subprocess.run(['bash', VERIF + '/tool/extract.sh', config, out], capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                raise Broken('the headers do not compile: ' + r.stderr[-1500:])
            with open(stamp, 'w') as f:
                f.write(h)
        _progs[config] = Program(out)
    return _progs[config]


# ------------------------------------------------------------------------------------------------- values
def P(name):
    """unconstrained parameter `name` of the entry point"""
    return ('sym', ('o', '$' + name))


def fld(v, *names):
    for n in names:
        v = ('field', v, n)
    return v


def strlist(*xs):
    return ('list', tuple(S(x) if isinstance(x, str) else x for x in xs))


def sym(name):
    return ('sym', ('o', name))


def char(c):
    return I(ord(c))


def is_char(t, c):
    return In(t, 1 << ord(c))


# ------------------------------------------------------------------------------------------------- paths
BOOLEANS = ('not', 'and', 'or', 'in', 'eq', 'eqc', 'le', 'eqz', 'prefix', 'exists', 'has', 'isnull', 'truth', 'bapp')


def settle(F, v):
    """truth values this path decides, as constants"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in BOOLEANS:
        try:
            r = F.value(v)
        except Exception:
            r = None
        return v if r is None else ('b', r)
    if v[0] == 'list':
        return ('list', tuple(settle(F, x) for x in v[1]))
    return v


class Path:
    def __init__(self, kind, value, st, E=None):
        self.st = st
        self.E = E
        self.F = st.facts
        self.value = settle(self.F, value) if kind == 'v' else value
        self.opq = st.opq
        if kind == 'v':
            self.out = 'ok'
        elif kind == 'throw':
            self.out = 'throw'
        else:
            self.out = kind
        self.exc = value[0] if kind == 'throw' else None
        self.line = value[2] if kind == 'throw' and len(value) > 2 else None
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = [tuple(settle(self.F, x) for x in e) for e in self.st.events()]
        return self._ev

    def ev(self, *kinds):
        return [e for e in self.events if e[0] in kinds]

    def final(self, name):
        """what parameter `name` of the entry point holds in the end"""
        return settle(self.F, self.E.load(self.st, ('o', '$' + name)))

    def written(self, *names):
        """the writes to these parameters"""
        roots = [('o', '$' + n) for n in names]
        return [e for e in self.events if e[0] == 'w' and root(e[1]) in roots]

    def val(self, t):
        return self.F.value(t)

    def outcome(self):
        return self.exc if self.out == 'throw' else self.out

    def describe(self, events=('w', 'cut', 'fs', 'open', 'system', 'exit', 'thread', 'validate', 'callback')):
        s = 'outcome: %s' % (self.outcome() + (' at %s' % (self.line,) if self.line else '')) + '\n'
        s += '  when: ' + facts(self.F)[:3000] + '\n'
        s += '  effects: ' + '; '.join(pp(e)[:300] for e in self.events if e[0] in events)[:3000]
        return s


def cut(name, *outs):
    """replace a call by an event; outs: 'ok', True/False, a value, or an exception type"""
    def h(E, st, f, vs, e):
        r = []
        args = tuple(E.rv(st, v) for v in vs[1:]) if vs else ()
        obj = None
        if vs and e.get('m'):
            try:
                obj = E.load(st, E.obj(st, vs[0], e.get('arrow')))
            except Exception:
                obj = None
        for o in outs or ('ok',):
            s = st.copy()
            s.event('cut', name, o if isinstance(o, (str, bool)) else 'value', args, E.line, obj)
            if o == 'ok':
                r.append(('v', ('void',), s))
            elif isinstance(o, bool):
                r.append(('v', ('b', o), s))
            elif isinstance(o, str):
                r.append(('throw', (o, ('opq', 'what of ' + name, E.fresh()), E.line), s))
            else:
                r.append(('v', o, s))
        return r
    return h


class Runner:
    def __init__(self, ctx, config='release'):
        self.ctx = ctx
        self.config = config
        self.p = program(config)

    def fn(self, name, sig='', cls=None, need=True):
        fs = [f for f in self.p.functions(name)
              if re.search(sig, '; '.join(q['t'] for q in f['params'])) and (cls is None or re.search(cls, f.get('cls') or ''))]
        if not fs:
            if need:
                raise Broken('no function %s(%s)' % (name, sig))
            return None
        return fs[0]

    def fns(self, name, sig='', cls=None):
        return [f for f in self.p.functions(name)
                if re.search(sig, '; '.join(q['t'] for q in f['params'])) and (cls is None or re.search(cls, f.get('cls') or ''))]

    def decided(self, E, fn, k, v, st):
        """a path that returns or leaves an expression as truth value stands for two paths"""
        vs = [v] if k == 'v' else []
        vs += [E.load(st, ('o', '$' + q['n'])) for q in fn['params'] if q['t'] in ('bool &', 'bool')]
        out = [st]
        for x in vs:
            if isinstance(x, tuple) and x and x[0] in BOOLEANS and not any(y == ('opqb',) for y in x):
                nxt = []
                for s in out:
                    F = s.facts
                    try:
                        nxt += [s] if F.value(x) is not None else [t for _, t in E.branch(x, s)]
                    except Exception:
                        nxt.append(s)
                out = nxt
        return out

    def run(self, fn, assume=(), mem=None, hooks=None, obj=None, limit=60000, std=False, args=None, cls=None, unroll=0, casts=False):
        """paths of fn called with unconstrained arguments (bound to the objects $<parameter>)"""
        if isinstance(fn, str):
            fn = self.fn(fn)
        h = {}
        h.update(hooks or {})
        E = Engine(self.p, Models(), h)
        E.LIMIT = limit
        E.throwing_std = std
        E.exact_casts = casts
        E.unroll = unroll
        st = State()
        parts = {}
        for k, v in (mem or {}).items():
            if isinstance(k, tuple):
                st.mem[k] = v
            elif '.' not in k:
                st.mem[('o', '$' + k)] = v
            else:
                o, n = k.split('.')
                parts.setdefault(o, {})[('f', n)] = v
        for o, d in parts.items():
            st.mem[('o', '$' + o)] = ('rec', P(o), tuple(sorted(d.items(), key=repr)))
        sts = [st]
        for t, v in assume:
            nxt = []
            for s in sts:
                for F in s.facts.assume(t, v):
                    s2 = s.copy()
                    s2.facts = F
                    nxt.append(s2)
            sts = nxt
        if not sts:
            raise Broken('contradictory row')
        if args is None:
            args = []
            if fn.get('cls') and not fn.get('static') and fn.get('kind') != 'ctor':
                args.append(obj or ('L', ('o', '$obj')))
            for q in fn['params']:
                args.append(('L', ('o', '$' + q['n'])))
        out = []
        for s in sts:
            for k, v, s2 in E.call_fn(fn, args, s):
                out += [Path(k, v, s3, E) for s3 in self.decided(E, fn, k, v, s2)]
        self.ctx.note_run(fn, len(out), E)
        return out
