"""Decision tables of the value validators. Every way through a validator made with arbitrary settings and called with an
arbitrary value is compared with the documented rule on every order of the value and the settings (equal, smaller, larger,
not a number; numbers no conversion may change), for lists of every length up to a bound and, without a bound on the length,
by the quantified condition of the loop. Chains are decided with validators about which nothing is known."""
import itertools
from common import *
from worlds import takes

NAN = float('nan')
INF = float('inf')


def decide(oracle, worlds):
    """the outcome of every path is that of the rule for all inputs that can take it"""
    def allowed(p):
        doubt = None
        if p.out not in ('ok',) and p.exc != 'sharg::validation_error':
            return False, 'outcome ' + p.outcome()
        for env in worlds:
            want = oracle(env)
            if want == (p.out == 'ok'):
                continue
            t = takes(p, env)
            if t is True:
                return False, '%s for %s' % ('accepted' if p.out == 'ok' else 'rejected', ', '.join('%s = %s' % (pp(k), v) for k, v in env.items()))
            if t is None:
                doubt = doubt or 'cannot tell whether %s' % env
        return (None, doubt) if doubt else True
    return allowed


def short(t):
    return kind_of(t.replace('const ', '').rstrip(' &'))


INTS = {'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1), 'unsigned int': (0, 2**32 - 1),
        'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1)}


def points(t, around):
    """values of type t that lie on, between, around and far from the given ones"""
    if t == 'double':
        out = {float(x) + d for x in around for d in (-1, -0.5, 0, 0.5, 1)} | {INF, -INF, 4294967301.0}
        return sorted(out) + [NAN]
    lo, hi = INTS[t]
    out = {x + d for x in around for d in (-1, 0, 1)} | {lo, hi} | {x + 2**k for x in around for k in (8, 16, 32)} | {x - 2**k for x in around for k in (8, 16, 32)}
    return sorted(x for x in out if lo <= x <= hi)


def run(ctx):
    R = ctx.runner()
    lo, hi, v = P('lo'), P('hi'), P('v')
    for f in R.p.functions('drv::v_range'):
        bt, vt = f['params'][0]['t'], f['params'][2]['t'].replace('const ', '').rstrip(' &')
        ctx.attempt('range', vt, lambda: in_range(ctx, f, bt, vt))
    for f in R.p.functions('drv::v_values') + R.p.functions('drv::v_pack'):
        ctx.attempt('list', repr(f['params']), lambda: in_list(ctx, f))
    for f in R.p.functions('drv::v_regex'):
        ctx.attempt('regex', repr(f['params']), lambda: matches(ctx, f))
    for n in ('drv::v_chain2', 'drv::v_chain3', 'drv::v_chain3_right'):
        for f in R.p.functions(n):
            ctx.attempt('chain', n, lambda: chained(ctx, f))
    for f in R.p.functions('drv::v_none'):
        ctx.attempt('none', repr(f['params']), lambda: ctx.paths_obey('without a validator every value is accepted', short(f['params'][0]['t']), R.run(f),
                    lambda p: (p.out == 'ok', 'outcome ' + p.outcome()), 'the default validator rejects a value'))


def is_list(t):
    return t.startswith(('std::vector<', 'std::list<'))


def inner(t):
    return t[t.index('<') + 1:].split(', std::allocator')[0] if STR not in t else STR


BOUNDS = [(-2, 3), (1, 20), (5, 5), (4, 2)]


def in_range(ctx, f, bt, vt):
    R = ctx.runner()
    lo, hi, v = P('lo'), P('hi'), P('v')
    bounds = [(a, b) for a, b in BOUNDS if bt == 'double' or INTS[bt][0] <= a]
    if bt == 'double':
        bounds = bounds + [(-INF, INF), (0.5, 0.5)]
    num = (lambda x: float(x)) if bt == 'double' else (lambda x: x)

    def oracle_one(env, x):
        return env[x] <= env[hi] and env[x] >= env[lo]
    name = '[%s, %s]' % (bt, bt)
    if not is_list(vt):
        worlds = [{lo: num(a), hi: num(b), v: x} for a, b in bounds for x in points(vt, (a, b))]
        ps = R.run(f, casts=True, unroll=12)
        ctx.paths_obey('a number is accepted exactly if it lies in the range', '%s in %s' % (vt, name), ps, decide(lambda e: oracle_one(e, v), worlds),
                       'a value is not judged by the range', minimum=2)
        return
    et = inner(vt)
    for n in range(0, 4 if ctx.thorough else 3):
        xs = [sym('x%d' % i) for i in range(n)]
        worlds = [dict([(lo, num(a)), (hi, num(b))] + list(zip(xs, c))) for a, b in bounds for c in
                  itertools.product(*[sample(points(et, (a, b))) for _ in xs])]
        ps = R.run(f, casts=True, unroll=12, mem={'v': strlist(*xs)})
        ctx.paths_obey('a list is accepted exactly if every element is', '%s of %d in %s' % (short(vt), n, name), ps,
                       decide(lambda e: all(oracle_one(e, x) for x in xs), worlds), 'an element of a list is not judged by the range')


def sample(ps):
    return ps if len(ps) < 9 else ps[::max(1, len(ps) // 9)] + ps[-1:]


def in_list(ctx, f):
    R = ctx.runner()
    ps_ = {q['n']: q['t'].replace('const ', '').rstrip(' &') for q in f['params']}
    vt = ps_['v']
    v = P('v')
    pack = 'values' not in ps_
    for n in ([3] if pack else range(0, 4)):
        known = [P(x) for x in 'abc'] if pack else [sym('k%d' % i) for i in range(n)]
        src = ps_['a' if pack else 'values']
        kt = src if pack else inner(src)
        text = kt == STR
        universe = ['', 'a', 'A', 'ab', 'b'] if text else [1, 2, 3]
        mem = {} if pack else {'values': strlist(*known)}
        settings = list(itertools.product(universe[:3] if ctx.thorough or n < 3 else universe[1:3], repeat=n))
        if not is_list(vt):
            cands = universe if text else points(vt, (1, 2)) if vt in INTS or vt == 'double' else universe
            worlds = [dict(list(zip(known, s)) + [(v, x)]) for s in settings for x in cands]
            ps = R.run(f, casts=True, unroll=12, mem=mem)
            ctx.paths_obey('a value is accepted exactly if it is in the list', '%s of %d %s' % (short(vt), n, short(src)), ps,
                           decide(lambda e: e[v] in [e[k] for k in known], worlds), 'a value is not judged by the list')
            continue
        for m in range(0, 3):
            xs = [sym('x%d' % i) for i in range(m)]
            worlds = [dict(list(zip(known, s)) + list(zip(xs, c))) for s in settings for c in itertools.product(universe[:3], repeat=m)]
            mm = dict(mem)
            mm['v'] = strlist(*xs)
            ps = R.run(f, casts=True, unroll=12, mem=mm)
            ctx.paths_obey('a list is accepted exactly if every element is', '%d %s of %d %s' % (m, short(vt), n, short(src)), ps,
                           decide(lambda e: all(e[x] in [e[k] for k in known] for x in xs), worlds), 'an element of a list is not judged by the list')


def matches(ctx, f):
    R = ctx.runner()
    vt = f['params'][1]['t'].replace('const ', '').rstrip(' &')
    rx = ('app', 'regex', P('pattern'))
    cases = [[P('v')]] if not is_list(vt) else [[sym('x%d' % i) for i in range(n)] for n in range(0, 4)]
    for xs in cases:
        ps = R.run(f, unroll=12, mem={'v': strlist(*xs)} if is_list(vt) else {})

        def allowed(p):
            vs = [p.val(('bapp', 'regex_match', x, rx)) for x in xs]
            if p.out == 'ok':
                if all(x is True for x in vs):
                    return True
                return False, 'accepted without a match of the whole value'
            return (p.exc == 'sharg::validation_error' and False in vs), 'rejected without a failed match'
        ctx.paths_obey('a text is accepted exactly if the whole text matches the pattern', '%s%s' % (short(vt), ' of %d' % len(xs) if is_list(vt) else ''), ps, allowed,
                       'a value is not judged by the pattern')


def chained(ctx, f):
    R = ctx.runner()
    n = f['n']
    members = ['drv::opaque_%s::operator()' % c for c in ('ab' if n.endswith('2') else 'abc')]
    ps = R.run(f)
    subject = '%s, %s' % (n.split('v_')[1], short(f['params'][0]['t']))

    def allowed(p):
        calls = [e for e in p.events if e[0] == 'validate']
        thrown = [e for e in p.events if e[0] == 'validator_throws']
        for e in calls:
            if e[1] != P('v'):
                return False, 'a member sees %s' % pp(e[1])
        if thrown:
            return (p.out == 'throw' and p.exc == thrown[-1][1]), 'a member threw, outcome ' + p.outcome()
        if p.out != 'ok':
            return False, 'rejected although no member did'
        missing = [m for m in members if m not in [e[2] for e in calls]]
        return (not missing), 'accepted without asking %s' % missing
    ctx.paths_obey('a chain accepts exactly what all its members accept', subject, ps, allowed, 'a chain does not combine its members', minimum=3)
    if not [p for p in ps if p.out == 'ok']:
        ctx.violation('a chain accepts exactly what all its members accept', subject, 'nothing is accepted')
