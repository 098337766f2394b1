"""Ownership and blocking: every thread the library starts is detached on every path and receives copies only (no pointer,
reference, capture by reference or this), so that it never touches the parser or a local after their end; parse() waits for
nothing, hands the promise of the future it keeps to the check, and the destructor waits for a request only if there is one
and at most three seconds."""
from common import *
import re


def indirect(t, path='argument'):
    """a pointer, reference or capture by reference inside a value handed to a thread"""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'fnptr':
        return None
    if t[0] == 'clo':
        for c in t[3]:
            if c[2] in ('ref', 'this'):
                return 'captures %s by reference' % ('the object' if c[2] == 'this' else 'a variable')
            r = indirect(c[1])
            if r:
                return r
        return None
    if t[0] in ('ptr', 'L') or t[0] == 'app' and t[1] in ('ref', 'reference_wrapper'):
        return 'refers to %s' % pp(t)
    if t[0] == 'memfn':
        return 'calls a member function of an object it does not own'
    if t[0] == 'rec':
        for k, v in t[2]:
            r = indirect(v)
            if r:
                return r
        return indirect(t[1]) if t[1] and t[1][0] == 'clo' else None
    for x in t[1:]:
        r = indirect(x)
        if r:
            return r
    return None


WAITS = ('future_get', 'future_wait', 'future_wait_for', 'future_wait_until', 'thread_join', 'sleep')
RATIO = re.compile(r'duration<[^,<>]*(?:, std::ratio<(\d+)(?:, (\d+))?>)?>')


def seconds(e):
    """upper bound of the time a future event waits"""
    if e[0] != 'future_wait_for' or not e[1]:
        return None
    m = RATIO.search(' '.join(e[2]))
    a = e[1][0]
    while a[0] == 'app' and a[1].startswith('ctor:') and len(a) == 3:
        a = a[2]
    if not m or a[0] != 'i':
        return None
    return a[1] * int(m.group(1) or 1) / int(m.group(2) or 1)


def run(ctx):
    def threads(config):
        R = ctx.runner(config)
        ps = R.run(R.fn('drv::sc_version'), hooks={
            'sharg::detail::version_checker::get_path': cut('get_path', S('/home/u')),
            'sharg::detail::version_checker::get_numbers_from_version_string': cut('numbers', ('list', (I(0), I(0), I(0))))},
            mem={'name': S('app'), 'url': S('')}, unroll=90)

        def own(p):
            unk = None
            for i, e in enumerate(p.events):
                if e[0] == 'async':
                    return False, 'a request whose future waits for it in its destructor'
                if e[0] != 'thread':
                    continue
                for v in e[1]:
                    if opaque(v):
                        unk = True
                    r = indirect(v)
                    if r:
                        return False, 'the thread %s' % r
                det = [x for x in p.events[i:] if x[0] in ('thread_detach', 'thread_join')]
                if not det:
                    return False, 'the thread is neither detached nor joined'
            return None if unk else True
        ctx.paths_obey('a thread owns everything it uses and is detached', config, ps, own, 'the request may use what is gone', minimum=2)
        ctx.paths_obey('a request is made', config, [p for p in ps if p.ev('thread')], lambda p: True, '')

        def global_state(p):
            for e, qs in spawned(p):
                for q in qs:
                    if q.opq:
                        return None
                    for x in q.events:
                        if x[0] not in ('system', 'promise_set_value', 'cut'):
                            return False, 'the thread has the effect %s' % pp(x)[:200]
            return True
        ctx.paths_obey('the thread only runs the request and delivers its result', config, ps, global_state, 'other effects in the thread')

        def nowait(p):
            w = [e for e in p.events if e[0] in WAITS]
            return not w, 'waits: %s' % (pp(w[0])[:200] if w else '')
        ctx.paths_obey('the check does not wait for the request', config, ps, nowait, 'parsing is delayed by the request')

    def parse(config):
        R = ctx.runner(config)
        h = version_cuts(decide=True)
        del h['sharg::detail::version_checker::operator()']
        h.update(format_cuts(R, ()))
        h['sharg::detail::version_checker::get_numbers_from_version_string'] = cut('numbers', ('list', (I(0), I(0), I(0))))
        h['sharg::detail::version_checker::get_path'] = cut('get_path', S('/home/u'))
        obj = ('L', ('o', '$obj'))
        ps = R.run(R.fn('drv::sc_parse_only'), mem={'args': strlist('app', 'x'), 'name': S('app')}, hooks=h, unroll=90)

        def allowed(p):
            w = [e for e in p.events if e[0] in WAITS]
            if w:
                return False, 'waits: %s' % pp(w[0])[:200]
            th = p.ev('thread')
            pr = [e for e in p.events if e[0] == 'promise_get_future']
            if len(pr) != (1 if pr or th else 0):
                return False, 'keeps %d futures' % len(pr)
            for e in th:
                if repr(pr[0][1]) not in repr(e[1]):
                    return False, 'the result of the request is delivered to another promise'
            return True
        ctx.paths_obey('parse() does not wait and keeps the future of its request', config, ps, allowed, 'request and future do not belong together', minimum=2)
        ctx.paths_obey('parse() makes a request', config, [p for p in ps if p.ev('thread')], lambda p: True, '')

    def dtor(config):
        R = ctx.runner(config)
        ps = R.run(R.fn('sharg::parser::~'))

        def allowed(p):
            w = [e for e in p.events if e[0] in WAITS]
            if not w:
                return True
            fut = [p.val(a) for a, v in p.F.order if a[:2] == ('bapp', 'future_valid')]
            if True not in fut:
                return False, 'waits for a request that was never made'
            ts = [seconds(e) for e in w]
            if None in ts:
                return (False, 'waits without limit') if w[ts.index(None)][0] in ('future_get', 'future_wait', 'thread_join') else (None, pp(w[0]))
            return sum(ts) <= 3, 'waits %s seconds' % sum(ts)
        ctx.paths_obey('the destructor waits at most three seconds, and only for a request', config, ps, allowed, 'the end of the program is delayed', minimum=1)
    for config in ('release', 'debug'):
        ctx.attempt('threads', config, lambda: threads(config), config + '1')
        ctx.attempt('parse', config, lambda: parse(config), config + '2')
        ctx.attempt('destructor', config, lambda: dtor(config), config + '3')
