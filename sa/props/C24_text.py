"""Rules: the help page on the terminal shows every text completely and in order, whatever it contains: the words on the page are the words of the
texts with their formatting codes (\\fB, \\fI, \\fP, \\-) applied; escape sequences are written only when the output is a terminal; every element
starts on a line of its own, also behind one with an empty text; no text is read past its end. Decided by reading the complete output of the page on every path, for texts of a
fixed length with arbitrary characters at every place where a text can go, and for all short sequences of elements."""
import itertools
import re
from texts import *
from C23_html import interpret

ASSUMPTIONS = ['texts with up to two (thorough: three, lines four) arbitrary characters, in lines of 80 (thorough: also 40 and 120) columns',
               'formatting codes in titles and in the short description have no specified effect',
               'the escape sequences themselves are not interpreted']
RAW = ('section', 'subsection', 'short description')


def run(ctx):
    def hooked(terminal, width):
        out = {'sharg::detail::stdout_is_terminal': lambda E, st, f, vs, e: [('v', ('b', terminal), st)],
               'sharg::detail::get_terminal_width': lambda E, st, f, vs, e: [('v', I(width), st)], '#key': (terminal, width)}

        def hooks(R, message=S('')):
            h = page_hooks(R, message, primitives=False)
            for n in ('sharg::detail::stdout_is_terminal', 'sharg::detail::get_terminal_width'):
                if not R.p.functions(n):
                    raise Broken('no function ' + n)
            h.update(out)
            for k in ('format_help::to_text', 'format_help::text_width'):
                m = memo(R, 'sharg::detail::' + k, out)
                if m:
                    h['sharg::detail::' + k] = m
            return h
        return hooks

    def body(t):
        """without the line under the header, which only depends on the length of the title"""
        ls = t.split('\n')
        return '\n'.join(ls[:1] + [x for x in ls[1:2] if x.strip('=')] + ls[2:])

    def plain(t):
        return re.sub('\x1b\\[[0-9;]*m', '', t)

    def place(config, where, n, terminal, width, arg, around=()):
        R = ctx.runner(config)
        hooks = hooked(terminal, width)
        mark = page_with(R, where, S(MARK), [arg], hooks)
        frame = concrete(written_text(mark[0]), {}) if len(mark) == 1 and mark[0].out == 'exit' else None
        if frame is None:
            raise Broken('the page is not constant')
        subject = '%s of %d characters, %s%s %s' % (where, n, 'terminal' if terminal else 'file', '' if width == 80 else ' of %d columns' % width, ('between ' + ' '.join(around) + ' ' if around else '') + config)
        frame = body(plain(frame))
        if n and MARK not in frame:
            ctx.violation('a text is seen as it was written', subject, 'the text of the %s does not appear on the page' % where)
            return
        xs = [P('x%d' % i) for i in range(n)]
        ps = page_with(R, where, shape(*(between(around, xs) if around else xs)), [arg], hooks)
        reps = atoms(ps, xs)
        reps += [ord(c) for c in '\\fBIP-x' if ord(c) not in reps]

        def allowed(p):
            if p.out != 'exit':
                return False, 'outcome ' + p.outcome()
            if past_end(p):
                return False, 'the text is read past its end at ' + past_end(p)
            w = written_text(p)
            for text, env in readings(p, xs, reps):
                if around:
                    text = ''.join(between(around, text))
                if where in RAW and '\\' in text:
                    continue
                page = concrete(w, env)
                if page is None:
                    return None
                if not terminal and '\x1b' in page and '\x1b' not in text:
                    return False, 'escape sequences in a file'
                page = body(plain(page))
                long = [x for x in page.split('\n') if around and len(x) > min(max(width, 40), 120) and len(x.split()) > 1 and set(x.split()) & set(' '.join(around).split())]
                if long:
                    return False, 'a line is wider than the screen: %r' % long[0]
                want = ''.join(c for c, s in interpret(text))
                if where == 'section':
                    want = ''.join(c.upper() if ord(c) < 128 else c for c in text)
                want = frame.replace(MARK, want)
                if page.split() != want.split():
                    return False, 'the text %r is shown as %r' % (text, next(('%s instead of %s' % (a, b) for a, b in itertools.zip_longest(page.split(), want.split()) if a != b)))
                if not n and [x.split() for x in page.split('\n')] != [x.split() for x in want.split('\n')]:
                    return False, 'without a text the page has other lines: %r' % ([(a, b) for a, b in itertools.zip_longest(page.split('\n'), want.split('\n')) if a is None or b is None or a.split() != b.split()][:1],)
            return True
        ctx.paths_obey('a text is seen as it was written', subject, ps, allowed, 'text')

    def sequences(config, first, n):
        R = ctx.runner(config)
        hooks = hooked(False, 80)(R)
        for ks in itertools.product(range(5), repeat=n):
            if ks and ks[0] != first:
                continue
            for text in ('tExT', ''):
                m = {'args': strlist('app', '-h'), 'text': S(text), 'kinds': ('list', tuple(I(k) for k in ks))}
                m.update(info(date=S(''), short_description=S('')))
                ps = R.run(R.fn('drv::sc_elements'), mem=m, hooks=hooks, unroll=4096)

                def allowed(p):
                    if p.out != 'exit':
                        return False, 'outcome ' + p.outcome()
                    t = concrete(written_text(p), {})
                    if t is None:
                        return None
                    ls = [x.strip() for x in t.split('\n')]
                    if any(x not in ls for x in ('Common options', '-h, --help', 'VERSION', 'OPTIONS')):
                        return False, 'elements share a line: ' + repr([x for x in ls if 'Common options' in x or x.endswith('--help')])
                    if not text:
                        return True
                    n = sum(x.upper() == 'TEXT' or x.split() == ['tExT', 'tExT'] and len(ks) for x in ls)
                    want = sum(1 + (k == 4) for k in ks)
                    got = sum(len(x.split()) for x in ls if 'TEXT' in x.upper())
                    return got == want and all(set(x.upper().split()) == {'TEXT'} for x in ls if 'TEXT' in x.upper()), 'the page shows %d texts instead of %d' % (got, want)
                ctx.paths_obey('every element starts on a line of its own', '%s %s %s' % (' '.join('section subsection paragraph line item'.split()[k] for k in ks), text or 'without text', config), ps, allowed, 'lines')

    for config in ('release', 'debug'):
        for terminal in (False, True):
            for where in PLACES:
                lo = 1 if where in ('default message', 'validator message', 'url', 'author', 'email', 'citation', 'short copyright', 'short description') else 0
                for n in range(lo, (4 if ctx.thorough else 3)):
                    if terminal and n == 2 and where not in ('paragraph', 'item term', 'item text', 'option description') and not ctx.thorough:
                        continue
                    for width in (40, 80, 120) if ctx.thorough else (80,):
                        ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, n, terminal, width, '-h'))
            ctx.attempt('a text is seen as it was written', 'paragraph', lambda: place(config, 'paragraph', 4 if ctx.thorough else 3, terminal, 80, '-hh'))
            for where in ('paragraph', 'option description') if not ctx.thorough else ('paragraph', 'line', 'item term', 'item text', 'option description', 'description'):
                ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, 2, terminal, 80, '-h', CODES[:3]))
                for width in (20, 40, 80) if terminal and not ctx.thorough else range(40, 56):
                    ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, 1, terminal, width, '-h', ('the first words', 'and more words behind '+ 'w' * 45 + ' and then again some more words that fill the lines of the screen completely until the end .')))
        for n in range(0, 5 if ctx.thorough else 3):
            for first in range(5 if n else 1):
                ctx.attempt('every element starts on a line of its own', str(n), lambda: sequences(config, first, n))
