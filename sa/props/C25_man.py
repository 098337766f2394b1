"""Rules: the exported man page shows every text as it was written, whatever it contains: no character of a text is taken for a roff request or
escape, nothing is lost, and the requests on the page do not depend on the texts; what a reader sees is the text with its formatting codes (\\fB, \\fI,
\\fP, \\-) applied. Decided by reading the complete roff source of the page on every path, for texts of a fixed length with arbitrary characters at
every place where a text can go, and for all short sequences of elements."""
import itertools
import re
from texts import *
from C23_html import interpret

ASSUMPTIONS = ['texts with up to two (thorough: three, lines four) arbitrary characters; the conversion works character by character and only knows whether it is at the start of a line',
               'formatting codes in titles have no specified effect; "\\fR" is not a formatting code of the parser, but passed on']
RAW = ('section', 'subsection')
ESCAPE = re.compile(r'\\(f[BIPR]|-|e|&|\(dq)')
REQUEST = {'TH', 'SH', 'SS', 'sp', 'br', 'TP'}


def words(text):
    """what roff makes of this text; raises ValueError for escapes that lose a part of it"""
    out, i = [], 0
    while i < len(text):
        if text[i] != '\\':
            out.append(text[i])
            i += 1
            continue
        m = ESCAPE.match(text, i)
        if not m:
            raise ValueError('the escape sequence %r' % text[i:i + 4])
        out.append({'-': '-', 'e': '\\', '&': '', '(dq': '"'}.get(m.group(1), ''))
        i = m.end()
    return ''.join(out)


def arguments(text):
    """the arguments of a macro"""
    out, i = [], 0
    while i < len(text):
        if text[i] == ' ':
            i += 1
        elif text[i] == '"':
            j = text.find('"', i + 1)
            if j < 0:
                j = len(text)
            if text[j + 1:j + 2] not in ('', ' '):
                raise ValueError('a quote inside an argument: %r' % text)
            out.append(words(text[i + 1:j]))
            i = j + 1
        else:
            j = text.find(' ', i)
            if j < 0:
                j = len(text)
            out.append(words(text[i:j]))
            i = j
    return out


def read(page):
    """([request], [(element, text)]) a reader sees"""
    requests, out = [], []
    for l in page.split('\n'):
        if l[:1] == "'" or l[:1] == '.' and l[1:3].strip() not in REQUEST:
            raise ValueError('the line %r is taken for a request' % l)
        if l[:1] == '.':
            requests.append(l[1:3])
            if l[1:3] == 'TH':
                out.append(('TH', ' | '.join(arguments(l[3:]))))
            else:
                out.append((l[1:3], ' '.join(arguments(l[3:]))))
        else:
            out.append(('', words(l)))
    return requests, ' '.join(t for k, t in out).split(), out


def run(ctx):
    def hooks(R, message=S('')):
        h = page_hooks(R, message, primitives=False)
        for k in ('format_man::to_roff', 'format_man::in_bold'):
            m = memo(R, 'sharg::detail::' + k, {})
            if m:
                h['sharg::detail::' + k] = m
        return h

    def place(config, where, n, around=()):
        R = ctx.runner(config)
        arg = ['--export-help=man']
        mark = page_with(R, where, S(MARK), arg, hooks)
        frame = concrete(written_text(mark[0]), {}) if len(mark) == 1 and mark[0].out == 'exit' else None
        if frame is None:
            raise Broken('the page is not constant')
        requests, flat, lines = read(frame)
        if n and MARK not in frame:
            ctx.violation('a text is seen as it was written', '%s %s' % (where, config), 'the text of the %s does not appear on the page' % where)
            return
        xs = [P('x%d' % i) for i in range(n)]
        ps = page_with(R, where, shape(*(between(around, xs) if around else xs)), arg, hooks)
        reps = atoms(ps, xs)
        reps += [ord(c) for c in '\\fBIP-."\'' if ord(c) not in reps]

        def allowed(p):
            if p.out != 'exit':
                return False, 'outcome ' + p.outcome()
            if past_end(p):
                return False, 'the text is read past its end at ' + past_end(p)
            w = written_text(p)
            for text, env in readings(p, xs, reps):
                if around:
                    text = ''.join(between(around, text))
                if where in RAW and '\\' in text or '\\fR' in text:
                    continue
                page = concrete(w, env)
                if page is None:
                    return None
                try:
                    rq, seen, ls = read(page)
                except ValueError as ex:
                    return False, 'for the text %r the page has %s' % (text, ex)
                want = ''.join(c for c, s in interpret(text))
                if where == 'section':
                    want = ''.join(c.upper() if ord(c) < 128 else c for c in want)
                want = ' '.join(flat).replace(MARK, want).split()
                if seen != want:
                    return False, 'the text %r is shown as %s' % (text, next(('%r instead of %r' % (a, b) for a, b in itertools.zip_longest(seen, want) if a != b)))
                if n and rq != requests:
                    return False, 'for the text %r the page has other requests' % text
            return True
        ctx.paths_obey('a text is seen as it was written', '%s of %d characters %s%s' % (where, n, 'between ' + ' '.join(around) + ' ' if around else '', config), ps, allowed, 'roff')

    def sequences(config, first, n):
        R = ctx.runner(config)
        h = hooks(R)
        for ks in itertools.product(range(5), repeat=n):
            if ks and ks[0] != first:
                continue
            m = {'args': strlist('app', '--export-help=man'), 'text': S('tExT'), 'kinds': ('list', tuple(I(k) for k in ks))}
            m.update(info(date=S(''), short_description=S(''), man_page_title=S('title'), man_page_section=I(1)))
            ps = R.run(R.fn('drv::sc_elements'), mem=m, hooks=h, unroll=4096)

            def allowed(p):
                if p.out != 'exit':
                    return False, 'outcome ' + p.outcome()
                t = concrete(written_text(p), {})
                if t is None:
                    return None
                try:
                    rq, seen, ls = read(t)
                except ValueError as ex:
                    return False, 'the page has %s' % ex
                # every element has the request and the texts of its kind
                got = []
                for i, (k, x) in enumerate(ls):
                    if x.upper() == 'TEXT':
                        got.append((k if k else 'TP' if ls[i - 1][0] == 'TP' else 'text' , x))
                want = []
                for k in ks:
                    want += [[('SH', 'TEXT')], [('SS', 'tExT')], [('text', 'tExT')], [('text', 'tExT')], [('TP', 'tExT'), ('text', 'tExT')]][k]
                if got != want:
                    return False, 'the page shows %s instead of %s' % (got, want)
                at = [i for i, x in enumerate(ls) if x[1].upper() == 'TEXT']
                at = [at[j] for j in itertools.accumulate([0] + [1 + (k == 4) for k in ks]) if j < len(at)]
                for a, b, i in zip(ks, ks[1:], at[1:]):
                    if a in (2, 3) and b in (2, 3) and ls[i - 1][0] != ('sp' if b == 2 else 'br'):
                        return False, 'a paragraph and a line are set alike'
                for i in range(1, len(ls) - 1):
                    if ls[i] == ls[i + 1] == ('', 'tExT') and ls[i - 1][0] != 'TP':
                        return False, 'two elements share a line'
                return True
            ctx.paths_obey('every sequence of elements is shown', '%s %s' % (' '.join('section subsection paragraph line item'.split()[k] for k in ks), config), ps, allowed, 'roff')

    for config in ('release', 'debug'):
        for where in PLACES:
            lo = 1 if where in ('default message', 'validator message', 'url', 'author', 'email', 'citation', 'short copyright', 'short description') else 0
            for n in range(lo, (4 if ctx.thorough else 3)):
                ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, n))
        ctx.attempt('a text is seen as it was written', 'paragraph', lambda: place(config, 'paragraph', 4 if ctx.thorough else 3))
        for where in ('paragraph', 'option description') if not ctx.thorough else ('paragraph', 'line', 'item term', 'item text', 'option description', 'description'):
            ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, 2, CODES[:3]))
            ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, 1, ('a', 'b c')))
        for n in range(0, 6 if ctx.thorough else 4):
            for first in range(5 if n else 1):
                ctx.attempt('every sequence of elements is shown', str(n), lambda: sequences(config, first, n))
