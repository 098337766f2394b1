"""Rules: the exported HTML page is well formed whatever the texts contain: every tag is closed in the right order, lists contain only
terms and definitions, paragraphs contain no blocks, and no character of a text is taken for markup; what a reader sees is the text with its
formatting codes (\\fB, \\fI, \\fP, \\-) applied. Decided by reading the complete output of the page (constants and characters of the texts) on
every path, for texts of a fixed length with arbitrary characters at every place where a text can go, and for all short sequences of elements."""
import itertools
import re
from texts import *

ASSUMPTIONS = ['texts with up to two (thorough: three, lines four) arbitrary characters; the conversion works character by character with the open styles as its only state',
               'application names, identifiers and subcommand names cannot contain markup characters (C02, C03)']
VOID = ('meta', 'br', 'hr', 'img', 'link', 'input')
BLOCK = ('h1', 'h2', 'h3', 'h4', 'dl', 'ul', 'ol', 'p', 'div', 'table', 'body', 'head', 'html', 'dt', 'dd')
ENTITY = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'", '#39': "'", '#34': '"', 'mdash': '\u2014'}
TOKEN = re.compile(r'<!DOCTYPE[^>]*>|<(/?)([a-zA-Z][a-zA-Z0-9]*)([^<>]*)>|&(#?\w+);|([<>&])|([^<>&])', re.S)


def read(page):
    """[(character, styles)] a reader sees; raises ValueError when it is not well formed"""
    stack, out = [], []
    for m in TOKEN.finditer(page):
        close, tag, attr, ent, bad, c = m.groups()
        if tag:
            tag = tag.lower()
            if tag in VOID:
                continue
            if close:
                if not stack or stack[-1] != tag:
                    raise ValueError('</%s> closes <%s>' % (tag, stack[-1] if stack else ''))
                stack.pop()
                if tag in BLOCK + ('title',):
                    out.append(('\n', ()))
            else:
                if tag in BLOCK and any(x in ('p', 'em', 'strong', 'dt', 'h1', 'h2', 'h3', 'title') for x in stack):
                    raise ValueError('<%s> inside <%s>' % (tag, stack[-1]))
                if (tag in ('dt', 'dd')) != (bool(stack) and stack[-1] == 'dl'):
                    raise ValueError('<%s> inside <%s>' % (tag, stack[-1] if stack else ''))
                stack.append(tag)
        elif ent:
            if ent not in ENTITY:
                raise ValueError('the unknown entity &%s;' % ent)
            out.append((ENTITY[ent], style(stack)))
        elif bad:
            raise ValueError('a stray "%s"' % bad)
        elif c:
            if stack and stack[-1] == 'dl' and not c.isspace():
                raise ValueError('text between the entries of a list')
            out.append((c, style(stack)))
    if stack:
        raise ValueError('<%s> is not closed' % stack[-1])
    return out


def style(stack):
    return tuple(x for x in stack if x in ('em', 'strong', 'title'))


def interpret(text, outer=()):
    """what a text with formatting codes looks like"""
    if 'title' in outer:
        return [(c, outer) for c in text]
    out, st, i = [], [], 0
    while i < len(text):
        t = text[i:i + 3]
        if t in ('\\fB', '\\fI'):
            st.append('strong' if t[2] == 'B' else 'em')
            i += 3
        elif t == '\\fP':
            st[-1:] = []
            i += 3
        elif t[:2] == '\\-':
            out.append(('-', outer + tuple(st)))
            i += 2
        elif t[:2] == '\\\\':
            out += [('\\', outer + tuple(st))] * 2
            i += 2
        else:
            out.append((text[i], outer + tuple(st)))
            i += 1
    return out


def run(ctx):
    def hooks(R, message=S('')):
        h = page_hooks(R, message, primitives=False)
        for k in ('format_html::to_html', 'format_base::escape_special_xml_chars', 'format_help_base::to_html'):
            m = memo(R, 'sharg::detail::' + k, {})
            if m:
                h['sharg::detail::' + k] = m
        return h

    def page(R, where, text):
        return page_with(R, where, text, ['--export-help=html'], hooks)

    def place(config, where, n, around=()):
        R = ctx.runner(config)
        mark = page(R, where, S(MARK))
        if len(mark) != 1 or mark[0].out != 'exit':
            raise Broken('the page is not constant')
        frame = concrete(written_text(mark[0]), {})
        if frame is None:
            raise Broken('the page is not constant')
        xs = [P('x%d' % i) for i in range(n)]
        ps = page(R, where, shape(*(between(around, xs) if around else xs)))
        reps = atoms(ps, xs)
        reps += [ord(c) for c in '\\fBIP-<>&"\'' if ord(c) not in reps]
        frame = read(frame)
        if n and not any(c == MARK for c, s in frame):
            ctx.violation('a text is seen as it was written', '%s %s' % (where, config), 'the text of the %s does not appear on the page' % where)
            return

        def allowed(p):
            if p.out != 'exit':
                return False, 'outcome ' + p.outcome()
            if past_end(p):
                return False, 'the text is read past its end at ' + past_end(p)
            w = written_text(p)
            for text, env in readings(p, xs, reps):
                if around:
                    text = ''.join(between(around, text))
                html = concrete(w, env)
                if html is None:
                    return None
                try:
                    seen = read(html)
                except ValueError as ex:
                    return False, 'for the text %r the page has %s' % (text, ex)
                want = []
                for c, s in frame:
                    want += interpret(text, s) if c == MARK else [(c, s)]
                if clean(seen) != clean(want):
                    return False, 'the text %r is shown as %s' % (text, difference(clean(seen), clean(want)))
            return True
        ctx.paths_obey('a text is seen as it was written', '%s of %d characters %s%s' % (where, n, 'between ' + ' '.join(around) + ' ' if around else '', config), ps, allowed, 'markup')

    def clean(cs):
        """styles of blanks cannot be seen"""
        return [(c, tuple(sorted(set(s)))) if not c.isspace() else (c, ()) for c, s in cs]

    def difference(a, b):
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        return '%r instead of %r' % (''.join(c for c, s in a[i:i + 20]), ''.join(c for c, s in b[i:i + 20])) + (' in another style' if a[i:i + 1] and b[i:i + 1] and a[i][0] == b[i][0] else '')

    def sequences(config, first, n):
        R = ctx.runner(config)
        h = hooks(R)
        for ks in itertools.product(range(5), repeat=n):
            if ks and ks[0] != first:
                continue
            for extra in ((), ('examples',)) if n < 3 or ctx.thorough else ((),):
                m = {'args': strlist('app', '--export-help=html'), 'text': S('tExT'), 'kinds': ('list', tuple(I(k) for k in ks)), 'info.date': S(''), 'info.short_description': S('')}
                m.update(info())
                m.update({'info.' + x: strlist('one') for x in extra})
                ps = R.run(R.fn('drv::sc_elements'), mem=m, hooks=h, unroll=4096)

                def allowed(p):
                    if p.out != 'exit':
                        return False, 'outcome ' + p.outcome()
                    t = concrete(written_text(p), {})
                    if t is None:
                        return None
                    try:
                        read(t)
                    except ValueError as ex:
                        return False, 'the page has %s' % ex
                    return t.count('tExT') == sum(1 + (k == 4) for k in ks), 'the page shows %d texts' % t.count('tExT')
                ctx.paths_obey('every sequence of elements is well formed', '%s %s %s' % (' '.join('section subsection paragraph line item'.split()[k] for k in ks), ' '.join(extra), config), ps, allowed, 'markup')

    for config in ('release', 'debug'):
        for where in PLACES:
            lo = 1 if where in ('default message', 'validator message', 'url', 'author', 'email', 'citation', 'short copyright') else 0
            for n in range(lo, (4 if ctx.thorough else 3)):
                ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, n))
        ctx.attempt('a text is seen as it was written', 'paragraph', lambda: place(config, 'paragraph', 4 if ctx.thorough else 3))
        for where in ('paragraph', 'option description') if not ctx.thorough else ('paragraph', 'line', 'item term', 'item text', 'option description', 'description'):
            ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, 2, CODES[:3] if where == 'option description' else CODES[:2] + ('c',)))
            ctx.attempt('a text is seen as it was written', where, lambda: place(config, where, 1, ('a', 'b c')))
        if ctx.thorough:
            ctx.attempt('a text is seen as it was written', 'paragraph', lambda: place(config, 'paragraph', 3, CODES))
        for n in range(0, 6 if ctx.thorough else 4):
            for first in range(5 if n else 1):
                ctx.attempt('every sequence of elements is well formed', str(n), lambda: sequences(config, first, n))
