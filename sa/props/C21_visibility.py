"""Rules: on every page and for every combination of the visibility settings, an option, flag, section, subsection, line or list item
is written exactly when it is neither hidden nor (advanced and the page the short one); nothing else depends on these settings.
Decided on all paths of constructing a parser with one of everything (symbolic visibility) and asking for the page."""
from pages import *

ASSUMPTIONS = ['one parser with an option, a flag, a positional option and one documentation element of each kind; elements do not interact (each is added by its own call)']


def run(ctx):
    def page(config, name):
        cls, adv, args = PAGES[name]
        R = ctx.runner(config)
        m = {'args': strlist('app', *args), 'flag': FALSE}
        m.update(info())
        m.update(conf('c1', 'i', 'int', required=True))
        m.update(conf('c2', 'f', 'flag'))
        m.update(conf('c3'))
        m['para'] = FALSE
        m['un'] = I(1)
        m.update({a: ('bapp', a) for a in ('a1', 'a2', 'a3', 'a4')})
        ps = R.run(R.fns('drv::sc_page')[0], mem=m, hooks=page_hooks(R, S('')), unroll=90)

        def vis(p, hidden, advanced):
            if hidden is not None and known(truth(p, hidden)):
                return False
            if adv:
                return True
            return not known(truth(p, advanced))

        def allowed(p):
            if p.out != 'exit':
                return False, 'outcome ' + p.outcome()
            shown = [pp(e) for e in display(p)]
            unk = False
            for what, marker, hidden, advanced in (
                    ('option', '$c1.description', ('bapp', 'c1.hidden'), ('bapp', 'c1.advanced')),
                    ('flag', '$c2.description', ('bapp', 'c2.hidden'), ('bapp', 'c2.advanced')),
                    ('section', '$t1', None, ('bapp', 'a1')), ('subsection', '$t2', None, ('bapp', 'a2')),
                    ('line', '$t3', None, ('bapp', 'a3')), ('list item', '$t4', None, ('bapp', 'a4')),
                    ('positional option', '$c3.description', None, None)):
                n = sum(marker in s for s in shown)
                if what == 'positional option':
                    want = 1
                else:
                    h = None if hidden is None else truth(p, hidden)
                    a = truth(p, advanced)
                    if h is True or (not adv and a is True):
                        want = 0
                    elif (hidden is None or h is False) and (adv or a is False):
                        want = 1
                    elif (h is None and hidden is not None) and (adv or a is False):
                        # the page does not depend on the setting
                        return False, 'the %s is written %d times whether hidden or not' % (what, n)
                    elif not adv and a is None and (hidden is None or h is False):
                        return False, 'the %s is written %d times whether advanced or not' % (what, n)
                    else:
                        return False, 'the %s is written %d times whether advanced or hidden or not' % (what, n)
                if n != want:
                    return False, 'the %s is written %d times instead of %d' % (what, n, want)
            return True
        ctx.paths_obey('exactly what is to be seen is shown', '%s %s' % (name, config), ps, allowed, 'visibility')

    for config in ('release', 'debug'):
        for name in PAGES:
            ctx.attempt('visibility', name + ' ' + config, lambda: page(config, name))
