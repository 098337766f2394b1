"""Effects on the file system: every path of every validator, of the search for the cookie directory and of the update check,
with every answer of every query and every failing call. An entry may only be created, truncated or removed when the path
shows that it did not exist before (or is the output file the user allowed to be overwritten); whatever was created as a
probe is removed again on every path; input validators change nothing; no other function of the library touches files."""
from common import *

DESTROY = ('remove', 'remove_all', 'rename', 'resize_file', 'permissions', 'copy', 'copy_file')


def effects(p):
    """(index, epoch, kind, path, event) of everything that changes files"""
    out, n = [], 0
    for i, e in enumerate(p.events):
        if e[0] == 'open' and e[1] == 'w':
            out.append((i, n, 'open', e[2], e))
            n += 1
        elif e[0] == 'fs':
            if e[1] not in ('list_directory',):
                out.append((i, n, e[1], e[2], e))
            n += 1
    return out


def absent_before(p, q, k):
    """a query before effect number k says there is nothing at q: True | None"""
    for a, v in p.F.order:
        if a[0] == 'fs' and a[1] == 'exists' and a[2] == q and a[3][0] == 'i' and a[3][1] <= k and p.val(a) is False:
            return a[3][1]
    return None


def parent(q):
    if q[:2] == ('app', 'path/'):
        return q[2]
    return None


def is_fresh(p, q, k):
    """what is at q when effect number k happens was created by this call or is not there"""
    if absent_before(p, q, k) is not None:
        return True
    d = parent(q)
    if d is not None:
        for i, n, kind, x, e in effects(p):
            if n < k and kind == 'create_directory' and x == d and absent_before(p, d, n) is not None:
                return True
    return False


def failed(p, e):
    """the opening or creation e is known to have failed"""
    for a, v in p.F.order:
        if e[0] == 'open' and a[:2] == ('bapp', 'stream_is_open') and a[2] == e[2] and a[3] == I(e[3]):
            return p.val(a) is False
        if e[0] == 'fs' and a[0] == 'bapp' and a[1] == 'fserr' and a[2:4] == (e[1], e[2]) and p.val(a) is True:
            return True
    return False


def infeasible(p):
    """a file this call created where there was nothing is a regular file"""
    for i, n, kind, q, e in effects(p):
        if kind == 'open' and is_fresh(p, q, n) and not failed(p, e):
            for a, v in p.F.order:
                if a[0] == 'fs' and a[1] == 'is_regular_file' and a[2] == q and a[3][1] > n and p.val(a) is False:
                    later = [x for x in effects(p) if n < x[1] < a[3][1]]
                    if not later:
                        return True
    return False


def preserved(allow=None):
    def allowed(p):
        for i, n, kind, q, e in effects(p):
            if kind == 'create_directory' or kind == 'create_directories':
                continue
            if is_fresh(p, q, n):
                continue
            r = allow(p, n, kind, q) if allow else False
            if r is True:
                continue
            return r, '%s of %s, which may have existed before' % ('truncation' if kind == 'open' else kind, pp(q))
        return True
    return allowed


def tidy(keep=()):
    """created entries are removed (or the removal is attempted) before the call ends"""
    def allowed(p):
        if infeasible(p):
            return True
        if p.out == 'exit' and any(a[:3] == ('bapp', 'fserr', 'remove_all') and p.val(a) is True for a, v in p.F.order):
            return True     # a debug build stops at an assertion when the clean-up itself fails
        es = effects(p)
        for j, (i, n, kind, q, e) in enumerate(es):
            if kind not in ('open', 'create_directory'):
                continue
            if failed(p, e) or q in keep:
                continue
            if kind == 'create_directory' and absent_before(p, q, n) is None:
                if keep is not None and not any(a[0] == 'fs' and a[1] == 'exists' and a[2] == q and p.val(a) is True for a, v in p.F.order):
                    return False, 'the directory %s may be created and stay' % pp(q)
                continue
            if kind == 'open' and not is_fresh(p, q, n):
                special = [a for a, v in p.F.order if a[0] == 'fs' and a[1] == 'is_regular_file' and a[2] == q and a[3][1] > n and p.val(a) is False]
                if special:
                    continue
            if kind == 'open':
                bad = [a for a, v in p.F.order if a[:2] == ('bapp', 'stream_good') and a[2] == q and a[3] == I(e[3]) and p.val(a) is False]
                thrown = [x for x in p.events[i:] if x[0] == 'stdthrow']
                if bad or thrown:
                    continue
            later = [x for x in es[j + 1:] if x[2] in ('remove', 'remove_all') and (x[3] == q or x[3] == parent(q) and x[2] == 'remove_all')]
            if not later:
                return False, '%s stays behind' % pp(q)
        return True
    return allowed


VALIDATORS = ['input_file_validator', 'input_directory_validator', 'output_file_validator', 'output_directory_validator']


def run(ctx):
    for config in ('release', 'debug'):
        for v in VALIDATORS:
            ctx.attempt('validators', config + v, lambda: validator(ctx, config, v), config + v)
        ctx.attempt('directory', config, lambda: cookie_dir(ctx, config), config + 'dir')
        ctx.attempt('sites', config, lambda: sites(ctx, config), config + 'sites')


def validator(ctx, config, v):
    R = ctx.runner(config)
    fs = [f for f in R.p.functions('sharg::%s::operator()' % v) if 'std::filesystem::path' in f['params'][0]['t'] and 'vector' not in f['params'][0]['t']]
    if not fs:
        raise Broken('%s not found' % v)
    f = fs[0]
    par = P(f['params'][0]['n'])
    modes = [('', {})]
    if v == 'output_file_validator':
        values = R.p.enums['sharg::output_file_open_options']['v']
        modes = [(m, {'obj.open_mode': I(values[m])}) for m in ('create_new', 'open_or_create')]
    for mode, mem in modes:
        subject = '%s, %s%s' % (config, v, ', ' + mode if mode else '')
        ps = R.run(f, mem=mem, std=True)
        if v.startswith('input'):
            ctx.paths_obey('input validators change nothing', subject, ps,
                           lambda p: (not effects(p), 'effect %s' % pp(effects(p)[0][4]) if effects(p) else ''), 'an input validator changes files', minimum=4)
            continue
        overwrite = None
        if mode == 'open_or_create':
            def overwrite(p, n, kind, q):
                if q != par:
                    return False
                isdir = [p.val(a) for a, val in p.F.order if a[0] == 'fs' and a[1] == 'is_directory' and a[2] == q]
                if False not in isdir:
                    return False
                if kind == 'open':
                    return True
                reg = [a for a, val in p.F.order if a[0] == 'fs' and a[1] == 'is_regular_file' and a[2] == q and p.val(a) is True]
                return bool(reg)
        ctx.paths_obey('existing entries are neither truncated nor removed', subject, ps, preserved(overwrite), 'something the user owns is lost', minimum=6)
        ctx.paths_obey('nothing is left behind', subject, ps, tidy(), 'an entry created by the check stays', minimum=6)

        def inside(p):
            for i, n, kind, q, e in effects(p):
                if v == 'output_file_validator' and q != par:
                    return False, '%s of %s' % (kind, pp(q))
                if v == 'output_directory_validator' and q != par and parent(q) != par and not opaque(q):
                    return False, '%s of %s' % (kind, pp(q))
            return True
        ctx.paths_obey('only the given path is touched', subject, ps, inside, 'another entry is touched', minimum=6)
        if v == 'output_file_validator':
            def late(p):
                if p.out in ('ok', 'exit'):
                    return True
                for i, n, kind, q, e in effects(p):
                    if kind == 'open' and not failed(p, e):
                        bad = [a for a, val in p.F.order if a[:2] == ('bapp', 'stream_good') and a[2] == q and p.val(a) is False]
                        thrown = [x for x in p.events[i:] if x[0] == 'stdthrow']
                        if not bad and not thrown:
                            return False, 'rejected after the file was opened for writing'
                return True
            ctx.paths_obey('a rejected output file is not touched', subject, ps, late, 'the file is overwritten and then rejected', minimum=6)
    # lists: element by element through the same check
    for g in R.p.functions('sharg::file_validator_base::operator()'):
        ps = R.run(g, hooks={'sharg::%s::operator()' % w: cut('element') for w in VALIDATORS})
        ctx.paths_obey('a list of paths is only handed on', '%s, %s of %s' % (config, v, kind_of(g['params'][0]['t'].replace('const ', ''))), ps,
                       lambda p: (not effects(p), 'touches files itself'), 'the list overload touches files')


def cookie_dir(ctx, config):
    R = ctx.runner(config)
    ps = R.run(R.fn('sharg::detail::version_checker::get_path'), unroll=0)
    home = ('app', 'getenv', S('HOME'))

    def spare(p, n, kind, q):
        return False
    ctx.paths_obey('existing entries are neither truncated nor removed', config + ', cookie directory', ps, preserved(spare), 'something the user owns is lost', minimum=6)
    conf_ = ('app', 'path/', home, S('.config'))
    seqan = ('app', 'path/', conf_, S('seqan'))
    ctx.paths_obey('nothing is left behind', config + ', cookie directory', ps, tidy((conf_, seqan)), 'an entry created by the search stays', minimum=6)

    def where(p):
        for i, n, kind, q, e in effects(p):
            if kind == 'create_directory':
                if q not in (conf_, seqan):
                    return False, 'creates %s' % pp(q)
            elif not opaque(q) and parent(q) not in (seqan, ('app', 'tmpdir')):
                return False, '%s of %s' % (kind, pp(q))
        return True
    ctx.paths_obey('only ~/.config/seqan or the temporary directory is used', config + ', cookie directory', ps, where, 'another directory is used', minimum=6)


SITES = {'remove', 'remove_all', 'rename', 'resize_file', 'permissions', 'copy', 'copy_file', 'create_directory', 'create_directories',
         'unlink', 'rmdir', 'mkdir', 'fopen', 'truncate', 'create_symlink', 'last_write_time'}
CLASSES = ('std::basic_ofstream', 'std::basic_fstream', 'std::basic_filebuf')


def nodes(t):
    if isinstance(t, dict):
        yield t
        for x in t.values():
            if isinstance(x, (dict, list)):
                yield from nodes(x)
    elif isinstance(t, list):
        for x in t:
            if isinstance(x, (dict, list)):
                yield from nodes(x)


def touches(f):
    out = set()
    for c in nodes([f.get('body'), f.get('inits')]):
        n = str((c.get('f') or {}).get('n', '')) if isinstance(c.get('f'), dict) else ''
        n = n.replace('std::filesystem::__cxx11::', 'std::filesystem::').replace('std::__cxx11::', 'std::')
        if c.get('k') == 'call' and (n.startswith('std::filesystem::') and n.split('::')[-1] in SITES or n in SITES):
            out.add(n.split('::')[-1])
        if c.get('k') == 'ctor' and str(c.get('c', '')) in CLASSES:
            out.add(c['c'].split('::')[-1])
    return out


def sites(ctx, config):
    """functions that change files and are part of none of the analyses of this property or of the cookie"""
    R = ctx.runner(config)
    covered = set()
    for v in VALIDATORS:
        for f in R.p.functions('sharg::%s::operator()' % v):
            if 'std::filesystem::path' in f['params'][0]['t']:
                ps = R.run(f, std=True, mem={'obj.extensions': strlist()})
                covered |= {n for n, _ in ps[0].E.stats['functions']}
    ps = R.run(R.fn('sharg::detail::version_checker::get_path'))
    covered |= {n for n, _ in ps[0].E.stats['functions']}
    ps = R.run(R.fn('sharg::detail::version_checker::decide_if_check_is_performed'))
    cookie = {n for n, _ in ps[0].E.stats['functions']}
    n = 0
    for f in R.p.fn.values():
        if not f['n'].startswith('sharg::'):
            continue
        t = touches(f)
        if not t:
            continue
        n += 1
        subject = '%s, %s in %s' % (config, '/'.join(sorted(t)), f['n'])
        if f['n'] in covered or f['n'] in cookie:
            ctx.ok('every place that changes files is analysed', subject, 'covered')
            continue
        ps = R.run(f, std=True)

        def own(p, n, kind, q):     # a guard removes the entry it was made for; whoever makes the guard is analysed
            return kind != 'open' and pp(q).startswith('$obj.')
        allowed = preserved(own)
        ctx.paths_obey('existing entries are neither truncated nor removed', subject, ps, allowed, 'a place that changes files without checking that they are new')
    if n < 3:
        raise Broken('places that change files not found')
