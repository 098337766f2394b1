#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property from /repo's current headers."""
import glob
import importlib
import multiprocessing
import os
import sys
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here + '/sa', here + '/sa/props']
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    names = [os.path.basename(f)[:-3] for f in glob.glob(here + '/sa/props/' + pid + '_*.py')]
    mod = importlib.import_module(names[0])
    import ctx
    import lib
    c = ctx.Ctx(pid, tier)
    configs = getattr(mod, 'CONFIGS', ['release', 'debug'])
    shards = getattr(mod, 'SHARDS', 4)
    try:
        for cfg in configs:
            lib.program(cfg)
    except lib.Broken as ex:
        print('%s: analysis broken: %s' % (pid, ex))
        return 3
    jobs = [(cfg, k, shards) for cfg in configs for k in range(shards)]
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        results = pool.map(work, [(pid, tier, names[0]) + j for j in jobs], chunksize=1)
    broken = []
    for d, err in results:
        c.absorb(d)
        if err:
            broken.append(err)
    for b in sorted(set(broken)):
        print('%s: analysis broken: %s' % (pid, b))
    r = c.finish(mod)
    return 3 if broken and r == 0 else r


def work(job):
    pid, tier, name, cfg, k, n = job
    import ctx
    import lib
    mod = importlib.import_module(name)
    c = ctx.Ctx(pid, tier)
    c.config = cfg
    c.shard = (k, n)
    err = None
    try:
        mod.run(c)
    except lib.Broken as ex:
        err = str(ex)
    except Exception:
        err = traceback.format_exc(limit=-12)
    return c.export(), err


if __name__ == '__main__':
    sys.exit(main())
