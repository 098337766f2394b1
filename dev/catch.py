"""catch.py [ID...]: applies each planted bug to a scratch copy and runs the check of its property (development helper)."""
import json, os, shutil, subprocess, sys, tempfile, glob
V = '/verif'
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*'))
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    d = tempfile.mkdtemp()
    subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % d, shell=True)
    subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], cwd=d)
    p = m['property']
    r = subprocess.run(['python3', 'check.py', p], cwd=V, env={**os.environ, 'SHARG_REPO': d}, capture_output=True, text=True)
    print(i, p, 'CAUGHT' if r.returncode == 1 else 'missed rc=%d' % r.returncode, '|', ' '.join(x.strip() for x in r.stdout.split('\n')[1:3])[:230], flush=True)
    shutil.rmtree(d)
