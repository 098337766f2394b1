"""mut.py FILE: quick mutants. FILE is python: M = [(checks, file, old, new), ...]. Runs each check on a copy (development helper)."""
import os, shutil, subprocess, sys, tempfile
VERIF = '/verif'
M = []
exec(open(sys.argv[1]).read())
for n, (checks, f, old, new) in enumerate(M):
    d = tempfile.mkdtemp()
    subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % d, shell=True)
    p = d + '/include/sharg/' + f
    t = open(p).read()
    if t.count(old) < 1:
        print(n, 'NOT FOUND', old[:60]); shutil.rmtree(d); continue
    open(p, 'w').write(t.replace(old, new, 1))
    for c in checks.split():
        r = subprocess.run(['python3', 'check.py', c], cwd=VERIF, env={**os.environ, 'SHARG_REPO': d}, capture_output=True, text=True)
        o = [x.strip() for x in r.stdout.split('\n') if x.strip()]
        i = next((k for k, x in enumerate(o) if x.startswith('violated:')), 0)
        print(n, c, {1: 'caught', 0: 'quiet'}.get(r.returncode, 'rc=%d' % r.returncode), '|', new.strip().replace('\n', ' ')[:60], '|', ' ; '.join(o[i:i + 3])[:220], flush=True)
    shutil.rmtree(d)
