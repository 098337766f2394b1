"""refac.py FILE [GROUP...]: behaviour preserving edits; every check has to stay quiet (development helper).
FILE defines G = {name: (checks, [(file, old, new), ...])}."""
import os, shutil, subprocess, sys, tempfile
VERIF = '/verif'
G = {}
exec(open(sys.argv[1]).read())
for name, (checks, edits) in G.items():
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp()
    subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % d, shell=True)
    ok = True
    for f, old, new in edits:
        p = d + '/include/sharg/' + f
        t = open(p).read()
        if t.count(old) < 1:
            print(name, 'NOT FOUND', old[:70].strip())
            ok = False
        open(p, 'w').write(t.replace(old, new))
    if os.environ.get('KEEP'):
        print(d)
    for c in checks.split() if ok else ():
        r = subprocess.run(['python3', 'check.py', c], cwd=VERIF, env={**os.environ, 'SHARG_REPO': d}, capture_output=True, text=True)
        o = [x.strip() for x in r.stdout.split('\n') if x.strip()]
        head = next((x for x in o if x.startswith(c + ':')), '')
        un = ' 0 undecided' not in head
        if r.returncode or un:
            i = next((k for k, x in enumerate(o) if x.startswith('violated:')), next((k for k, x in enumerate(o) if x.startswith('undecided:')), 0))
            print(name, c, 'rc=%d' % r.returncode, head[:110], '|', ' ; '.join(o[i:i + 3])[:int(os.environ.get('W', 300))], flush=True)
        else:
            print(name, c, 'quiet', flush=True)
    shutil.rmtree(d) if not os.environ.get('KEEP') else None
