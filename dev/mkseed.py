"""make(id, property, edits, demo body, needs, breaks): writes /verif/seeded/<id> from exact text replacements in /repo.
Development helper; no check reads this or /verif/seeded."""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

PRE = r'''#include <sharg/all.hpp>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <limits>
#include <sys/wait.h>
#include <unistd.h>

using V = std::vector<std::string>;
using namespace std::string_literals;
static int bad = 0;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::cerr << "failed: " #__VA_ARGS__ "\n"; bad = 1; } } while (0)

template <class F> std::string outcome(F && f)
{
    try { f(); return "ok"; }
    catch (sharg::unknown_option const &) { return "unknown"; }
    catch (sharg::too_many_arguments const &) { return "many"; }
    catch (sharg::too_few_arguments const &) { return "few"; }
    catch (sharg::required_option_missing const &) { return "missing"; }
    catch (sharg::option_declared_multiple_times const &) { return "multiple"; }
    catch (sharg::validation_error const &) { return "validation"; }
    catch (sharg::user_input_error const &) { return "input"; }
    catch (sharg::design_error const &) { return "design"; }
    catch (std::exception const &) { return "foreign"; }
}
// exit code and standard output of a function that may end the program
template <class F> std::pair<int, std::string> ends(F && f)
{
    int fd[2];
    if (pipe(fd)) std::abort();
    std::cout.flush(); std::cerr.flush();
    pid_t p = fork();
    if (!p)
    {
        dup2(fd[1], 1); close(fd[0]); close(fd[1]);
        std::string r = outcome(f);
        std::cout.flush();
        _exit(r == "ok" ? 77 : 78);
    }
    close(fd[1]);
    std::string out; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), out};
}
inline sharg::parser mk(V a, V subs = {}) { a.insert(a.begin(), "app"); return sharg::parser{"app", a, sharg::update_notifications::off, subs}; }

'''

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export HOME="$d" XDG_CONFIG_HOME="$d" XDG_CACHE_HOME="$d"
%s
${CXX:-g++} -std=c++20 -pthread %s-I"$PWD/include" "$here/demo.cpp" -o "$d/demo" || exit 2
cd "$d" && timeout 100 ./demo
'''


def make(id, prop, edits, body, needs, breaks, flags='', env='export SHARG_NO_VERSION_CHECK=1', force=False):
    out = '%s/seeded/%s' % (VERIF, id)
    if os.path.exists(out) and not force:
        return
    for f, old, new in edits:
        t = open(REPO + '/include/sharg/' + f).read()
        if t.count(old) != 1:
            print(id, 'text found', t.count(old), 'times in', f, repr(old)[:80])
            return
    d = tempfile.mkdtemp()
    try:
        subprocess.run(['git', '-C', REPO, 'worktree', 'prune'])
        subprocess.run('git -C %s archive HEAD include | tar -x -C %s' % (REPO, d), shell=True, check=True)
        subprocess.run('cp -a include a', shell=True, cwd=d)
        for f, old, new in edits:
            p = d + '/include/sharg/' + f
            t = open(p).read().replace(old, new)
            open(p, 'w').write(t)
        diff = subprocess.run('diff -ru a include', shell=True, cwd=d, capture_output=True, text=True).stdout
        lines = []
        for l in diff.split('\n'):
            if l.startswith('diff -ru'):
                continue
            if l.startswith('--- a/'):
                l = '--- a/include/' + l[6:].split('\t')[0]
            elif l.startswith('+++ include/'):
                l = '+++ b/include/' + l[12:].split('\t')[0]
            lines.append(l)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write('\n'.join(lines))
        open(out + '/demo.cpp', 'w').write(PRE + body)
        open(out + '/demo.sh', 'w').write(DEMO % (env, flags + ' ' if flags else ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=REPO, capture_output=True, text=True)
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode not in (0, 2)
        a = subprocess.run(['git', '-C', REPO, 'apply', '--check', out + '/patch.diff'], capture_output=True, text=True)
        print(id, 'OK' if ok and a.returncode == 0 else 'BAD', r0.returncode, r1.returncode, a.stderr[:200])
        if not ok:
            print((r0.stderr + '\n--\n' + r1.stderr)[-1500:])
            shutil.rmtree(out)
    finally:
        shutil.rmtree(d)
