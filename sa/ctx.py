"""Obligations, verdicts, evidence."""
import json
import os
import signal
import time
import traceback
import zlib

from lib import Broken, Runner, VERIF, REPO, Explosion, Unsupported, header_hash
from pp import pp


def alarm(*_):
    raise Explosion('too much time for one obligation')


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = []           # (rule, subject, status, detail)
        self.viol = []          # dict(rule, key, where, text)
        self.functions = set()
        self.entries = 0
        self.paths = 0
        self.calls = 0
        self.opaque = set()
        self.samples = []
        self.assumptions = []
        self.bases = {}
        self.config = 'release'
        self._runners = {}

    thorough = property(lambda self: self.tier == 'thorough')

    # -------------------------------------------------------------- running
    def runner(self, config=None):
        config = config or self.config
        if config not in self._runners:
            self._runners[config] = Runner(self, config)
        return self._runners[config]

    def note_run(self, fn, n, E):
        self.entries += 1
        self.paths += n
        self.calls += E.stats['calls']
        self.functions |= E.stats['functions']
        self.opaque |= E.stats['opaque_calls']

    # -------------------------------------------------------------- verdicts
    def ok(self, rule, subject, detail=''):
        self.obl.append((rule, subject, 'holds', detail))

    def undecided(self, rule, subject, why):
        self.obl.append((rule, subject, 'undecided', why))

    def violation(self, rule, subject, text, where=''):
        self.obl.append((rule, subject, 'violated', where))
        key = rule + ': ' + subject
        for v in self.viol:
            if v['key'] == key:
                v['also'] = v.get('also', 0) + 1
                return
        self.viol.append({'rule': rule, 'subject': subject, 'key': key, 'where': where, 'text': text})

    def paths_obey(self, rule, subject, paths, allowed, what, minimum=1):
        """every path must be allowed. allowed(path) -> True | False | None (cannot tell) | (False, reason)"""
        if len(paths) < minimum:
            raise Broken('%s: %s: only %d paths reach this rule' % (rule, subject, len(paths)))
        good = 0
        bad = []
        unk = 0
        first = None
        for p in paths:
            r = allowed(p)
            why = ''
            if isinstance(r, tuple):
                r, why = r
            if r is True:
                good += 1
            elif r is None or p.opq:
                unk += 1
                first = first or (why, p)
                if r is False:
                    bad.append((p, why, True))
            else:
                bad.append((p, why, False))
        firm = [b for b in bad if not b[2]]
        if firm:
            p, why, _ = firm[0]
            self.violation(rule, subject, '%s\n%s%s' % (what, ('found: ' + why + '\n') if why else '', p.describe()),
                           str(p.line or ''))
        elif unk:
            self.undecided(rule, subject, '%d of %d paths; %s %s' % (unk, len(paths), first[0], first[1].describe()))
        else:
            self.ok(rule, subject, '%d paths' % len(paths))
        if len(self.samples) < 12 and paths:
            self.samples.append('%s | %s | %s' % (rule, subject, paths[0].describe()[:600]))

    shard = None        # (index, count): this process decides the obligations index, index + count, ...
    seq = 0
    inside = False

    def attempt(self, rule, subject, f, group=None):
        """run one obligation; constructs the analysis does not understand leave it undecided.
        Obligations of one group are decided by one process."""
        if group is None and not self.inside:
            self.seq += 1
        if self.shard and not self.inside and (zlib.crc32(str(group).encode()) if group is not None else self.seq) % self.shard[1] != self.shard[0]:
            return None
        before, self.inside = self.inside, True
        try:
            if before:
                return f()
            left = self.budget() - (time.time() - self.t0)
            if left <= 1:
                raise Explosion('the time for this check is used up')
            signal.signal(signal.SIGALRM, alarm)
            signal.alarm(int(min(left, self.budget() / 4)))
            return f()
        except (Explosion, Unsupported) as ex:
            self.undecided(rule, subject, '%s: %s' % (type(ex).__name__, ex))
        except Broken as ex:
            self.undecided(rule, subject, 'out of reach: %s' % ex)
        except RecursionError:
            self.undecided(rule, subject, 'recursion')
        except Exception as ex:
            self.undecided(rule, subject, 'not understood: ' + ' '.join(traceback.format_exc().split('\n')[-6:]))
        finally:
            self.inside = before
            if not before:
                signal.alarm(0)
        return None

    def budget(self):
        """seconds for the obligations of one process"""
        return 780 if self.thorough else 600

    # -------------------------------------------------------------- processes
    def export(self):
        return {k: getattr(self, k) for k in ('obl', 'viol', 'functions', 'entries', 'paths', 'calls', 'opaque', 'samples')}

    def absorb(self, d):
        self.obl += d['obl']
        for v in d['viol']:
            if not any(w['key'] == v['key'] for w in self.viol):
                self.viol.append(v)
        self.functions |= d['functions']
        self.opaque |= d['opaque']
        self.entries += d['entries']
        self.paths += d['paths']
        self.calls += d['calls']
        self.samples = (self.samples + d['samples'])[:12]

    # -------------------------------------------------------------- result
    def finish(self, mod):
        known = load_known()
        un = [o for o in self.obl if o[2] == 'undecided']
        st = {'holds': 0, 'violated': 0, 'undecided': 0}
        for o in self.obl:
            st[o[2]] += 1
        fresh, listed = [], []
        for v in self.viol:
            (listed if any(k['property'] == self.pid and k['key'] == v['key'] for k in known) else fresh).append(v)
        rules = {}
        for r, s, k, d in self.obl:
            rules.setdefault(r, {'holds': 0, 'violated': 0, 'undecided': 0})[k] += 1
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': (mod.__doc__ or '').strip(),
                'obligations': len(self.obl),
                'discharged': st['holds'],
                'undecided': len(un),
                'violated': st['violated'],
                'rules': rules,
                'entry_contexts': self.entries,
                'paths': self.paths,
                'call_sites_resolved': self.calls,
                'functions_analysed': sorted('%s (%s)' % f for f in self.functions)[:400],
                'calls_without_model': sorted(self.opaque),
                'undecided_list': ['%s | %s | %s' % (r, s, d) for r, s, k, d in un][:40],
                'samples': self.samples,
                'headers': header_hash(),
            },
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.viol),
        }
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d hold, %d undecided, %d violated; %d entry contexts, %d paths, %.1fs' % (
            self.pid, len(self.obl), st['holds'], len(un), st['violated'], self.entries, self.paths,
            time.time() - self.t0))
        for r, s, k, d in un[:int(os.environ.get('SHOW_UNDECIDED', '5'))]:
            print('  undecided: %s | %s | %s' % (r, s, str(d)[:int(os.environ.get('SHOW_WIDTH', '300'))]))
        for v in listed:
            k = [k for k in known if k['property'] == self.pid and k['key'] == v['key']][0]
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if st['holds'] == 0 and not fresh:
            print('%s: no obligation could be discharged' % self.pid)
            return 2
        if not fresh:
            return 0
        d = VERIF + '/build/replay'
        os.makedirs(d, exist_ok=True)
        path = '%s/%s.txt' % (d, self.pid)
        with open(path, 'w') as f:
            for v in fresh:
                f.write('rule: %s\ninstance: %s\nat: %s\n%s\n\n' % (v['rule'], v['subject'], v['where'], v['text']))
        for v in fresh[:8]:
            print('  violated: %s | %s | %s' % (v['rule'], v['subject'], v['where']))
            print('    ' + v['text'].replace('\n', '\n    ')[:1500])
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1


BASE_ASSUMPTIONS = [
    'the model of the standard library in sa/models.py (strings, containers, algorithms, streams, filesystem, threads)',
    'the semantics of the clang 18 AST as interpreted in sa/engine.py; no undefined behaviour outside what is checked',
    'the template instantiations of driver/driver.cpp are representative',
]


def load_known():
    out = []
    p = VERIF + '/known_findings.json'
    if os.path.exists(p):
        out = json.load(open(p))['findings']
    return out
