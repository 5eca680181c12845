#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree.  Exit 0: it held; 1 (and a VIOLATION line): it is broken; 2: no answer.
check.py --replay FILE: runs the case of a violation again and prints what the library does."""
import importlib, json, os, re, shutil, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/lib')
import build, tracer
from suites import SUITES

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.violations, self.findings = [], []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': []}
        self.rules, self.assume, self.distinct = [], [], set()
        self.level = 'model_checking'
        self.listed = load_findings(pid)
    @property
    def thorough(self): return self.tier == 'thorough'
    def left(self, budget):
        """Seconds left of a thorough run's budget."""
        return budget - (time.time() - self.t0)
    def dir(self, name):
        d = f'{self.work}/{name}'
        os.makedirs(d, exist_ok=True)
        return d
    def add(self, **k):
        for a, b in k.items(): self.cov[a] = self.cov.get(a, 0) + b
    def nontrivial(self, key): self.distinct.add(key)
    def sample(self, s):
        if len(self.cov['samples']) < 4: self.cov['samples'].append(s)
    def violation(self, what, replay):
        if len(self.violations) >= 20: return
        d = f'{VERIF}/evidence/replay'
        os.makedirs(d, exist_ok=True)
        p = f'{d}/{self.pid}-{len(self.violations)}.json'
        with open(p, 'w') as f: json.dump({'property': self.pid, 'what': what, 'replay': replay}, f, indent=1)
        self.violations.append((what, p))
    def finding(self, key, what, replay):
        """A defect of the current tree: reported as known only if the committed file lists it."""
        if key in self.listed: self.findings.append((key, self.listed[key]))
        else: self.violation(f'{key}: {what}', replay)

def load_findings(pid):
    r = {}
    for l in open(f'{VERIF}/known-findings.txt'):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid: r[m.group(2)] = m.group(3)
    return r

def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        print(r['property'], r['what'])
        rep = r['replay']
        if isinstance(rep, dict) and 'lines' in rep:
            d = tempfile.mkdtemp()
            for o in tracer.harness_run(build.harness(), rep['mode'], rep['lines'], d)[-1:]: print(json.dumps(o, indent=1))
            shutil.rmtree(d)
        else: print(json.dumps(rep, indent=1))
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    for old in os.listdir(f'{VERIF}/evidence/replay') if os.path.isdir(f'{VERIF}/evidence/replay') else []:
        if old.startswith(pid + '-'): os.remove(f'{VERIF}/evidence/replay/{old}')
    c = Ctx(pid, tier, seed)
    try:
        for mod, fn in SUITES[pid]:
            getattr(importlib.import_module(mod), fn)(c)
    except (build.BuildError, tracer.ToolError) as e:
        print(f'{pid}: no answer: {e}')
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    c.cov['distinct_nontrivial'] = len(c.distinct)
    c.cov['rule'] = '  '.join(c.rules)
    if not c.cov['samples']: c.cov['samples'] = ['(none)']
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{pid}.json', 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': c.level, 'coverage': c.cov, 'assumptions': c.assume,
                   'wall_s': round(time.time() - c.t0, 2), 'violations': len(c.violations)}, f, indent=1)
    for k, t in c.findings: print(f'KNOWN-FINDING: property={pid} {t}')
    for w, p in c.violations:
        print(f'VIOLATION property={pid} replay={p}')
        print('  ' + w.replace('\n', '\n  ')[:1500])
    print(f'{pid}: {"broken" if c.violations else "held"} ({c.cov["evaluations"]} evaluations, {c.cov["states"]} states, '
          f'{c.cov["traces_validated_against_impl"]} traces, {time.time() - c.t0:.1f} s)')
    return 1 if c.violations else 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
