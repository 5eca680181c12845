"""Running the harness over cases and TLC over the recorded traces."""
import json, os, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
import build
from gql import dumps
VERIF = build.VERIF
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

class ToolError(Exception):
    pass

def harness_run(binary, mode, lines, workdir, timeout=25, tag='h'):
    """Feeds lines (dicts) to the harness; returns one observation per line.  A line that kills the harness gets
    {"crash": ...} and the run resumes after it; the last stateful line (k=world) is replayed first."""
    obs = [None] * len(lines)
    texts = [dumps(l) for l in lines]
    start, world = 0, None
    crashes = 0
    while start < len(lines):
        pre = [] if world is None or lines[start].get('k') == 'world' else [texts[world]]
        fin, fout = f'{workdir}/{tag}.in', f'{workdir}/{tag}.out'
        with open(fin, 'w') as f:
            for t in pre + texts[start:]: f.write(t + '\n')
        if os.path.exists(fout): os.remove(fout)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')
        with open(f'{workdir}/{tag}.err', 'wb') as ferr:
            p = subprocess.run([binary, mode, fin, fout], stdout=subprocess.DEVNULL, stderr=ferr, env=env)
        got = []
        if os.path.exists(fout):
            with open(fout) as f:
                for l in f:
                    if not l.endswith('\n'): break
                    got.append(json.loads(l))
        got = got[len(pre):]
        for j, g in enumerate(got):
            obs[start + j] = g
            if lines[start + j].get('k') == 'world': world = start + j
        n = start + len(got)
        if n >= len(lines): break
        # line n killed the harness
        with open(f'{workdir}/{tag}.err', 'rb') as f: err = f.read()[-1500:].decode(errors='replace')
        why = 'hang' if p.returncode in (-14, 142, -9, 137) else 'crash'      # killed from outside: to be confirmed
        obs[n] = {'crash': why, 'rc': str(p.returncode), 'err': err}
        if lines[n].get('k') == 'world': world = None
        crashes += 10 if why == 'hang' else 1
        start = n + 1
        if crashes >= 20:
            for j in range(start, len(lines)): obs[j] = {'crash': 'skipped', 'rc': '0', 'err': ''}
            break
    return obs

def harness_parallel(binary, mode, groups, workdir):
    """groups: lists of lines that must stay together; returns the observations per group."""
    os.makedirs(workdir, exist_ok=True)
    shards = [[] for _ in range(JOBS)]
    for n, g in enumerate(groups): shards[n % JOBS].append(n)
    def one(k):
        ls = [l for n in shards[k] for l in groups[n]]
        return harness_run(binary, mode, ls, workdir, tag=f'h{k}') if ls else []
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(one, range(JOBS)))
    out = [None] * len(groups)
    for k in range(JOBS):
        pos = 0
        for n in shards[k]:
            out[n] = res[k][pos:pos + len(groups[n])]
            pos += len(groups[n])
    return out

def tlc(module, cfg, env=None, workers='1', heap='2g', timeout=840, extra=(), workdir=None):
    """Runs TLC; returns its output.  Raises ToolError when TLC itself fails."""
    own = workdir is None
    workdir = workdir or tempfile.mkdtemp(prefix='tlc')
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8',
           '-cp', f'{JAR}:{CM}/CommunityModules-deps.jar:{CM}/CommunityModules.jar', 'tlc2.TLC', '-workers', workers, '-noGenerateSpecTE', '-metadir', meta,
           '-config', cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=f'{VERIF}/spec', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        if own: shutil.rmtree(workdir, ignore_errors=True)

def confirmed(c, binary, mode, lines, o):
    """A line (the last of lines) without an answer: is it a violation?  A crash is; a hang, or a line which was left out after
    too many crashes, has to show it again alone.  After three violations, and a number of repetitions, no more are looked for."""
    if len(c.violations) >= 3: return False
    why = (o or {}).get('crash')
    if why == 'crash': return True
    c.retries = getattr(c, 'retries', 0) + (1 if why == 'hang' else .5)
    if c.retries > 12: return False
    return 'crash' in (harness_run(binary, mode, lines, c.dir('again'))[-1] or {'crash': ''})

REJ = re.compile(r'<<\s*"REJECT", "([^"]*)", (\d+), \{([^}]*)\}\s*>>')
class Undefined(frozenset):
    """The aspect of a trace on which the specification has no value at all (a part is missing or not of its type): concerns every property."""
    def __and__(self, other): return self
    __rand__ = __and__
LOST = 3          # of these per shard are enough
UNDEFINED = Undefined(['the specification has no value for this trace'])
def check_traces(module, shards, workdir, heap='2g', timeout=840, want_output=False):
    """shards: lists of lines (dicts).  Returns (rejects, stats): rejects are (id, step, set of aspects), stats the number of states and transitions."""
    os.makedirs(workdir, exist_ok=True)
    def once(k, lines):
        f = f'{workdir}/trace{k}.ndjson'
        with open(f, 'w') as o:
            for l in lines: o.write(dumps(l) + '\n')
        rc, out = tlc(f'{module}.tla', f'{module}.cfg', env={'TRACE': f}, heap=heap, timeout=timeout, workdir=workdir)
        return rc, out, re.sub(r'\s+', ' ', out)
    def one(k):
        if not shards[k]: return [], (0, 0), ''
        lines, lost = shards[k], []
        while True:
            rc, out, flat = once(k, lines)
            at = re.findall(r"(?m)^(?:/\\\\ )?i = (\d+)", out)
            if rc == 0 or not at or 'OutOfMemory' in out or not re.search(r'The (?:error|exception) (?:occurred|was a)|The following behavior|behavior up to this point', out): break
            l = lines[int(at[-1]) - 1]
            lost.append((l['id'], max([1] + [int(x) for x in re.findall(r'/\\ s = (\d+)', out)[-1:]]), UNDEFINED))
            if len(lost) >= LOST: break
            # once more, without it (worlds are referred to by their number)
            lines = [x if x is not l else dict(x, steps=[]) for x in lines] if 'steps' in l else [x for x in lines if x is not l]
            if not lines: return lost, (1, 0), ''
        if len(lost) < LOST and (rc != 0 or f'<<"DONE", {len(lines)}>>' not in flat):
            raise ToolError(f'{module}: TLC rc={rc}\n' + out[-3000:])
        rej = [(a, int(b), set(re.findall(r'"([^"]*)"', c))) for a, b, c in REJ.findall(flat)]
        if not lost and flat.count('"REJECT"') != len(rej): raise ToolError('unreadable REJECT line\n' + out[-3000:])
        gen, dist = (re.findall(r'(\d+) states generated, (\d+) distinct', flat) or [('1', '1')])[-1]
        return rej + lost, (int(dist), int(gen) - 1), flat if want_output else ''
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(one, range(len(shards))))
    r = [r for a, _, _ in res for r in a], (sum(b[0] for _, b, _ in res), sum(b[1] for _, b, _ in res))
    return (*r, ' '.join(o for _, _, o in res)) if want_output else r
