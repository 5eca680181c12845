"""C26: generated services, compiled and executed, judged by Exec and Introspect (through ExecTrace)."""
import glob, hashlib, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from gen import *
from meta import META, SCALARS
import suite_exec as se, suite_intro, sgen, genmock, tracer, build

FLAGS = ['-O0', '-g0']
def schema_case(rng, k, root):
    """One schema document, generator options, generated sources and mock."""
    S = sgen.schema(rng)
    sdl = sgen.Sdl(rng)
    text = sdl.document(S)
    ns = f's{k}'
    opts = [o for o in ('--separate-files', '--no-stubs', '--no-introspection') if rng.random() < (.4, .4, .2)[('--separate-files', '--no-stubs', '--no-introspection').index(o)]]
    objs = world_objs(rng, S, per=2, perr=.06, phook=.03, how=('value', 'value', 'deferred', 'async'))
    stubs = set()
    if '--no-stubs' not in opts:
        for t in S.s['types']:
            if t['kind'] == 'OBJECT':
                stubs |= {(t['name'], f['name']) for f in t['fields'] if rng.random() < .06}
    acc = lambda t: 'apply' if t == S.s['mutation'] else 'get'
    for o in objs:
        for f, b in o['fields'].items():
            if (o['type'], f) in stubs: b['err'] = [{'k': 'runtime', 'm': f"{genmock.cpp(o['type'])}::{acc(o['type'])}{genmock.cap(f)} is not implemented"}]
    return {'S': S, 'text': text, 'ns': ns, 'opts': opts, 'objs': objs, 'stubs': stubs, 'dir': f'{root}/{ns}', 'intro': '--no-introspection' not in opts}

def generate(x, gen):
    d = x['dir']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(f'{d}/schema.graphql', 'w') as f: f.write(x['text'])
    prefix = 'P' + x['ns']
    p = subprocess.run([gen, '-s', f'{d}/schema.graphql', '-p', prefix, '-n', x['ns'], '--source-dir', d, '--header-dir', d, *x['opts']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60)
    x['rc'], x['said'] = p.returncode, (p.stdout + p.stderr).decode(errors='replace')
    if p.returncode: return
    header = f'{prefix}Objects.h' if '--separate-files' in x['opts'] else f'{prefix}Schema.h'
    with open(f'{d}/mock.cpp', 'w') as f: f.write(genmock.mock(x['S'], x['ns'], prefix, header, x['stubs']))
    srcs = sorted(glob.glob(f'{d}/*.cpp'))
    if '--separate-files' in x['opts']:
        # one translation unit: the files are compiled together (they share only headers)
        with open(f'{d}/all.cpp', 'w') as f: f.write(''.join(f'#include "{os.path.basename(s)}"\n' for s in sorted(srcs, key=lambda s: not s.endswith('Schema.cpp')) if not s.endswith('mock.cpp')))
        srcs = [f'{d}/all.cpp', f'{d}/mock.cpp']
    x['srcs'] = srcs

def compile_cases(xs):
    """Compiles everything; a schema whose sources do not compile gets 'broken'."""
    def one(job):
        x, s = job
        try: return build.compile_one(s, build.BASE + FLAGS + [f'-I{x["dir"]}', f'-I{build.VERIF}/harness'])
        except build.BuildError as e: return e
    jobs = [(x, s) for x in xs for s in x.get('srcs', [])]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    for (x, s), r in zip(jobs, res):
        if isinstance(r, Exception): x.setdefault('broken', f'{os.path.basename(s)}: {r}')
        else: x.setdefault('objs_', []).append(r)
    good = [x for x in xs if x.get('rc') == 0 and 'broken' not in x]
    return good

def tla_world(x):
    S = x['S']
    w = se.tla_world(S, x['objs'], x['ns'])
    one = lambda a: {'name': a['name'], 'base': a['type']['n'], 'w': a['type']['w'], 'has': '1' if a['def'] else '0', 'def': a['defv'] or NULL}
    w['gen'] = '1'
    w['enums'] = dict({'_': ['_']}, **{t['name']: [v['name'] for v in t['values']] for t in S.s['types'] if t['kind'] == 'ENUM'})
    w['inputs'] = dict({'_': [{'name': '_', 'base': '', 'w': [], 'has': '0', 'def': NULL}]}, **{t['name']: [one(a) for a in t['inputs']] for t in S.s['types'] if t['kind'] == 'INPUT'})
    for t in S.s['types']:
        for f in t['fields']:
            r = w['types'][t['name']]['fields'][f['name']]
            r['args'] = [one(a) for a in f['args']]
            r['stub'] = '1' if (t['name'], f['name']) in x['stubs'] else '0'
    if x['intro']:
        w['full'], w['intro'] = suite_intro.full(S), '1'
    w['types'].update({t['name']: {'kind': t['kind'], 'names': [t['name']], 'fields': {'_': {'n': '', 'w': [], 'args': [], 'stub': '0'}}} for t in META})
    return w

def probe_case(root):
    """Known finding: an argument which is not of its type is replaced by its default value."""
    S = Schema({'types': [ty('OBJECT', 'Query', fields=[fielddef('f', typ('Int'), [argdef('a', typ('Int'), '1')])])], 'directives': [], 'query': 'Query', 'mutation': '', 'subscription': ''})
    S.s['types'][0]['fields'][0]['args'][0]['defv'] = vint(1)
    objs = [{'id': 'Query#0', 'type': 'Query', 'begin': [], 'end': [], 'fields': {'f': {'how': 'value', 'err': [], 'val': vint(7)}}}]
    return {'S': S, 'text': 'schema { query: Query } type Query { f(a: Int = 1): Int }', 'ns': 'sprobe', 'opts': ['--no-introspection', '--no-stubs'], 'objs': objs, 'stubs': set(), 'dir': f'{root}/sprobe', 'intro': False}

COVARIANT = 'schema { query: Query } interface I { a: I } type O implements I { a: O } type Query { o: O }'
def probe_covariant(c, gen):
    """Known finding: a field of an object may have a narrower type than that of its interface (June 2018, 3.6), but then the sources do not compile."""
    d = c.dir('covariant')
    with open(f'{d}/schema.graphql', 'w') as f: f.write(COVARIANT)
    p = subprocess.run([gen, '-s', f'{d}/schema.graphql', '-p', 'Cov', '-n', 'cov', '--source-dir', d, '--header-dir', d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60)
    c.add(evaluations=1)
    if p.returncode == 0:
        try: build.compile_one(f'{d}/CovSchema.cpp', build.BASE + FLAGS + [f'-I{d}']); return
        except build.BuildError as e: why = str(e)[-600:]
    else: why = (p.stdout + p.stderr).decode(errors='replace')[:400]
    c.finding('covariant', f'the sources generated for {COVARIANT} do not compile: {why}', {'mode': 'schemagen', 'schema': COVARIANT, 'options': []})

def group(rng, x, ndocs):
    S = x['S']
    if x['ns'] == 'sprobe':
        d = doc([op('query', '', [vardef('v', typ('Int'))], [], [fld('f', '', [arg('a', vvar('v'))])])], [])
        step = {'opname': '', 'vars': vmap([('v', vstr('x'))]), 'st': ''}
        return ([{'k': 'world', 'gen': x['ns'], 'objs': x['objs']}, {'k': 'case', 'roots': [{'op': 'query', 'o': 'Query#0'}], 'steps': [dict(step, op='resolve', doc=Printer().document(d), launch='deferred', gates=[])]}],
                [tla_world(x), {'k': 'case', 'id': 'sprobe.0', 'w': 0, 'docs': [{'ops': d['ops'], 'frags': d['frags'], 'valid': '1'}], 'roots': {'query': 'Query#0', 'mutation': ''}, 'steps': [dict(step, di=1)]}])
    hl = [{'k': 'world', 'gen': x['ns'], 'objs': x['objs']}]
    tl = [tla_world(x)]
    roots = [{'op': t, 'o': f'{S.s[t]}#0'} for t in ('query', 'mutation', 'subscription') if S.s[t]]
    for n in range(ndocs):
        if n == 0 and x['intro']: d = suite_intro.standard()
        else:
            g = DocGen(rng, S, pskip=.04, pdir=.08, pfrag=.15, pinline=.2, pvar=.3, depth=3, width=5)
            d = g.finish([g.operation(rng.choice([t for t in ('query', 'query', 'mutation') if S.s[t]]), '')])
        text = Printer(rng, .05).document(d)
        if len(text) > 6000: continue
        vs = request_vars(rng, S, d['ops'][0], .12)
        hs = {'op': 'resolve', 'doc': text, 'opname': '', 'vars': vs, 'launch': rng.choice(['deferred', 'async']), 'st': rng.choice(['', 'S1']), 'gates': []}
        hl.append({'k': 'case', 'roots': roots, 'steps': [hs]})
        tl.append({'k': 'case', 'id': f'{x["ns"]}.{n}', 'w': 0, 'docs': [{'ops': d['ops'], 'frags': d['frags'], 'valid': '1'}],
                   'roots': {t: f'{S.s[t]}#0' for t in ('query', 'mutation') if S.s[t]}, 'steps': [{'di': 1, 'opname': '', 'vars': vs, 'st': hs['st']}]})
    return hl, tl

def run(seed, count, ndocs, workdir):
    root = f'{build.BUILD}/gen-{seed}'
    gen = build.schemagen()
    build.harness()
    xs = [schema_case(random.Random(f'C26/{seed}/{k}'), k, root) for k in range(count)]
    if seed.endswith('-0'): xs.append(probe_case(root))
    for x in xs: generate(x, gen)
    good = compile_cases(xs)
    out = {'xs': xs, 'good': good, 'gs': [], 'tr': [], 'obs': [], 'rej': [], 'states': (0, 0)}
    if good:
        h = f'{build.VERIF}/harness'
        mine = sorted(os.path.join(h, f) for f in os.listdir(h) if f.endswith('.cpp') and not f.startswith('x_'))
        b = build.build(f'gens{seed}', build.LIB[:1] + mine + build.LIB[1:], extra=build.ASAN, objs=[o for x in good for o in x['objs_']])
        out['bin'] = b
        gs = [group(random.Random(f'C26d/{seed}/{x["ns"]}'), x, ndocs) for x in good]
        obs = tracer.harness_parallel(b, 'exec', [h for h, _ in gs], workdir)
        tr = [se.merge(t, o) for (_, t), o in zip(gs, obs)]
        for t, o, (h, _) in zip(tr, obs, gs):
            keep = [k for k in range(len(t)) if k < 2 or len(dumps(o[k] or '')) < 100000]
            for l in (t, o, h): l[:] = [l[k] for k in keep]
        rej, states = tracer.check_traces('ExecTrace', se.shard(split(tr), tracer.JOBS), workdir)
        out.update(gs=gs, obs=obs, tr=tr, rej=rej, states=states)
    shutil.rmtree(root, ignore_errors=True)
    return out

def forget(r):
    """Objects and programs of a round which nobody needs again."""
    for f in [o for x in r['xs'] for o in x.get('objs_', [])] + [r.get('bin')]:
        if f and os.path.exists(f): os.remove(f)

def split(tr):
    """Pieces of a few cases each, every one with its world."""
    return [[t[0]] + t[i:i + 6] for t in tr for i in range(1, len(t), 6)]

def check(c):
    rnd = 0
    while True:
        r = run(f'{c.seed}-{c.tier}-{rnd}', 14, 24, c.dir('gen'))
        n = 0
        for x in r['xs']:
            c.nontrivial(hash(x['text']))
            if x['rc']: c.violation(f'the generator refuses a consistent schema: {x["said"][:400]}', {'mode': 'schemagen', 'schema': x['text'], 'options': x['opts']})
            elif 'broken' in x: c.violation(f'the generated sources do not compile: {x["broken"][-900:]}', {'mode': 'schemagen', 'schema': x['text'], 'options': x['opts']})
        for (hl, _), tl in zip(r['gs'], r['tr']):
            for h, t in zip(hl[1:], tl[1:]):
                n += 1
                if n % 9 == 2: c.sample({'document': h['steps'][0]['doc'][:500], 'answer': dumps(t['steps'][0]['doc'])[:300]})
        c.add(evaluations=n, traces_validated_against_impl=n, states=r['states'][0], transitions=r['states'][1], schemas=len(r['xs']))
        for cid, step, asp in r['rej']:
            g, k = se.locate(r['tr'], cid)
            o = r['obs'][g][k]
            if o is None or 'crash' in o:
                if not tracer.confirmed(c, r['bin'], 'exec', [r['gs'][g][0][0], r['gs'][g][0][k]], o): continue
                asp = {'crash: ' + (o or {}).get('crash', '') + ' ' + (o or {}).get('err', '')[-300:]}
            x = r['good'][g]
            c.violation(f'case {cid}: the generated service is not the schema: {sorted(asp)}\n{r["gs"][g][0][k]["steps"][0]["doc"][:700]}',
                        {'mode': 'schemagen', 'schema': x['text'], 'options': x['opts'], 'lines': [r['gs'][g][0][0], r['gs'][g][0][k]], 'step': step, 'aspects': sorted(asp), 'observed': o, 'trace': r['tr'][g][k]})
        for x, o in zip(r['good'], r['obs']):
            if x['ns'] == 'sprobe' and o[1] and 'steps' in o[1] and 'errors' not in o[1]['steps'][0].get('doc', NULL)['k']:
                c.finding('invalid-default', 'an argument which is not of its type is replaced by its default value instead of being reported', {'mode': 'schemagen', 'schema': x['text'], 'options': x['opts'], 'observed': o[1]})
        if rnd == 0: probe_covariant(c, build.schemagen())
        if rnd: forget(r)
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 120: break
    c.rules.append('A case is one request (the standard introspection query or a random document) against a service generated by schemagen from a random schema document, compiled with mock getters; distinct and non-trivial by schema document.')
    c.assume += ['the mock getters report their arguments truthfully', 'g++ -O0 stands for any conforming compiler']
