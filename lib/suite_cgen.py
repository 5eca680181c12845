"""C28: generated clients, compiled and used, judged by ClientGen."""
import copy, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from gen import *
from gql import *
from meta import META, SCALARS
import sgen, clientdrv, suite_client as sc, suite_intro, tracer, build

FLAGS = ['-O0', '-g0']
def fields_of(sels):
    for s in sels:
        if s['k'] == 'field': yield s
        yield from fields_of(s['sel'])

def split_repeats(rng, sels):
    """Some composite fields become two with the same response name, each with a part of the selections."""
    for s in sels: split_repeats(rng, s['sel'])
    for j in range(len(sels) - 1, -1, -1):
        s = sels[j]
        if s['k'] == 'field' and len(s['sel']) > 1 and rng.random() < .3:
            k = rng.randint(1, len(s['sel']) - 1)
            o = copy.deepcopy(s)
            s['sel'], o['sel'] = s['sel'][:k], o['sel'][k:] + (copy.deepcopy(s['sel'][:1]) if rng.random() < .3 else [])
            sels.insert(rng.randint(0, len(sels)), o)

def nested_names(rng, S, T, sels, parent=None):
    """Some fields get the response name of the field they are selected in."""
    for s in sels:
        if s['k'] != 'field':
            continue
        t = '' if s['n'].startswith('__') else [f for f in S.types[T]['fields'] if f['name'] == s['n']][0]['type']['n']
        if not t or not S.composite(t): continue
        rn = s['a'] or s['n']
        if parent and rng.random() < .5 and not any(x['k'] != 'field' or (x is not s and (x['a'] or x['n']) in (parent, rn)) for x in sels):
            s['a'] = '' if s['n'] == parent else parent
            rn = parent
        nested_names(rng, S, t, s['sel'], rn)

def client_case(rng, k, root, S, sdl, anonymous, nointro):
    op = rng.choice([t for t in ('query', 'query', 'mutation', 'subscription') if S.s[t]])
    while True:
        if rng.random() < .06 and not nointro and op == 'query':
            d = suite_intro.standard()
            d['ops'][0]['name'], d['ops'][0]['short'] = f'Op{k}', '0'
        else:
            g = DocGen(rng, S, pskip=.04, pdir=.08, pfrag=.15, pinline=.2, pvar=.5, depth=3, width=4)
            name = '' if op not in anonymous and rng.random() < .3 else f'Op{k}'
            o = g.operation(op, name, n=1 if op == 'subscription' else None)
            if op == 'subscription' and (len(o['sel']) != 1 or o['sel'][0]['k'] != 'field' or o['sel'][0]['n'] == '__typename'): continue
            more = [g.operation('query', f'Other{j}') for j in range(rng.choice([0, 0, 0, 1, 2]) if name else 0)]
            d = g.finish([o] + more)
            before = copy.deepcopy(d)
            for x in d['ops'] + d['frags']:
                split_repeats(rng, x['sel'])
            if not d['frags']: nested_names(rng, S, S.s[d['ops'][0]['type']], d['ops'][0]['sel'])
        text = Printer(rng, .06).document(d)
        if len(text) < 2500 or d['ops'][0]['name'] != f'Op{k}' or rng.random() < .1: break
    if rng.random() < .3:
        ls = text.split('\n')
        ls.insert(rng.randint(0, len(ls)) if '"""' not in text else 0, rng.choice(['# c )gql" x', '# ends in \\', '# ??/', '#', '\r', '\t# */']))
        text = '\n'.join(ls)
    text = rng.choice(['', '', '\ufeff', '\n\n', '  ', '# first\n']) + text + rng.choice(['', '\n', ' \n\n', '# last', '\r\n'])
    o = d['ops'][0]
    if not o['name']: anonymous.add(op)
    ns = f"{o['type']}::{o['name'] or o['type'].capitalize()}"
    order = [d['ops'][int(y[1:])]['name'] for y in d['order'] if y[0] == 'o'] or [o['name']]
    ask = o['name'] if order[0] != o['name'] or rng.random() < .3 else ''
    frags = {f['n']: f for f in d['frags']}
    fields = clientdrv.shape(S, frags, [(S.s[o['type']], o['sel'])])
    return {'name': f'c{k}', 'S': S, 'sdl': sdl, 'doc': d, 'text': text, 'ask': ask, 'ns': ns, 'fields': fields, 'vars': [(v['n'], v['type']) for v in o['vars']],
            'dir': f'{root}/c{k}', 'nointro': nointro, 'root': S.s[o['type']]}

def generate(x, gen):
    d = x['dir']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(f'{d}/schema.graphql', 'w', newline='') as f: f.write(x['sdl'])
    with open(f'{d}/request.graphql', 'w', newline='') as f: f.write(x['text'])
    prefix = f'P{x["name"]}'
    cmd = [gen, '-s', f'{d}/schema.graphql', '-r', f'{d}/request.graphql', '-p', prefix, '-n', x['name'], '--source-dir', d, '--header-dir', d]
    if x['ask']: cmd += ['-o', x['ask']]
    if x['nointro']: cmd.append('--no-introspection')
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60)
    except subprocess.TimeoutExpired:
        x['rc'], x['said'] = -1, 'no end within 60 s'
        return
    x['rc'], x['said'] = p.returncode, (p.stdout + p.stderr).decode(errors='replace')
    if p.returncode: return
    with open(f'{d}/driver.cpp', 'w') as f: f.write(clientdrv.driver(x['S'], x['name'], prefix, x['ns'], x['fields'], x['vars']))
    try: x['obj'] = build.compile_one(f'{d}/driver.cpp', build.BASE + FLAGS + [f'-I{d}', f'-I{build.VERIF}/harness'])
    except build.BuildError as e: x['broken'] = str(e)

# ------------------------------------------------------------------- values
def typed(rng, S, n, m):
    if not m:
        k = S.kind(n)
        if k == 'ENUM': return sc.V('Enum', rng.choice(S.types[n]['values'])['name'])
        if k == 'INPUT':
            fs = S.types[n]['inputs']
            return sc.V('Map', l=[typed(rng, S, f['type']['n'], clientdrv.mods(f['type'])) for f in fs], k=[f['name'] for f in fs])
        return sc.base(rng, n if n in LEAF else 'Scalar')
    if m[0] == 'Q': return sc.NIL if rng.random() < .25 else typed(rng, S, n, m[1:])
    return sc.V('List', l=[typed(rng, S, n, m[1:]) for _ in range(rng.choice([0, 1, 2, 3]))])

def wire_map(rng, S, fields, odd):
    kv = [(rn, wire(rng, S, n, m, sub, odd)) for rn, n, m, sub in fields if rng.random() > odd / 2]
    if rng.random() < .1: kv.append(('extra', sc.rval(rng, 1)))
    if rng.random() < .4: rng.shuffle(kv)
    return sc.V('Map', l=[v for _, v in kv], k=[k for k, _ in kv])
def wire(rng, S, n, m, sub, odd):
    if rng.random() < odd * .15: return rng.choice([sc.NIL, sc.V('Map', l=[], k=[]), sc.V('List', l=[]), sc.rval(rng, 1)])
    if not m:
        if S.composite(n): return wire_map(rng, S, sub, odd)
        if S.kind(n) == 'ENUM':
            return sc.V(rng.choice(['Enum', 'JString']), rng.choice(S.types[n]['values'])['name'] if rng.random() > odd * .1 else rng.choice(['red', '', 'Nope', 'RED_']))
        return sc.wire(rng, n if n in LEAF else 'Scalar', '', 0)
    if m[0] == 'Q': return sc.NIL if rng.random() < .2 else wire(rng, S, n, m[1:], sub, odd)
    return sc.V('List', l=[wire(rng, S, n, m[1:], sub, odd) for _ in range(rng.choice([0, 1, 2, 3]))])

def uses(rng, x, nv, nr):
    S = x['S']
    r = [{'op': 'info'}]
    if x['vars']:
        for _ in range(nv):
            r.append({'op': 'vars', 'v': sc.V('Map', l=[typed(rng, S, t['n'], clientdrv.mods(t)) for _, t in x['vars']], k=[n for n, _ in x['vars']])})
    for _ in range(nr):
        v = wire_map(rng, S, x['fields'], rng.choice([0, 0, .3])) if rng.random() < .95 else rng.choice([sc.NIL, sc.V('List', l=[]), sc.V('Map', l=[], k=[])])
        if len(dumps(v)) < 20000: r.append({'op': 'resp', 'v': v})
    return [dict(u, c=x['name']) for u in r]

def tla_client(x):
    S = x['S']
    one = lambda n, t: {'name': n, 'n': t['n'], 'm': clientdrv.mods(t)}
    W = {'kind': dict({'_': ''}, **{t['name']: t['kind'] for t in S.s['types'] + SCALARS}),
         'fields': {t['name']: dict({'_': {'n': '', 'm': ''}}, **{f['name']: {'n': f['type']['n'], 'm': clientdrv.mods(f['type'])} for f in t['fields']}) for t in S.s['types']},
         'enums': dict({'_': ['_']}, **{t['name']: [v['name'] for v in t['values']] for t in S.s['types'] if t['kind'] == 'ENUM'}),
         'inputs': dict({'_': [one('_', typ(''))]}, **{t['name']: [one(a['name'], a['type']) for a in t['inputs']] for t in S.s['types'] if t['kind'] == 'INPUT'})}
    return {'op': 'client', 'id': x['name'], 'schema': W, 'root': x['root'],
            'doc': {'frags': [{'n': f['n'], 'on': f['on'], 'sel': f['sel']} for f in x['doc']['frags']], 'op': {'sel': x['doc']['ops'][0]['sel']}, 'vars': [one(n, t) for n, t in x['vars']]}}

def tla_uses(x, us, obs):
    raw = x['text'].encode()
    r = [tla_client(x)]
    for j, (u, o) in enumerate(zip(us, obs)):
        o = o or {}
        t = {'op': u['op'], 'id': f'{x["name"]}.{j}', 'r': 'failure', 'v': u.get('v', sc.NIL), 'wire': sc.NIL, 'back': {'ok': '0', 'v': sc.NIL}}
        if u['op'] == 'info':
            t.update(b=list(raw), s=raw.decode('latin-1'), tb=[], ts='', tree=[], validated='0', vars=[], fields=[])
            if 'text' in o:
                b = bytes.fromhex(o['text'])
                t.update(r='ok', tb=list(b), ts=b.decode('latin-1'), tree=o['tree'], validated=o['validated'], vars=o['vars'], fields=o['fields'])
        elif u['op'] == 'vars' and 'wire' in o: t.update(r='ok', wire=o['wire'])
        elif 'ok' in o: t.update(r='ok', back=o)
        r.append(t)
    return r

def shard(groups, n):
    sh = [[] for _ in range(n)]
    for g in sorted(groups, key=lambda g: -len(g)):
        s = min(sh, key=len)
        w = len(s) + 1
        s += [dict(l, w=w) for l in g]
    return [s for s in sh if s]

def run(seed, nschemas, nclients, nv, nr, workdir):
    root = f'{build.BUILD}/clients-{seed}'
    gen = build.clientgen()
    build.harness()
    xs, anonymous = [], set()
    for g in range(nschemas):
        rng = random.Random(f'C28/{seed}/{g}')
        S = sgen.schema(rng, pdesc=.1)
        sdl = sgen.Sdl(rng).document(S)
        S = Schema(dict(S.s, types=S.s['types'] + META))
        nointro = rng.random() < .2
        xs += [client_case(rng, len(xs) + j, root, S, sdl, anonymous, nointro) for j in range(nclients)]
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda x: generate(x, gen), xs))
    good = [x for x in xs if 'obj' in x]
    out = {'xs': xs, 'good': good, 'us': [], 'obs': [], 'tr': [], 'rej': [], 'states': (0, 0), 'bin': None}
    if good:
        h = f'{build.VERIF}/harness'
        mine = sorted(os.path.join(h, f) for f in os.listdir(h) if f.endswith('.cpp') and not f.startswith('x_'))
        out['bin'] = build.build(f'clients{seed}', build.LIB[:1] + mine + build.LIB[1:], extra=build.ASAN, objs=[x['obj'] for x in good])
        us = [uses(random.Random(f'C28u/{seed}/{x["name"]}'), x, nv, nr) for x in good]
        obs = tracer.harness_parallel(out['bin'], 'clients', us, workdir)
        tr = [tla_uses(x, u, o) for x, u, o in zip(good, us, obs)]
        rej, states = tracer.check_traces('ClientGenTrace', shard(tr, tracer.JOBS), workdir)
        out.update(us=us, obs=obs, tr=tr, rej=rej, states=states)
    shutil.rmtree(root, ignore_errors=True)
    return out

def forget(r):
    for f in [x['obj'] for x in r['good']] + [r['bin']]:
        if f and os.path.exists(f): os.remove(f)

def replay(x, **kw):
    return dict({'mode': 'clientgen', 'schema': x['sdl'], 'request': x['text'], 'operation': x['ask'], 'no-introspection': x['nointro'], 'namespace': x['ns']}, **kw)

def check(c):
    rnd = 0
    while True:
        r = run(f'{c.seed}-{c.tier}-{rnd}', 8, 9, 12, 16, c.dir('cgen'))
        n = 0
        for x in r['xs']:
            c.nontrivial(x['text'])
            if x['rc']: c.violation(f'clientgen refuses a valid request (status {x["rc"]}): {x["said"][:300]}\n{x["text"][:900]}', replay(x))
            elif 'broken' in x: c.violation(f'the generated client does not compile, or lacks a member: {x["broken"][-900:]}\n{x["text"][:900]}', replay(x))
        for x, u, o in zip(r['good'], r['us'], r['obs']):
            n += len(u)
            if n % 7 == 0: c.sample({'request': x['text'][:400], 'use': dumps(u[-1])[:300], 'answer': dumps(o[-1])[:300]})
        c.add(evaluations=n, traces_validated_against_impl=n, states=r['states'][0], transitions=r['states'][1], clients=len(r['xs']))
        for i, _, asp in r['rej']:
            name, j = i.split('.')
            g = next(k for k, x in enumerate(r['good']) if x['name'] == name)
            x, u, o = r['good'][g], r['us'][g][int(j)], r['obs'][g][int(j)]
            if 'model' in asp: raise tracer.ToolError(f'the model does not read {x["text"]!r}')
            if o is None or 'crash' in o:
                if not tracer.confirmed(c, r['bin'], 'clients', [u], o): continue
                asp = {'crash: ' + (o or {}).get('crash', '') + ' ' + (o or {}).get('err', '')[-300:]}
            c.violation(f'use {i} ({u["op"]}): {sorted(asp)}\n{x["text"][:900]}\n{dumps(u)[:300]} gave {dumps(o)[:500]}', replay(x, use=u, observed=o, trace=r['tr'][g][int(j) + 1]))
        if rnd: forget(r)
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 120: break
    c.rules.append('A case is one use of a client which clientgen made of a random valid request: its text, request object and types, the document of its variables, or the typed response it makes of an answer; distinct and non-trivial by request.')
    c.assume += ['g++ -O0 stands for any conforming compiler', 'names which are C++ keywords or differ only in underscores are not generated', 'what a typed response holds where the answer has no map, list or member is left open']
