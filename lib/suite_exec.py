"""C09-C16: executions of random valid documents, judged by ExecTrace."""
import copy, random, re
from gen import *
import tracer, build

def tla_world(S, objs, wid):
    types = {'_': {'kind': '', 'names': [], 'fields': {'_': {'n': '', 'w': [], 'args': [], 'stub': '0'}}}}
    for t in S.s['types']:
        n = t['name']
        names = [n] + list(t['ifaces']) + [u['name'] for u in S.s['types'] if n in u['members']]
        fs = {'_': {'n': '', 'w': [], 'args': [], 'stub': '0'}}
        for f in t['fields']:
            fs[f['name']] = {'n': f['type']['n'], 'w': f['type']['w'], 'stub': '0',
                             'args': [{'name': a['name'], 'base': a['type']['n'] if a['type']['n'] in LEAF else 'Scalar', 'w': a['type']['w']} for a in f['args']]}
        types[n] = {'kind': t['kind'], 'names': names, 'fields': fs}
    os = {'_': {'type': '', 'begin': [], 'end': [], 'fields': {'_': {'err': [], 'val': NULL}}}}
    for o in objs:
        os[o['id']] = {'type': o['type'], 'begin': o['begin'], 'end': o['end'],
                       'fields': dict({'_': {'err': [], 'val': NULL}}, **{k: {'err': b['err'], 'val': b['val']} for k, b in o['fields'].items()})}
    return {'k': 'world', 'id': wid, 'types': types, 'objs': os, 'intro': '0', 'gen': '0'}

class Profile:
    def __init__(self, **k):
        self.perr = self.phook = 0.0
        self.how = ('value',)
        self.launches = ('deferred',)
        self.gen = {}
        self.wrong = 0.0
        self.optypes = ('query', 'query', 'mutation')
        self.badname = 0.0
        self.invalid = 0.0
        self.nops = (1, 1, 2)
        self.same = 1            # executions of the same request
        self.unchecked = .1
        self.patient = 0        # how often nobody waits for the result before it is there
        self.__dict__.update(k)

PROFILES = {
    'C09': Profile(gen=dict(pskip=.05, pfrag=.25, pinline=.25, prepeat=.3, width=5), how=('value', 'value', 'deferred')),
    'C10': Profile(gen=dict(pskip=.6, pfrag=.25, pinline=.25, prepeat=.35, pdir=.05, width=5)),
    'C11': Profile(perr=.25, phook=.12, how=('value', 'value', 'deferred', 'async', 'gate', 'batch', 'broken'), launches=('deferred', 'async'), gen=dict(pskip=.05, pdir=.05), wrong=.1),
    'C12': Profile(gen=dict(pvar=.45, pskip=.03, pdir=.05, pfrag=.15), wrong=.25, nops=(1, 2, 3)),
    'C13': Profile(gen=dict(pdir=.7, pskip=.05, pfrag=.35, pinline=.3, pvar=.3), how=('value', 'deferred', 'async'), launches=('deferred', 'async')),
    'C14': Profile(perr=.05, how=('value', 'deferred', 'async', 'gate', 'batch'), launches=('default', 'deferred', 'async', 'any'), same=3, gen=dict(pskip=.05, pdir=.05)),
    'C15': Profile(perr=.05, how=('value', 'deferred', 'async', 'gate'), launches=('deferred', 'async', 'any'), optypes=('mutation',), gen=dict(pskip=.05, pdir=.1, pfrag=.25), same=2),
    'C29': Profile(perr=.1, phook=.15, how=('value', 'deferred', 'async', 'gate', 'batch'), launches=('deferred', 'async'), gen=dict(pskip=.1)),
    'C30': Profile(perr=.08, how=('value', 'deferred', 'async', 'gate', 'batch', 'batch', 'broken'), launches=('default', 'deferred', 'async', 'async', 'any'), gen=dict(pskip=.05, pdir=.05, pfrag=.2), patient=.6, unchecked=.25),
    'C16': Profile(optypes=('query', 'mutation', 'subscription'), nops=(1, 2, 3, 4), badname=.25, invalid=.2, launches=('deferred', 'async'), gen=dict(depth=2, width=2), same=3, unchecked=.2),
    'C31': Profile(perr=.05, how=('value', 'value', 'deferred', 'async'), launches=('default', 'async', 'any'), invalid=.35, nops=(1, 2), badname=.05, gen=dict(pskip=.05, pdir=.1, pfrag=.25, depth=3)),
}
ASPECTS = {
    'C09': {'data', 'calls', 'answer'},
    'C10': {'data', 'calls', 'answer'},
    'C11': {'errors', 'failed', 'loc', 'answer'},
    'C12': {'args', 'conv', 'answer'},
    'C13': {'dirs', 'answer'},
    'C14': {'data', 'calls', 'errors', 'failed', 'answer'},
    'C15': {'serial', 'calls', 'answer'},
    'C29': {'hooks', 'answer'},
    'C30': {'launch', 'thread', 'ready', 'answer', 'crash'},
    'C16': {'data', 'calls', 'ctx', 'answer'},
}

def gate_paths(objs, rng):
    return []

def make_group(rng, prof, gid, ndocs):
    """One world, several documents: (harness lines, trace lines without observations)."""
    S = exec_schema(rng)
    # some groups have long lists and many fields, some deep documents
    size = rng.choice(['big', 'deep'] + [''] * 10)
    objs = world_objs(rng, S, perr=prof.perr, how=prof.how, phook=prof.phook, lmax=rng.choice([12, 40]) if size == 'big' else 0)
    gen = dict(prof.gen, **{'big': dict(width=14, depth=2), 'deep': dict(width=2, depth=9), '': {}}[size])
    if size == 'big': ndocs = max(1, ndocs // 3)
    hl = [{'k': 'world', 'schema': S.s, 'objs': objs}]
    tl = [tla_world(S, objs, gid)]
    for n in range(ndocs):
        for attempt in range(20):
            g = DocGen(rng, S, **gen)
            names = [f'Op{i}' for i in range(rng.choice(prof.nops))]
            ops = []
            for nm in names:
                t = rng.choice(prof.optypes)
                if t == 'subscription':
                    ops.append(sub_operation(g, nm))
                else: ops.append(g.operation(t, nm))
            if len(ops) == 1 and rng.random() < .4: ops[0]['name'] = ''
            d = g.finish(ops)
            text = Printer(rng, .1).document(d)
            if len(text) < 6000: break
        else: continue
        valid = '1'
        if prof.invalid and rng.random() < prof.invalid:
            d2 = copy.deepcopy(d)
            break_doc(rng, d2)
            text = Printer(rng, .05).document(d2); d = d2
            valid = '0'
        steps, tsteps = [], []
        for r in range(rng.randint(1, 2)):
            o = rng.choice(d['ops'])
            opname = o['name']
            if rng.random() < .3: opname, o = '', d['ops'][0]
            if rng.random() < prof.badname: opname = rng.choice(['Nope', 'op0', 'Op', 'Op00'])
            vs = request_vars(rng, S, o, prof.wrong)
            for rep in range(prof.same):
                st = rng.choice(['', 'S1', 'S2'])
                hs = {'op': 'resolve', 'doc': text, 'opname': opname, 'vars': vs, 'launch': rng.choice(prof.launches), 'st': st, 'gates': shuffle_gates(rng, o)}
                if prof.patient and rng.random() < prof.patient: hs['patient'] = '1'
                if valid == '1' and rng.random() < prof.unchecked: hs['unchecked'] = '1'
                steps.append(hs)
                tsteps.append({'di': 1, 'opname': opname, 'vars': vs, 'st': st, 'launch': hs['launch']})
        cid = f'{gid}.{n}'
        hl.append({'k': 'case', 'roots': [{'op': t, 'o': f'{S.s[t]}#0'} for t in ('query', 'mutation', 'subscription')], 'steps': steps})
        tl.append({'k': 'case', 'id': cid, 'w': 0, 'docs': [{'ops': d['ops'], 'frags': d['frags'], 'valid': valid}],
                   'roots': {t: f'{S.s[t]}#0' for t in ('query', 'mutation')}, 'steps': tsteps})
    return hl, tl

def sub_operation(g, nm):
    """A subscription with a single root field."""
    S, rng = g.S, g.rng
    for _ in range(50):
        f = g.field(S.s['subscription'], 1, noskip=True)
        if f['n'] != '__typename': break
    return op('subscription', nm, [], g.dirs('SUBSCRIPTION'), [f])

def break_doc(rng, d):
    """Makes the document invalid whatever else it contains."""
    o = rng.choice(d['ops'])
    w = rng.randint(0, 3)
    if w == 0: o['sel'].append(fld('nosuchfield'))
    elif w == 1: o['sel'].append(spread('NoSuchFragment'))
    elif w == 2: o['dirs'] = o['dirs'] + [dirv('nosuchdirective')]
    else: o['vars'] = o['vars'] + [vardef('unused', typ('Int'))]
    o['short'] = '0'

def shuffle_gates(rng, o):
    rs = [s['a'] or s['n'] for s in o['sel'] if s['k'] == 'field']
    rng.shuffle(rs)
    return rs[:6]

def merge(tl, obs):
    """Trace lines with the observations of the library in their steps."""
    out = []
    for l, o in zip(tl, obs):
        l = dict(l)
        if l['k'] == 'case':
            steps = []
            for j, s in enumerate(l['steps']):
                s = dict(s)
                s = dict({'launch': 'free', 'ready': 'unknown', 'alone': NULL}, **s)
                if o is None or 'crash' in o: s.update(r='crash', doc=NULL, ev=[])
                else:
                    x = o['steps'][j]
                    s.update(r=x['r'], doc=x.get('doc', NULL), ev=x['ev'], ready=x.get('ready', 'unknown'))
                steps.append(s)
            l['steps'] = steps
        out.append(l)
    return out

def shard(groups, n):
    """Trace shards; cases refer to the index of their world line."""
    sh = [[] for _ in range(n)]
    order = sorted(range(len(groups)), key=lambda i: -len(groups[i]))
    for i in order:
        s = min(sh, key=len)
        w = 0
        for l in groups[i]:
            l = dict(l)
            if l['k'] == 'world': w = len(s) + 1
            else: l['w'] = w
            s.append(l)
    return sh

def run(pid, seed, groups, ndocs, workdir):
    prof = PROFILES[pid]
    gs = []
    for g in range(groups):
        rng = random.Random(f'{pid}/{seed}/{g}')
        gs.append(make_group(rng, prof, f'g{g}', ndocs))
    b = build.harness()
    obs = tracer.harness_parallel(b, 'exec', [h for h, _ in gs], workdir)
    tr = [merge(t, o) for (_, t), o in zip(gs, obs)]
    rej, states = tracer.check_traces('ExecTrace', shard(tr, tracer.JOBS), workdir)
    return gs, obs, tr, rej, states

def probe_merge(c):
    """Known finding: the sub-selections of a repeated field are not merged, only the first is executed."""
    S = {'types': [ty('OBJECT', 'Query', fields=[fielddef('o', typ('O'))]), ty('OBJECT', 'O', fields=[fielddef('x', typ('Int')), fielddef('y', typ('Int'))])], 'directives': BUILTIN_DIRS,
         'query': 'Query', 'mutation': '', 'subscription': ''}
    val = lambda v: {'how': 'value', 'err': [], 'val': v}
    objs = [{'id': 'Query#0', 'type': 'Query', 'begin': [], 'end': [], 'fields': {'o': val(V('Obj', 'O#0'))}}, {'id': 'O#0', 'type': 'O', 'begin': [], 'end': [], 'fields': {'x': val(vint(1)), 'y': val(vint(2))}}]
    lines = [{'k': 'world', 'schema': S, 'objs': objs}, {'k': 'case', 'roots': [{'op': 'query', 'o': 'Query#0'}],
             'steps': [{'op': 'resolve', 'doc': '{o{x}o{y}}', 'opname': '', 'vars': vmap([]), 'launch': 'deferred', 'st': '', 'gates': []}]}]
    o = tracer.harness_run(build.harness(), 'exec', lines, c.dir('probe'))[-1]
    c.add(evaluations=1)
    want = vmap([('data', vmap([('o', vmap([('x', vint(1)), ('y', vint(2))]))]))])
    if 'steps' not in o or dumps(o['steps'][0].get('doc')) != dumps(want):
        c.finding('merge', '{o{x}o{y}} does not answer with both sub-fields', {'mode': 'exec', 'lines': lines, 'observed': o})

def small_requests():
    """Requests for ExecMC: (operation, root selection, objects, the results which vary: path -> (object, field))."""
    F = lambda n, *t: fielddef(n, typ(*t))
    root = lambda n: ty('OBJECT', n, fields=[F('a', 'Int'), F('b', 'String', 'N'), F('o', 'O'), F('n', 'O', 'N'), F('l', 'O', 'N', 'L', 'N')])
    S = Schema({'types': [root('Query'), root('Mutation'), ty('OBJECT', 'O', fields=[F('x', 'Int'), F('y', 'O', 'N'), F('z', 'String', 'L')])], 'directives': copy.deepcopy(BUILTIN_DIRS),
                'query': 'Query', 'mutation': 'Mutation', 'subscription': ''})
    val = lambda v, e=(): {'how': 'value', 'err': list(e), 'val': v}
    boom = lambda n: [{'k': 'runtime', 'm': 'boom ' + n}]
    def objs(bad=()):
        r = [{'id': f'{t}#0', 'type': t, 'begin': [], 'end': [], 'fields': {'a': val(vint(1), boom('a') * ('a' in bad)), 'b': val(vstr('b')), 'o': val(V('Obj', 'O#0'), boom('o') * ('o' in bad)),
              'n': val(V('Obj', 'O#1')), 'l': val(vlist([V('Obj', 'O#2'), V('Obj', 'O#3')]))}} for t in ('Query', 'Mutation')]
        return r + [{'id': f'O#{i}', 'type': 'O', 'begin': [], 'end': [], 'fields': {'x': val(vint(i), boom('x') * ('x' in bad)), 'y': val(V('Obj', 'O#0')), 'z': val(vlist([vstr('z'), NULL]))}} for i in range(4)]
    x = lambda: [fld('x')]
    at = lambda o, f: (o, f)
    reqs = []
    for t, R in (('query', 'Query#0'), ('mutation', 'Mutation#0')):
        reqs += [(t, [fld('a'), fld('o', sel=x()), fld('b')], objs(), {'a': (R, 'a'), 'o': (R, 'o'), 'b': (R, 'b')}),
                 (t, [fld('n', sel=[fld('x'), fld('z')]), fld('a')], objs(), {'n': (R, 'n'), 'n.x': ('O#1', 'x'), 'n.z': ('O#1', 'z')}),
                 (t, [fld('n', sel=[fld('y', sel=x())]), fld('o', sel=x())], objs(), {'n': (R, 'n'), 'n.y': ('O#1', 'y'), 'o': (R, 'o')}),
                 (t, [fld('l', sel=x()), fld('b')], objs(), {'l': (R, 'l'), 'l.1.x': ('O#3', 'x'), 'b': (R, 'b')}),
                 (t, [fld('a'), fld('o', sel=x()), fld('n', sel=x())], objs('ax'), {'a': (R, 'a'), 'o': (R, 'o'), 'n': (R, 'n')})]
    return S, reqs

def exhaustive(c):
    """All schedules of some small requests, enumerated by TLC from ExecMC (which also checks the event machine), replayed and judged."""
    import json
    S, reqs = small_requests()
    kinds = ('mutation',) if c.pid == 'C15' and not c.thorough else ('query', 'mutation')
    reqs = [r for r in reqs if r[0] in kinds]
    items, texts, docs = [], [], []
    for t, sel, objs, gates in reqs:
        d = doc([op(t, '', [], [], sel)], [])
        texts.append(Printer().document(d))
        docs.append({'ops': d['ops'], 'frags': d['frags'], 'valid': '1'})
        items.append({'world': tla_world(S, objs, 'mc'), 'doc': docs[-1], 'root': 'Query#0' if t == 'query' else 'Mutation#0', 'gates': list(gates)})
    w = c.dir('mc')
    launches = ['deferred', 'async'] + (['default', 'any'] if c.thorough else [])
    hows = ['value', 'deferred', 'async', 'gate'] + (['batch'] if c.thorough else [])
    with open(f'{w}/menu.ndjson', 'w') as f: f.write(dumps({'items': items, 'hows': hows, 'launches': launches}) + '\n')
    rc, out = tracer.tlc('ExecMC.tla', 'ExecMC.cfg', env={'MENU': f'{w}/menu.ndjson'}, workers='4', heap='4g', workdir=w)
    if rc != 0: raise tracer.ToolError('ExecMC: ' + out[-2000:])
    st = re.findall(r'(\d+) states generated, (\d+) distinct', out)[-1]
    scheds = {}
    for x in re.findall(r'"SCHED(.*)"', out):
        x = json.loads(json.loads('"' + x + '"'))
        scheds.setdefault((x['m'] - 1, tuple(x['how'])), []).append((tuple(x['order']), x['launch']))
    groups = []
    for (m, how), runs in sorted(scheds.items()):
        t, sel, objs, gates = reqs[m]
        os = copy.deepcopy(objs)
        for (o, f), h in zip(gates.values(), how):
            next(b for b in os if b['id'] == o)['fields'][f]['how'] = h
        roots = {x: f'{S.s[x]}#0' for x in ('query', 'mutation')}
        hs = [{'op': 'resolve', 'doc': texts[m], 'opname': '', 'vars': vmap([]), 'launch': l, 'st': '', 'gates': list(o)} for o, l in sorted(runs)]
        ts = [{'di': 1, 'opname': '', 'vars': vmap([]), 'st': '', 'launch': l} for o, l in sorted(runs)]
        gid = f'mc{len(groups)}'
        groups.append(([{'k': 'world', 'schema': S.s, 'objs': os}, {'k': 'case', 'roots': [{'op': x, 'o': y} for x, y in roots.items()], 'steps': hs}],
                       [tla_world(S, os, gid), {'k': 'case', 'id': gid + '.0', 'w': 0, 'docs': [docs[m]], 'roots': roots, 'steps': ts}]))
    obs = tracer.harness_parallel(build.harness(), 'exec', [h for h, _ in groups], w)
    tr = [merge(t, o) for (_, t), o in zip(groups, obs)]
    rej, states = tracer.check_traces('ExecTrace', shard(tr, tracer.JOBS), w)
    c.cov.setdefault('exhaustive', []).append({'requests': len(reqs), 'schedules': sum(len(v) for v in scheds.values()), 'results': hows, 'launches': launches, 'complete': True})
    record(c, groups, obs, tr, rej, (states[0] + int(st[1]), states[1] + int(st[0]) - 1), ASPECTS[c.pid])

def check(c):
    """Random valid documents over random services: every recorded execution must be a behaviour of Exec."""
    if c.pid == 'C09': probe_merge(c)
    if c.pid in ('C14', 'C15', 'C29', 'C30'): exhaustive(c)
    size = int({'C14': 72, 'C15': 80}.get(c.pid, 192))
    rnd = 0
    while True:
        gs, obs, tr, rej, states = run(c.pid, f'{c.seed}.{rnd}' if rnd else c.seed, size, 6, c.dir('exec'))
        record(c, gs, obs, tr, rej, states, ASPECTS[c.pid])
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is one request (a random valid document, operation, variables, launch policy and gate order) against a random schema and object graph; '
                   'non-trivial: at least three resolver calls, distinct by document, operation and variables.')
    c.assume += ['the harness reports resolver calls, hooks and responses truthfully', 'requests are made from one thread at a time',
                 'fields repeated with the same response name select the same sub-fields (see known-findings.txt)']

def record(c, gs, obs, tr, rej, states, aspects):
    n = 0
    for (hl, _), tl in zip(gs, tr):
        for h, t in zip(hl, tl):
            for hs, ts in zip(h.get('steps', []), t.get('steps', [])):
                n += 1
                calls = sum(e['e'] == 'call' for e in ts['ev'])
                if calls >= 3: c.nontrivial(hash((hs.get('doc'), hs.get('opname'), dumps(hs.get('vars', '')))))
                if calls >= 3: c.sample({'document': hs.get('doc', '')[:600], 'operation': hs.get('opname', ''), 'resolver_calls': calls, 'result': ts['r']})
    c.add(evaluations=n, traces_validated_against_impl=n, states=states[0], transitions=states[1])
    for cid, step, asp in rej:
        bad = asp & aspects
        g, k = locate(tr, cid)
        o = obs[g][k]
        if o is None or 'crash' in o:
            if not tracer.confirmed(c, build.harness(), 'exec', [gs[g][0][0], gs[g][0][k]], o): continue
            bad = {'crash: ' + (o or {}).get('crash', '') + ' ' + (o or {}).get('err', '')[-300:]}
        if not bad: continue
        hs = gs[g][0][k]['steps'][step - 1]
        c.violation(f'case {cid} step {step}: {sorted(bad)} are not what the specification allows\n{hs.get("doc", "")[:700]}',
                    {'mode': 'exec', 'lines': [gs[g][0][0], gs[g][0][k]], 'step': step, 'aspects': sorted(asp), 'observed': o, 'trace': tr[g][k]})

def locate(tr, cid):
    for g, ls in enumerate(tr):
        for k, l in enumerate(ls):
            if l['id'] == cid: return g, k
    raise KeyError(cid)

# ------------------------------------------------------------------ several requests at the same time
def make_parallel(rng, gid, ncases):
    """Harness lines with parallel steps, trace lines with one step per request; where: the request behind each trace step."""
    prof = PROFILES['C31']
    hl, tl = make_group(rng, prof, gid, 6)
    pool = [(h['steps'], t) for h, t in zip(hl[1:], tl[1:])]
    nh, nt = hl[:1], tl[:1]
    for n in range(ncases):
        pick = rng.sample(pool, rng.randint(min(2, len(pool)), min(4, len(pool))))
        docs = [t['docs'][0] for _, t in pick]
        threads, tsteps, alone = [], [], []
        for i in range(rng.choice([2, 4, 4, 8])):
            th = []
            for j in range(rng.randint(2, 5)):
                di = rng.randrange(len(pick))
                k = rng.randrange(len(pick[di][0]))
                h = dict(pick[di][0][k], st=f'T{i}.{j}', launch=rng.choice(prof.launches), gates=[])
                h.pop('unchecked', None)
                if docs[di]['valid'] == '1' and rng.random() < .1: h['unchecked'] = '1'
                th.append(h)
                tsteps.append(dict(pick[di][1]['steps'][k], di=di + 1, st=h['st'], launch=h['launch']))
                alone.append(dict(h, st='', launch='deferred'))
            threads.append(th)
        nh.append(dict({'k': 'case', 'roots': hl[1]['roots'], 'steps': [{'op': 'parallel', 'threads': threads}] + alone}, **({'twice': '1'} if rng.random() < .5 else {})))
        nt.append({'k': 'case', 'id': f'{gid}.{n}', 'w': 0, 'docs': docs, 'roots': tl[1]['roots'], 'steps': tsteps})
    return nh, nt

def make_wraps(rng, gid):
    """Services of several threads on one new schema, with requests which need many types it has not been asked for yet."""
    S = exec_schema(rng)
    objs = world_objs(rng, S, perr=0, how=('value',), phook=0)
    names = LEAF + [t['name'] for t in S.s['types'] if t['kind'] in ('ENUM', 'INPUT', 'SCALAR')]
    docs, texts = [], []
    for n in range(4):
        vs = [vardef(f'v{k}', typ(rng.choice(names), *rng.choice([w + u for w in ([], ['L'], ['N', 'L'], ['L', 'N', 'L'], ['L', 'L'], ['N', 'L', 'N', 'L'], ['L', 'L', 'N', 'L']) for u in ([], ['N'])]))) for k in range(40)]
        d = doc([op('query', '', vs, [], [fld('__typename')])], [])
        docs.append({'ops': d['ops'], 'frags': d['frags'], 'valid': '0'})     # the variables are not used
        texts.append(Printer().document(d))
    threads, tsteps, alone = [], [], []
    for i in range(8):
        th = []
        for j in range(4):
            di = rng.randrange(4)
            h = {'op': 'resolve', 'doc': texts[di], 'opname': '', 'vars': vmap([]), 'launch': 'default', 'st': f'T{i}.{j}', 'gates': []}
            th.append(h); alone.append(dict(h, st=''))
            tsteps.append({'di': di + 1, 'opname': '', 'vars': vmap([]), 'st': h['st'], 'launch': 'default'})
        threads.append(th)
    roots = [{'op': t, 'o': f'{S.s[t]}#0'} for t in ('query', 'mutation', 'subscription')]
    return ([{'k': 'world', 'schema': S.s, 'objs': objs}, {'k': 'case', 'own': '1', 'roots': roots, 'steps': [{'op': 'parallel', 'threads': threads}] + alone}],
            [tla_world(S, objs, gid), {'k': 'case', 'id': f'{gid}.0', 'w': 0, 'docs': docs, 'roots': {t: f'{S.s[t]}#0' for t in ('query', 'mutation')}, 'steps': tsteps}])

def make_asts(rng, gid):
    """One parsed document, marked as valid like those of generated clients, resolved by several threads."""
    F = lambda n, t, args=(): fielddef(n, t, [argdef(*x) for x in args])
    A = [('s', typ('String')), ('l', typ('String', 'L')), ('i', typ('In'))]
    S = Schema({'types': [ty('INPUT', 'In', inputs=[argdef('a', typ('String')), argdef('b', typ('String', 'L'))]), ty('OBJECT', 'Query', fields=[F('l', typ('O', 'N', 'L', 'N')), F('f', typ('String'), A)]),
                          ty('OBJECT', 'O', fields=[F('f', typ('String'), A)])], 'directives': BUILTIN_DIRS, 'query': 'Query', 'mutation': '', 'subscription': ''})
    val = lambda v: {'how': 'value', 'err': [], 'val': v}
    many = rng.randint(2, 6)
    objs = [{'id': 'Query#0', 'type': 'Query', 'begin': [], 'end': [], 'fields': {'l': val(vlist([{'t': 'Obj', 'v': f'O#{i}', 'l': [], 'k': []} for i in range(many)])), 'f': val(vstr('q'))}}]
    objs += [{'id': f'O#{i}', 'type': 'O', 'begin': [], 'end': [], 'fields': {'f': val(vstr(f'x{i}'))}} for i in range(many)]
    text = lambda: vstr(''.join(rng.choice('abcdefgh"\\\n\té') for _ in range(rng.randint(1, 60))))
    docs, texts = [], []
    for n in range(3):
        fs = [fld('f', f'a{k}', [rng.choice([arg('s', text()), arg('l', vlist([text() for _ in range(rng.randint(1, 4))])), arg('i', vmap([('a', text()), ('b', vlist([text(), text()]))]))])]) for k in range(rng.randint(10, 40))]
        d = doc([op('query', '', [], [], rng.choice([fs, [fld('l', sel=fs)], fs[:5] + [fld('l', sel=fs[5:])]]))], [])
        docs.append({'ops': d['ops'], 'frags': d['frags'], 'valid': '1'})
        texts.append(Printer().document(d))
    threads, tsteps, alone = [], [], []
    for i in range(8):
        th = []
        for j in range(3):
            h = {'op': 'resolve', 'doc': texts[j], 'opname': '', 'vars': vmap([]), 'launch': rng.choice(['async', 'deferred', 'default']), 'st': f'T{i}.{j}', 'gates': []}
            th.append(h); alone.append(dict(h, st='', launch='deferred'))
            tsteps.append({'di': j + 1, 'opname': '', 'vars': vmap([]), 'st': h['st'], 'launch': h['launch']})
        threads.append(th)
    return ([{'k': 'world', 'schema': S.s, 'objs': objs}, {'k': 'case', 'roots': [{'op': 'query', 'o': 'Query#0'}], 'steps': [{'op': 'parallel', 'share': '1', 'threads': threads}] + alone}],
            [tla_world(S, objs, gid), {'k': 'case', 'id': f'{gid}.0', 'w': 0, 'docs': docs, 'roots': {'query': 'Query#0', 'mutation': ''}, 'steps': tsteps}])

def merge_parallel(tl, obs):
    """The log of each request alone: the events of its own state object."""
    r = []
    for l, o in zip(tl, obs):
        if l['k'] == 'case' and o is not None and 'crash' not in o:
            res = [x for th in o['steps'][0]['threads'] for x in th]
            o = {'steps': [dict(x, ev=[e for e in o['steps'][0]['ev'] if e['st'] == s['st']]) for x, s in zip(res, l['steps'])], 'alone': o['steps'][1:]}
        m = merge([l], [o])[0]
        if o is not None and 'alone' in o:
            m['steps'] = [dict(s, alone=a.get('doc', NULL)) for s, a in zip(m['steps'], o['alone'])]
        r.append(m)
    return r

def check_parallel(c):
    """Requests made by several threads at the same time: each is answered as Exec says, as if it were alone."""
    rnd = 0
    while True:
        seed = f'{c.seed}.{rnd}' if rnd else c.seed
        gs = [make_parallel(random.Random(f'C31/{seed}/{g}'), f'g{g}', 10) for g in range(30)] + [make_wraps(random.Random(f'C31w/{seed}/{g}'), f'w{g}') for g in range(60)]
        gs += [make_asts(random.Random(f'C31a/{seed}/{g}'), f'a{g}') for g in range(16)]
        obs = tracer.harness_parallel(build.harness(), 'exec', [h for h, _ in gs], c.dir('par'))
        tr = [merge_parallel(t, o) for (_, t), o in zip(gs, obs)]
        rej, states = tracer.check_traces('ExecTrace', shard([[t[0]] + t[i:i + 3] for t in tr for i in range(1, len(t), 3)], tracer.JOBS), c.dir('par'))
        n = 0
        for t in tr:
            for l in t[1:]:
                n += len(l['steps'])
                if sum(len(s['ev']) > 3 for s in l['steps']) >= 2:
                    c.nontrivial(hash(dumps(l['docs']) + dumps([s['vars'] for s in l['steps']])))
                    c.sample({'requests': len(l['steps']), 'threads': len({s['st'].split('.')[0] for s in l['steps']}), 'events': [len(s['ev']) for s in l['steps']][:8]})
        c.add(evaluations=n, traces_validated_against_impl=n, states=states[0], transitions=states[1])
        for cid, step, asp in rej:
            g, k = locate(tr, cid)
            o = obs[g][k]
            if o is None or 'crash' in o:
                if len(c.violations) >= 3 or (o or {}).get('crash') in ('skipped', None): continue
                if o.get('crash') == 'hang':
                    again = tracer.harness_run(build.harness(), 'exec', [gs[g][0][0], gs[g][0][k]], c.dir('again'))[-1]
                    if 'crash' not in again: continue
                asp = {'crash: ' + o['crash'] + ' ' + o.get('err', '')[-300:]}
            s = tr[g][k]['steps'][step - 1]
            c.violation(f'case {cid} request {s["st"]}: {sorted(asp)} are not what the specification allows for this request alone',
                        {'mode': 'exec', 'lines': [gs[g][0][0], gs[g][0][k]], 'step': step, 'aspects': sorted(asp), 'trace': tr[g][k]})
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is up to 40 requests (valid and invalid documents) made by 2 to 8 threads at the same time on one service; '
                   'non-trivial: at least two of them call resolvers, distinct by documents and variables.')
    c.assume += ['the harness reports resolver calls, hooks and responses truthfully', 'threads share a parsed document only when it is marked as valid (as generated clients do), the object graph is not changed',
                 'thread schedules are those of the operating system (not enumerated)']

def check_policy(c):
    check(c)
    import suite_subs
    suite_subs.one(c, f'policy{c.seed}', groups=24)

def check_scopes(c):
    check(c)
    import suite_subs
    suite_subs.one(c, f'scopes{c.seed}', groups=24)
