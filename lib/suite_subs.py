"""C17-C19: histories of subscribe, unsubscribe and deliver on one service, judged by SubsTrace; small histories are enumerated by TLC from SubsMC."""
import copy, random, re
from gen import *
import tracer, build
from suite_exec import tla_world, shard, locate, break_doc

class SubGen(DocGen):
    def root(self, small):
        """The root selection of a subscription: one field, directly or inside fragments."""
        rng, S, P = self.rng, self.S, self.S.s['subscription']
        for _ in range(50):
            f = self.field(P, 1, noskip=rng.random() < .8)
            if f['n'] != '__typename' or rng.random() < .05: break
        x = rng.random()
        Ps = [P, P] + [t for t in ('Watch',) if t in S.types]
        if x < .55: return [f]
        if x < .6 and 'Feeds' in S.types: return [inline('Feeds', [inline(P, [f], self.dirs('INLINE_FRAGMENT', True))], [])]
        if x < .8: return [inline(rng.choice([''] + Ps), [f], self.dirs('INLINE_FRAGMENT', True))]
        name = f'R{len(self.frags)}'
        g = frag(name, rng.choice(Ps), [f], self.dirs('FRAGMENT_DEFINITION')); g['d'] = 0
        self.busy.append(name); self.frags.append(g)
        s = spread(name, self.dirs('FRAGMENT_SPREAD', True))
        if x > .95 and rng.random() < .5: return [s, f]
        return [s]

def small_args(rng, S, f):
    """Arguments from few values, so that events match."""
    r = []
    for a in f['args']:
        req = a['type']['w'][:1] == ['N'] and not a['def']
        if req or rng.random() < .6:
            r.append(arg(a['name'], valid_value(random.Random(f'{dumps(a["type"])}{rng.randint(0, 1)}'), S, a['type'], novar=True)))
    return r

def evalv(v, vs):
    if v['t'] == 'Var': return vs.get(v['v'], NULL)
    return dict(v, l=[evalv(x, vs) for x in v['l']])
def envof(o, supplied):
    sup = dict(zip(supplied['k'], supplied['l']))
    return {v['n']: sup.get(v['n'], v['def'] if v['has'] == '1' else NULL) for v in o['vars']}
def rootfield(sel, frags):
    for s in sel:
        if s['k'] == 'field': return s
        r = rootfield(s['sel'] if s['k'] == 'inline' else [f for f in frags if f['n'] == s['n']][0]['sel'], frags)
        if r: return r

def sub_schema(rng):
    S = exec_schema(rng)
    root = S.types['Subscription']
    for f in root['fields']:
        f['args'] = []
        for n in 'ab'[:rng.choice([0, 1, 1, 2])]:
            f['args'].append(argdef(n, typ(rng.choice(['Int', 'String', 'Boolean', 'Color', 'ID', 'In0']), *rng.choice([[], [], ['L'], ['N']]))))
    if rng.random() < .5: root['ifaces'].append('Watch'); S.s['types'].append(ty('INTERFACE', 'Watch', fields=copy.deepcopy(root['fields'])))
    if rng.random() < .3: S.s['types'].append(ty('UNION', 'Feeds', members=['Subscription']))
    return Schema(S.s)

def make_group(rng, pid, gid, ncases):
    S = sub_schema(rng)
    objs = world_objs(rng, S, perr=.08 if pid == 'C17' else .03, how=('value', 'value', 'deferred', 'async'), phook=0)
    root = [o for o in objs if o['type'] == 'Subscription'][0]
    for i in (1, 2):
        o = copy.deepcopy(root); o['id'] = f'Subscription#{i}'
        ids = {x['id']: x['type'] for x in objs}
        for f in S.types['Subscription']['fields']: o['fields'][f['name']]['val'] = result(rng, S, f['type'], ids, lmax=2)
        objs.append(o)
    hooked = copy.deepcopy(root); hooked['id'] = 'Subscription#9'
    hooked['begin'] = [{'k': rng.choice(['runtime', 'schema', 'located']), 'm': 'refused'}]
    objs.append(hooked)
    hl = [{'k': 'world', 'schema': S.s, 'objs': objs}]
    tl = [tla_world(S, objs, gid)]
    for n in range(ncases):
        h, t = make_case(rng, S, pid)
        t['id'] = f'{gid}.{n}'
        hl.append(h); tl.append(t)
    return hl, tl

def make_case(rng, S, pid):
    docs, texts = [], []
    for _ in range(rng.randint(1, 3)):
        for attempt in range(20):
            g = SubGen(rng, S, depth=1, width=3, pvar=.3 if pid == 'C17' else .15, pdir=.25, pskip=.1, pfrag=.2)
            ops = []
            for i in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < .12: ops.append(g.operation('query', f'Op{i}', 1, 1))
                else:
                    o = op('subscription', f'Op{i}', [], g.dirs('SUBSCRIPTION'), g.root(pid))
                    f = rootfield(o['sel'], g.frags)
                    if rng.random() < .75 and f['n'] != '__typename':
                        f['args'] = small_args(rng, S, S.fields('Subscription')[f['n']])
                    if rng.random() < .6: f['dirs'] = []
                    ops.append(o)
            if len(ops) == 1 and rng.random() < .4: ops[0]['name'] = ''
            d = g.finish(ops)
            if len(dumps(d)) < 8000: break
        # the arguments of shared response names were changed above: only the root fields, which stand alone in their operation
        valid = '1'
        if rng.random() < .08: break_doc(rng, d); valid = '0'
        docs.append({'ops': d['ops'], 'frags': d['frags'], 'valid': valid})
        texts.append(Printer(rng, .05).document(d))
    rootid = rng.choice(['Subscription#0', 'Subscription#0', 'Subscription#0', '', 'Subscription#9'] + ['Subscription#9'] * (pid == 'C19'))
    hs, ts = [], []
    live, fields = [], [f['name'] for f in S.types['Subscription']['fields']]
    base = {'di': 1, 'opname': '', 'vars': vmap([]), 'st': '', 'sid': '', 'launch': 'sync', 'form': '', 'field': '', 'args': vmap([]), 'dirs': vmap([]),
            'obj': '', 'nested': '', 'nobj': 'Subscription#1', 'key': 0}
    kept = set()
    launches = {'C17': ['sync', 'sync', 'deferred'], 'C18': ['sync', 'deferred'], 'C19': ['sync', 'deferred', 'async', 'async', 'deferred'], 'C30': ['deferred', 'async'], 'C13': ['sync', 'deferred', 'async']}[pid]
    lim, plen = (24, rng.randint(30, 45)) if rng.random() < .06 else (5, rng.randint(8, 16))
    for n in range(plen):
        x = rng.random()
        t = dict(base)
        if x < ((.45 if lim == 5 else .7) if len(live) < lim else .2):
            di = rng.randrange(len(docs))
            d = docs[di]
            o = rng.choice(d['ops'])
            subs = [q for q in d['ops'] if q['type'] == 'subscription']
            if subs and rng.random() < .9: o = rng.choice(subs)
            opname = o['name']
            if rng.random() < .2: opname, o = '', d['ops'][0]
            if rng.random() < .05: opname = 'Nope'
            vs = request_vars(rng, S, o, .05)
            t.update(op='subscribe', di=di + 1, opname=opname, vars=vs, st=rng.choice(['', 'S1', 'S2']), sid=f'k{n}', launch=rng.choice(launches))
            h = {'op': 'subscribe', 'opname': opname, 'vars': vs, 'st': t['st'], 'sid': t['sid'], 'launch': t['launch']}
            if di in kept and rng.random() < .5: h['use'] = str(di)
            else:
                h['doc'] = texts[di]
                if rng.random() < .3: h['keep'] = str(di); kept.add(di)
            if rng.random() < .3 and t['launch'] != 'async': t['nested'] = h['nested'] = rng.choice(fields); h['nobj'] = t['nobj']
            f = rootfield(o['sel'], d['frags'])
            live.append((t['sid'], f['n'], f, envof(o, vs)))
        elif x < ((.65 if lim == 5 else .8) if len(live) > 1 else .5):
            sid = rng.choice(live)[0] if live and rng.random() < .8 else rng.choice(live)[0] if live and rng.random() < .5 else ''
            t.update(op='unsubscribe', sid=sid, launch=rng.choice(launches) if rootid != 'Subscription#9' else 'sync')
            h = {'op': 'unsubscribe', 'sid': sid, 'launch': t['launch'], 'key': str(rng.randint(0, 6)) if rng.random() < .3 else '4000000'}
            if rng.random() < .3 and t['launch'] != 'async': t['nested'] = h['nested'] = rng.choice(fields); h['nobj'] = t['nobj']
            if rng.random() < .9: live = [q for q in live if q[0] != sid]
        else:
            field, args, dirs = rng.choice(fields), [], []
            if live and rng.random() < .85:
                _, field, f, env = rng.choice(live)
                args = [(a['n'], evalv(a['v'], env)) for a in f['args']]
                dirs = [(q['n'], vmap([(a['n'], evalv(a['v'], env)) for a in q['args']])) for q in f['dirs']]
                if args and rng.random() < .25: args.pop(rng.randrange(len(args)))
                if args and rng.random() < .25:
                    i = rng.randrange(len(args)); args[i] = (args[i][0], rng.choice([NULL, vint(1), vstr('x'), vlist([]), vint(7), vlist([NULL]), vbool(True), venum('RED')]))
                if dirs and rng.random() < .2: dirs.pop(rng.randrange(len(dirs)))
                if dirs and rng.random() < .15: dirs[0] = (dirs[0][0], vmap([('i', vint(5))]))
            have = {k for k, _ in args}
            for extra in ('a', 'b', 'zz'):
                if extra not in have and rng.random() < .25: args.append((extra, rng.choice([vint(1), vstr('x'), NULL])))
            if rng.random() < .3: dirs = [q for q in dirs if q[0] != 'd2'] + [('d2', vmap([]))]
            rng.shuffle(args)
            form = rng.choice(['plain', 'args', 'args', 'argsdirs', 'argsdirs', 'filter', 'filter', 'filter2'])
            t.update(op='deliver', field=field, form=form, args=vmap(args), dirs=vmap(dirs), launch=rng.choice(['sync', 'deferred', 'sync', 'async']),
                     obj=rng.choice(['Subscription#1', 'Subscription#2', 'Subscription#1', 'Subscription#0', ''] if rootid != 'Subscription#9' else ['Subscription#1', 'Subscription#2']))
            h = {'op': 'deliver', **{k: t[k] for k in ('field', 'form', 'args', 'dirs', 'launch', 'obj')}}
        hs.append(h); ts.append(t)
    roots = [{'op': 'query', 'o': 'Query#0'}, {'op': 'subscription', 'o': rootid}]
    return {'k': 'case', 'roots': roots, 'steps': hs}, {'k': 'case', 'id': '', 'w': 0, 'docs': docs, 'root': rootid, 'rootType': 'Subscription', 'steps': ts}

def merge(tl, obs):
    out = []
    for l, o in zip(tl, obs):
        l = dict(l)
        if l['k'] == 'case':
            st = []
            for j, s in enumerate(l['steps']):
                s = dict(s)
                if o is None or 'steps' not in o: s.update(r='crash', what='', ev=[], op='crash')
                else:
                    x = o['steps'][j]
                    s.update(r=x['r'], what=x.get('what', ''), key=int(x.get('key', '-1')), ev=[e for e in x['ev'] if e['e'] in ('call', 'begin', 'end', 'cb')])
                    for e in s['ev']:
                        if e['e'] == 'cb': e.setdefault('doc', NULL)
                st.append(s)
            l['steps'] = st
        out.append(l)
    return out

ASPECTS = {'C17': {'callbacks', 'document', 'executed', 'answer', 'crash'},
           'C18': {'key', 'registered', 'refused', 'leftover', 'unsub', 'callbacks', 'document', 'crash'},
           'C30': {'launch', 'thread', 'crash'}, 'C13': {'directives', 'crash'},
           'C19': {'notify', 'notifyerr', 'registered', 'leftover', 'refused', 'unsub', 'crash'}}

def run(pid, seed, groups, ncases, workdir):
    gs = [make_group(random.Random(f'{pid}/{seed}/{g}'), pid, f'g{g}', ncases) for g in range(groups)]
    obs = tracer.harness_parallel(build.harness(), 'exec', [h for h, _ in gs], workdir)
    tr = [merge(t, o) for (_, t), o in zip(gs, obs)]
    rej, states = tracer.check_traces('SubsTrace', shard(tr, tracer.JOBS), workdir)
    return gs, obs, tr, rej, states

def small_world():
    F = lambda n, t, args=(): fielddef(n, typ(t), [argdef(a, typ(x)) for a, x in args])
    T = [ty('OBJECT', 'Query', fields=[F('q', 'Int')]), ty('OBJECT', 'Subscription', fields=[F('s0', 'Int', [('a', 'Int'), ('b', 'String')]), F('s1', 'String')])]
    D = copy.deepcopy(BUILTIN_DIRS) + [{'name': 'd1', 'locs': list(EXEC_LOCS), 'args': [argdef('i', typ('Int'))]}]
    S = Schema({'types': T, 'directives': D, 'query': 'Query', 'mutation': '', 'subscription': 'Subscription'})
    leaf = lambda v: {'how': 'value', 'err': [], 'val': v}
    objs = [{'id': 'Query#0', 'type': 'Query', 'begin': [], 'end': [], 'fields': {'q': leaf(vint(1))}}]
    for i in range(3):
        objs.append({'id': f'Subscription#{i}', 'type': 'Subscription', 'begin': [], 'end': [], 'fields': {'s0': leaf(vint(10 + i)), 's1': leaf(vstr(f'e{i}'))}})
    d1 = lambda: [dirv('d1', [arg('i', vint(3))])]
    docs = [doc([op('subscription', '', [], [], [fld('s0', args=[arg('a', vint(1))])])], []),
            doc([op('subscription', '', [vardef('x', typ('Int'))], [], [fld('s0', 'r', args=[arg('a', vvar('x'))])])], []),
            doc([op('subscription', '', [], [], [inline('', [fld('s1', dirs=d1())])])], []),
            doc([op('subscription', '', [], d1(), [fld('s0')])], [])]
    m = vmap
    subs = [(1, m([])), (2, m([('x', vint(2))])), (3, m([])), (2, m([('x', vint(1))])), (4, m([]))]
    events = [('s0', 'args', m([('a', vint(1))]), m([])), ('s0', 'filter', m([('a', vint(2)), ('b', vstr('z'))]), m([])),
              ('s1', 'argsdirs', m([]), m([('d1', m([('i', vint(3))]))])), ('s1', 'plain', m([]), m([])), ('s0', 'plain', m([('a', vint(1))]), m([]))]
    return S, objs, docs, subs, events

def exhaustive(c):
    """Every history of a few steps over a small menu, enumerated by TLC from SubsMC."""
    import json, os
    S, objs, docs, subs, events = small_world()
    rng = random.Random(f'{c.pid}/{c.seed}/mc')
    texts = [Printer().document(d) for d in docs]
    ns, ne, depth = (3, 3, 4) if not c.thorough else (5, 5, 4)
    todo = [(ns, ne, depth)] + ([(3, 3, 5)] if c.thorough else [])
    world = tla_world(S, objs, 'mc')
    tdocs = [{'ops': d['ops'], 'frags': d['frags'], 'valid': '1'} for d in docs]
    for ns, ne, depth in todo:
        menu = {'world': world, 'docs': tdocs, 'depth': depth, 'subs': [{'di': a, 'vars': b} for a, b in subs[:ns]],
                'events': [{'field': f, 'form': o, 'args': a, 'dirs': d} for f, o, a, d in events[:ne]]}
        w = c.dir('mc')
        with open(f'{w}/menu.ndjson', 'w') as f: f.write(dumps(menu) + '\n')
        rc, out = tracer.tlc('SubsMC.tla', 'SubsMC.cfg', env={'MENU': f'{w}/menu.ndjson'}, workers='4', heap='4g', workdir=w)
        if rc != 0: raise tracer.ToolError('SubsMC: ' + out[-2000:])
        st = re.findall(r'(\d+) states generated, (\d+) distinct', out)[-1]
        hists = [json.loads(json.loads('"' + x + '"'))['h'] for x in re.findall(r'"HIST(.*)"', out)]
        rng.shuffle(hists)
        groups = []
        for g in range(0, len(hists), 200):
            hl, tl = [{'k': 'world', 'schema': S.s, 'objs': objs}], [tla_world(S, objs, f'm{g}')]
            for n, h in enumerate(hists[g:g + 200]):
                hs, ts = [], []
                for k, (o, num, sid) in enumerate(h):
                    t = {'di': 1, 'opname': '', 'vars': vmap([]), 'st': '', 'sid': sid, 'launch': rng.choice(['sync', 'deferred']), 'form': '', 'field': '', 'args': vmap([]),
                         'dirs': vmap([]), 'obj': '', 'nested': '', 'nobj': 'Subscription#1', 'key': 0, 'op': o}
                    if o == 'subscribe':
                        di, vs = subs[int(num) - 1]
                        t.update(di=di, vars=vs)
                        x = {'op': o, 'doc': texts[di - 1], 'opname': '', 'vars': vs, 'st': '', 'sid': sid, 'launch': t['launch']}
                    elif o == 'unsubscribe': x = {'op': o, 'sid': sid, 'launch': t['launch'], 'key': '4000000'}
                    else:
                        f, form, a, d = events[int(num) - 1]
                        t.update(field=f, form=form, args=a, dirs=d, obj='Subscription#2')
                        x = {'op': o, **{y: t[y] for y in ('field', 'form', 'args', 'dirs', 'launch', 'obj')}}
                    hs.append(x); ts.append(t)
                hl.append({'k': 'case', 'roots': [{'op': 'query', 'o': 'Query#0'}, {'op': 'subscription', 'o': 'Subscription#0'}], 'steps': hs})
                tl.append({'k': 'case', 'id': f'm{g}.{n}', 'w': 0, 'docs': tdocs, 'root': 'Subscription#0', 'rootType': 'Subscription', 'steps': ts})
            groups.append((hl, tl))
        obs = tracer.harness_parallel(build.harness(), 'exec', [h for h, _ in groups], w)
        tr = [merge(t, o) for (_, t), o in zip(groups, obs)]
        rej, states = tracer.check_traces('SubsTrace', shard(tr, tracer.JOBS), w)
        c.add(evaluations=len(hists) * depth, traces_validated_against_impl=len(hists), states=int(st[1]) + states[0], transitions=int(st[0]) - 1 + states[1])
        c.cov.setdefault('exhaustive', []).append({'histories': len(hists), 'length': depth, 'subscriptions': ns, 'events': ne, 'complete': True})
        report(c, groups, obs, tr, rej)

def check(c):
    exhaustive(c)
    rnd = 0
    while True:
        one(c, f'{c.seed}.{rnd}' if rnd else str(c.seed))
        rnd += 1
        if not c.thorough or c.violations or c.left(500) < 60: break
    c.rules.append('A case is a history of 8 to 16 subscribe, unsubscribe and deliver calls with random documents, arguments, directives and launch policies; '
                   'non-trivial: at least one event reaches a subscription while another registration exists.')
    c.assume += ['calls are made from one thread at a time', 'callbacks do not throw', 'event objects have no throwing hooks']

def one(c, seed, groups=96):
    gs, obs, tr, rej, states = run(c.pid, seed, groups, 12, c.dir('subs'))
    n = 0
    for (hl, _), tl in zip(gs, tr):
        for h, t in zip(hl, tl):
            if t['k'] != 'case': continue
            steps = t['steps']
            n += len(steps)
            cbs = sum(1 for s in steps for e in s['ev'] if e['e'] == 'cb')
            if cbs and sum(s.get('r') == 'key' for s in steps) > 1:
                c.nontrivial(hash(dumps(h)))
                c.sample({'steps': [{k: s.get(k) for k in ('op', 'sid', 'field', 'form', 'launch', 'r', 'key')} for s in steps][:8], 'callbacks': cbs})
    c.add(evaluations=n, traces_validated_against_impl=sum(len(t) - 1 for t in tr), states=states[0], transitions=states[1])
    report(c, gs, obs, tr, rej)

def report(c, gs, obs, tr, rej):
    for g, os in enumerate(obs):
        for k, o in enumerate(os):
            if tr[g][k]['k'] == 'case' and (o is None or 'steps' not in o):
                if not tracer.confirmed(c, build.harness(), 'exec', [gs[g][0][0], gs[g][0][k]], o): continue
                c.violation(f'case {tr[g][k]["id"]}: the library crashed: {dumps(o)[-600:]}', {'mode': 'exec', 'lines': [gs[g][0][0], gs[g][0][k]], 'observed': o})
    for cid, step, asp in rej:
        bad = asp & ASPECTS[c.pid]
        if not bad: continue
        g, k = locate(tr, cid)
        s = tr[g][k]['steps'][step - 1]
        c.violation(f'case {cid} step {step}: {sorted(bad)} are not what the specification allows\n{dumps({a: s[a] for a in ("op", "sid", "field", "form", "launch", "r", "key")})} {gs[g][0][k]["steps"][step - 1].get("doc", "")[:500]}',
                    {'mode': 'exec', 'lines': [gs[g][0][0], gs[g][0][k]], 'step': step, 'aspects': sorted(asp), 'observed': obs[g][k], 'trace': tr[g][k]})
