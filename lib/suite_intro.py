"""C23: introspection of random schemas, judged by Introspect (through ExecTrace)."""
import copy, random
from gen import *
from meta import META, SCALARS
import suite_exec as se
import suite_valid, vgen
import tracer, build

DESCS = ['', 'A thing', 'with "quotes" and \\ backslash', 'two\nlines', 'é 日本 \U0001F600', ' ', '#no comment', '"""']
REASONS = ['', 'old', 'No longer supported', 'use "x"', 'b\nc']
def decorate(rng, S):
    """Descriptions and deprecations everywhere, more enums, deeper wrappers."""
    d = lambda x: x.__setitem__('desc', rng.choice(DESCS)) if rng.random() < .5 else None
    dep = lambda x: x.__setitem__('dep', [rng.choice(REASONS)] if rng.random() < .35 else [])
    for t in S.s['types']:
        d(t)
        if t['kind'] == 'OBJECT' and rng.random() < .5: rng.shuffle(t['fields'])
        for f in t['fields']:
            d(f); dep(f)
            for a in f['args']: d(a)
        for v in t['values']: d(v); dep(v)
        for f in t['inputs']: d(f)
    for x in S.s['directives']:
        if x.get('builtin') == '1': continue
        d(x)
        x['locs'] = rng.sample(EXEC_LOCS + ['SCHEMA', 'OBJECT', 'ENUM', 'UNION', 'INPUT_OBJECT', 'FIELD_DEFINITION', 'SCALAR', 'ARGUMENT_DEFINITION', 'INTERFACE', 'ENUM_VALUE', 'INPUT_FIELD_DEFINITION'], rng.randint(1, 9))
        for a in x['args']:
            d(a)
            if rng.random() < .4: a['def'] = literal_text(rng, S, a['type'])
    return S

def full(S):
    """The whole schema in force, for the specification."""
    dsc = lambda x: dict(x, desc=x.get('desc', ''))
    def inp(a): return {'name': a['name'], 'desc': a.get('desc', ''), 'type': a['type'], 'def': a['def']}
    def fdef(f): return {'name': f['name'], 'desc': f.get('desc', ''), 'dep': list(f.get('dep', [])), 'type': f['type'], 'args': [inp(a) for a in f['args']]}
    T = [{'kind': t['kind'], 'name': t['name'], 'desc': t.get('desc', ''), 'ifaces': t['ifaces'], 'members': t['members'], 'fields': [fdef(f) for f in t['fields']],
          'values': [{'name': v['name'], 'desc': v.get('desc', ''), 'dep': list(v.get('dep', []))} for v in t['values']], 'inputs': [inp(a) for a in t['inputs']]} for t in SCALARS + META + S.s['types']]
    D = [{'name': x['name'], 'desc': x.get('desc', ''), 'locs': x['locs'], 'args': [inp(a) for a in x['args']]} for x in S.s['directives']]
    return {'types': T, 'directives': D, 'query': S.s['query'], 'mutation': S.s['mutation'], 'subscription': S.s['subscription']}

class IntroGen(DocGen):
    """Documents over the schema and its metadata."""
    def __init__(self, rng, S, names, **k):
        S2 = copy.deepcopy(S.s)
        S2['types'] += copy.deepcopy(META)
        q = [t for t in S2['types'] if t['name'] == S2['query']][0]
        intro = [fielddef('__schema', typ('__Schema', 'N')), fielddef('__type', typ('__Type'), [argdef('name', typ('String', 'N'))])]
        q['fields'] = [f for f in q['fields'] if rng.random() < .3] + intro * 3
        super().__init__(rng, Schema(S2), **k)
        self.names = names
    def arguments(self, defs):
        if [a['name'] for a in defs] == ['name']:
            if self.rng.random() < .25:
                v = self.variable(typ('String', 'N'))
                if v: return [arg('name', v)]
            return [arg('name', vstr(self.rng.choice(self.names)))]
        return super().arguments(defs)

def standard():
    """The introspection query tools send."""
    ref = None
    for _ in range(7): ref = [fld('kind'), fld('name')] + ([fld('ofType', '', [], [], ref)] if ref else [])
    all_ = [arg('includeDeprecated', vbool(True))]
    iv = [fld('name'), fld('description'), fld('type', '', [], [], [spread('TypeRef')]), fld('defaultValue')]
    ft = [fld('kind'), fld('name'), fld('description'),
          fld('fields', '', all_, [], [fld('name'), fld('description'), fld('args', '', [], [], [spread('InputValue')]), fld('type', '', [], [], [spread('TypeRef')]), fld('isDeprecated'), fld('deprecationReason')]),
          fld('inputFields', '', [], [], [spread('InputValue')]), fld('interfaces', '', [], [], [spread('TypeRef')]),
          fld('enumValues', '', all_, [], [fld('name'), fld('description'), fld('isDeprecated'), fld('deprecationReason')]), fld('possibleTypes', '', [], [], [spread('TypeRef')])]
    n = [fld('name')]
    sel = [fld('queryType', '', [], [], n), fld('mutationType', '', [], [], n), fld('subscriptionType', '', [], [], n), fld('types', '', [], [], [spread('FullType')]),
           fld('directives', '', [], [], [fld('name'), fld('description'), fld('locations'), fld('args', '', [], [], [spread('InputValue')])])]
    return doc([op('query', 'IntrospectionQuery', [], [], [fld('__schema', '', [], [], sel)])], [frag('FullType', '__Type', ft), frag('InputValue', '__InputValue', iv), frag('TypeRef', '__Type', ref)])

def make_group(rng, gid, ndocs):
    S = decorate(rng, exec_schema(rng, sub=rng.random() < .7, mut=rng.random() < .7))
    objs = world_objs(rng, S, per=1, perr=0, phook=0)
    hl = [{'k': 'world', 'schema': S.s, 'objs': objs}]
    tl = [dict(se.tla_world(S, objs, gid), full=full(S), intro='1')]
    tl[0]['types'].update({t['name']: {'kind': t['kind'], 'names': [t['name']], 'fields': {'_': {'n': '', 'w': [], 'args': [], 'stub': '0'}}} for t in META})
    names = [t['name'] for t in S.s['types'] + META + SCALARS]
    for n in range(ndocs):
        if n == 0: d = standard()
        else:
            g = IntroGen(rng, S, names + ['Nope', '', 'query'], pskip=.06, pdir=.05, pfrag=.15, pinline=.12, pvar=.3, prepeat=.1, depth=rng.choice([2, 3, 4]), width=4)
            d = g.finish([g.operation('query', '')])
        text = Printer(rng, .02).document(d)
        o = d['ops'][0]
        vs = request_vars(rng, S, o, 0)
        for i, v in enumerate(o['vars']):
            if v['type']['n'] == 'String' and v['type']['w'] == ['N'] and v['n'] in vs['k']: vs['l'][vs['k'].index(v['n'])] = vstr(rng.choice(names))
        hs = {'op': 'resolve', 'doc': text, 'opname': '', 'vars': vs, 'launch': rng.choice(['deferred', 'async']), 'st': '', 'gates': []}
        hl.append({'k': 'case', 'roots': [{'op': t, 'o': f'{S.s[t]}#0'} for t in ('query', 'mutation', 'subscription') if S.s[t]], 'steps': [hs]})
        tl.append({'k': 'case', 'id': f'{gid}.{n}', 'w': 0, 'docs': [{'ops': d['ops'], 'frags': d['frags'], 'valid': '1'}],
                   'roots': {t: f'{S.s[t]}#0' for t in ('query', 'mutation') if S.s[t]}, 'steps': [{'di': 1, 'opname': '', 'vars': vs, 'st': ''}]})
    return hl, tl

def run(seed, groups, ndocs, workdir):
    gs = [make_group(random.Random(f'C23/{seed}/{g}'), f'g{g}', ndocs) for g in range(groups)]
    obs = tracer.harness_parallel(build.harness(), 'exec', [h for h, _ in gs], workdir)
    tr = [se.merge(t, o) for (_, t), o in zip(gs, obs)]
    # very long answers cost too much to judge
    for t, o, (h, _) in zip(tr, obs, gs):
        keep = [k for k in range(len(t)) if k < 2 or len(dumps(o[k] or '')) < 120000]
        for l in (t, o, h): l[:] = [l[k] for k in keep]
    rej, states = tracer.check_traces('ExecTrace', se.shard(tr, tracer.JOBS), workdir)
    return gs, obs, tr, rej, states

def check(c):
    rnd = 0
    while True:
        gs, obs, tr, rej, states = run(f'{c.seed}.{rnd}' if rnd else c.seed, 64, 8, c.dir('intro'))
        n = 0
        for (hl, _), tl in zip(gs, tr):
            for h, t in zip(hl, tl):
                for hs, ts in zip(h.get('steps', []), t.get('steps', [])):
                    n += 1
                    if '__' in hs['doc']: c.nontrivial(hash((hs['doc'], dumps(hl[0]['schema']))))
                    if n % 5 == 2: c.sample({'document': hs['doc'][:600], 'answer': dumps(ts['doc'])[:300]})
        c.add(evaluations=n, traces_validated_against_impl=n, states=states[0], transitions=states[1])
        for cid, step, asp in rej:
            bad = asp & {'data', 'errors', 'answer', 'calls'}
            g, k = se.locate(tr, cid)
            o = obs[g][k]
            if o is None or 'crash' in o:
                if not tracer.confirmed(c, build.harness(), 'exec', [gs[g][0][0], gs[g][0][k]], o): continue
                bad = {'crash: ' + (o or {}).get('crash', '') + ' ' + (o or {}).get('err', '')[-300:]}
            if not bad: continue
            c.violation(f'case {cid}: introspection gives another answer than the schema has ({sorted(bad)})\n{gs[g][0][k]["steps"][0]["doc"][:900]}',
                        {'mode': 'exec', 'lines': [gs[g][0][0], gs[g][0][k]], 'step': step, 'aspects': sorted(asp), 'observed': o, 'trace': tr[g][k]})
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is one introspection document (the standard introspection query, or random selections of metadata with fragments, directives, aliases and variables, mixed with ordinary fields) '
                   'against a random schema with descriptions, deprecations (also with an empty reason), defaults and wrappers; distinct by schema and document; non-trivial: it selects metadata.')
    c.assume += ['the harness builds the schema it was given', 'lists whose order GraphQL does not define (types, directives, locations, possible types) are compared without order']

# ------------------------------------------------------------------------- C24
def none_group(rng, gid, ndocs):
    """A service without introspection: documents with metadata anywhere must be rejected, and reveal nothing when they are not even validated; the others work as ever."""
    S = exec_schema(rng, sub=rng.random() < .7, mut=rng.random() < .7)
    # a way back to the query type, so that metadata can be asked for at any depth
    for t in S.s['types']:
        if t['kind'] == 'OBJECT' and rng.random() < .6: t['fields'].append(fielddef('root', typ('Query', *rng.choice([[], ['N'], ['L']]))))
    S.s['nointro'] = '1'
    objs = world_objs(rng, S, per=1, perr=0, phook=0, how=('value', 'deferred'))
    roots = [{'op': t, 'o': f'{S.s[t]}#0'} for t in ('query', 'mutation', 'subscription') if S.s[t]]
    hl = [{'k': 'world', 'schema': S.s, 'objs': objs}]
    vl, el = [dict(vgen.tla_schema(S), id=gid)], [dict(se.tla_world(S, objs, gid))]
    el[0]['types'].update({t['name']: {'kind': t['kind'], 'names': [t['name']], 'fields': {'_': {'n': '', 'w': [], 'args': [], 'stub': '0'}}} for t in META})
    names = [t['name'] for t in S.s['types'] + META + SCALARS]
    for n in range(ndocs):
        k = dict(pskip=.05, pdir=.05, pfrag=.25, pinline=.25, pvar=.2, prepeat=.1, depth=3, width=3)
        g = IntroGen(rng, S, names, **k) if rng.random() < .6 else DocGen(rng, S, ptypename=.4, **k)
        d = g.finish([g.operation('query' if n % 3 else rng.choice([t for t in ('query', 'mutation') if S.s[t]]), '')])
        text = Printer(rng, .02).document(d)
        vs = request_vars(rng, S, d['ops'][0], 0)
        r = {'op': 'resolve', 'doc': text, 'opname': '', 'vars': vs, 'launch': 'deferred', 'st': '', 'gates': []}
        td = [vgen.tla_doc(d)]
        hl.append({'k': 'case', 'roots': roots, 'steps': [{'op': 'validate', 'doc': text}, r, dict(r, unchecked='1')]})
        vl.append({'k': 'case', 'id': f'{gid}.{n}', 'w': 0, 'docs': td, 'steps': [{'op': o, 'di': 1, 'sid': '', 'cbs': []} for o in ('validate', 'resolve')]})
        el.append({'k': 'case', 'id': f'{gid}.{n}', 'w': 0, 'docs': [{'ops': d['ops'], 'frags': d['frags'], 'valid': '1'}],
                   'roots': {t: f'{S.s[t]}#0' for t in ('query', 'mutation') if S.s[t]}, 'steps': [{'di': 1, 'opname': '', 'vars': vs, 'st': ''}]})
    return hl, vl, el

def run_none(seed, groups, ndocs, workdir):
    gs = [none_group(random.Random(f'C24/{seed}/{g}'), f'g{g}', ndocs) for g in range(groups)]
    obs = tracer.harness_parallel(build.harness(), 'exec', [h for h, _, _ in gs], workdir)
    part = lambda o, l: [x if x is None or 'steps' not in x else dict(x, steps=x['steps'][l]) for x in o]
    vt = [suite_valid.merge(v, part(o, slice(0, 2))) for (_, v, _), o in zip(gs, obs)]
    et = [se.merge(e, part(o, slice(2, 3))) for (_, _, e), o in zip(gs, obs)]
    r1, s1 = tracer.check_traces('ValidTrace', se.shard(vt, tracer.JOBS), workdir)
    r2, s2 = tracer.check_traces('ExecTrace', se.shard(et, tracer.JOBS), workdir)
    return gs, obs, vt, et, r1, r2, (s1[0] + s2[0], s1[1] + s2[1])

def check_none(c):
    rnd = 0
    while True:
        gs, obs, vt, et, r1, r2, states = run_none(f'{c.seed}.{rnd}' if rnd else c.seed, 96, 10, c.dir('none'))
        n = acc = 0
        for (hl, _, _), tl in zip(gs, vt):
            for h, t in zip(hl[1:], tl[1:]):
                n += 3
                text = h['steps'][0]['doc']
                acc += t['steps'][0]['ok'] == '1'
                if '__schema' in text or '__type' in text: c.nontrivial(hash(text))
                if n % 30 == 3: c.sample({'document': text[:500], 'accepted': t['steps'][0]['ok'] == '1'})
        c.add(evaluations=n, traces_validated_against_impl=n, states=states[0], transitions=states[1], accepted_documents=acc)
        for rej, tr, want in ((r1, vt, None), (r2, et, {'data', 'calls', 'answer'})):
            for cid, step, asp in rej:
                bad = asp if want is None else asp & want
                g, k = se.locate(tr, cid)
                o = obs[g][k]
                if o is None or 'crash' in o:
                    if not tracer.confirmed(c, build.harness(), 'exec', [gs[g][0][0], gs[g][0][k]], o): continue
                    bad = {'crash: ' + (o or {}).get('crash', '') + ' ' + (o or {}).get('err', '')[-300:]}
                if not bad: continue
                what = 'the verdict is wrong' if tr is vt else 'the answer to the document that was not validated is wrong'
                c.violation(f'case {cid}: without introspection {what}: {sorted(bad)}\n{gs[g][0][k]["steps"][0]["doc"][:900]}',
                            {'mode': 'exec', 'lines': [gs[g][0][0], gs[g][0][k]], 'step': step if tr is vt else 3, 'aspects': sorted(asp), 'observed': o})
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is one document (metadata at random places and depths, or ordinary) against a random service without introspection, validated, executed, and executed without validation; '
                   'distinct by text; non-trivial: it asks for metadata or type names.')
    c.assume += ['the harness adds the resolvers of metadata only where the generated code would', 'generated services without introspection are covered by C26']
