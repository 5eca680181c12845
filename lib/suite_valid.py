"""C03-C08: verdicts of the validator on random documents, judged by Valid."""
import random
from vgen import *
import tracer, build, vtab
from suite_exec import shard, locate

def make_group(rng, pid, gid, ndocs):
    S = valid_schema(rng)
    hl, tl = [{'k': 'world', 'schema': S.s, 'objs': world_objs(rng, S, per=1, perr=0, phook=0, how=('value', 'deferred', 'async')) if pid == 'C08' else []}], [tla_schema(S)]
    tl[0]['id'] = gid
    n = 0
    while n < ndocs:
        docs, texts, rounds = [], [], rng.choice([3, 4, 6]) if pid == 'C08' else rng.choice([1, 1, 2])
        for _ in range(rounds):
            d = document(rng, S, pid)
            texts.append(Printer(rng, .03).document(d)); docs.append(tla_doc(d))
        n += len(docs)
        order = list(range(len(docs)))
        if pid == 'C08': hist = history(rng, S, docs, texts)
        else: hist = [({'op': 'validate', 'doc': texts[i]}, {'op': 'validate', 'di': i + 1}) for i in order]
        hl.append({'k': 'case', 'roots': [{'op': t, 'o': f'{S.s[t]}#0'} for t in ('query', 'mutation', 'subscription') if S.s[t]] if pid == 'C08' else [], 'steps': [h for h, _ in hist]})
        tl.append({'k': 'case', 'id': f'{gid}.{len(hl)}', 'w': 0, 'docs': docs, 'steps': [dict({'sid': '', 'cbs': [], 'di': 1}, **t) for h, t in hist]})
    return hl, tl

def history(rng, S, docs, texts):
    """Documents validated, executed, subscribed to, again and in any order, with one service."""
    r, kept = [], set()
    ops = lambda i: [o['name'] for o in docs[i]['ops']] + ['']
    for _ in range(len(docs) + rng.randint(3, 8)):
        i = rng.randrange(len(docs)) if r else 0
        x = rng.random()
        src = {'doc': texts[i]}
        if x < .75 and i in kept and rng.random() < .5: src = {'use': str(i)}
        elif x < .75 and rng.random() < .4: src['keep'] = str(i); kept.add(i)
        if x < .55: r.append((dict({'op': 'validate'}, **src), {'op': 'validate', 'di': i + 1}))
        elif x < .75:
            r.append((dict({'op': 'resolve', 'opname': rng.choice(ops(i)), 'vars': vmap([]), 'launch': rng.choice(['deferred', 'async']), 'st': ''}, **src), {'op': 'resolve', 'di': i + 1}))
        elif x < .9:
            sid = f'k{len(r)}'
            subs = [o['name'] for o in docs[i]['ops'] if o['type'] == 'subscription']
            r.append(({'op': 'subscribe', 'doc': texts[i], 'sid': sid, 'opname': rng.choice(subs or ops(i)), 'vars': vmap([]), 'st': '', 'launch': rng.choice(['sync', 'deferred', 'async'])},
                      {'op': 'subscribe', 'di': i + 1, 'sid': sid}))
        elif S.s['subscription']:
            f = rng.choice(S.types[S.s['subscription']]['fields'])['name']
            r.append(({'op': 'deliver', 'field': f, 'form': 'plain', 'args': vmap([]), 'dirs': vmap([]), 'obj': f'{S.s["subscription"]}#0', 'launch': 'sync'}, {'op': 'deliver'}))
    return r

def merge(tl, obs):
    out = []
    for l, o in zip(tl, obs):
        l = dict(l)
        if l['k'] == 'case':
            st = []
            for j, s in enumerate(l['steps']):
                s = dict(s)
                if o is None or 'steps' not in o: s.update(r='crash', ok='0', errs='', ran='0')
                else:
                    x = o['steps'][j]
                    errs = x.get('errs', [])
                    ok = '1' if x['r'] == 'errors' and not errs else '0'
                    if x['r'] == 'doc': ok = '0' if 'errors' in x['doc']['k'] else '1'
                    s.update(r=x['r'], ok=ok, errs=dumps(errs), ran='1' if any(e['e'] in ('begin', 'end', 'call') for e in x['ev']) else '0',
                             cbs=[e['sid'] for e in x['ev'] if e['e'] == 'cb'])
                st.append(s)
            l['steps'] = st
        out.append(l)
    return out

RULES = {'C03': 'opname loneanon fragname fragused execdef fragcycle fragtype oproot fragdef fragposs subroot', 'C04': 'fieldname leaf subsel merge',
         'C05': 'arguniq argname argreq value inputname inputreq inputuniq', 'C06': 'varuniq varinput vardef varunused varundef varpos',
         'C07': 'diruniq dirdef dirloc dirargs', 'C08': 'changed executed subscribed'}

def table_groups(pid, rng, every, size=64):
    """The documents of the systematic tables: all of the core, and of the rest the part given (1 for all)."""
    gs = []
    for S, core, more in vtab.table(pid):
        docs = core + (more if every >= 1 else rng.sample(more, int(len(more) * every)))
        for i in range(0, len(docs), size):
            gid = f't{len(gs)}'
            hl, tl = [{'k': 'world', 'schema': S.s, 'objs': []}], [dict(tla_schema(S), id=gid)]
            for j in range(i, min(i + size, len(docs)), 8):
                ds = docs[j:min(j + 8, i + size)]
                hl.append({'k': 'case', 'roots': [], 'steps': [{'op': 'validate', 'doc': Printer(rng, 0).document(d)} for d in ds]})
                tl.append({'k': 'case', 'id': f'{gid}.{len(hl)}', 'w': 0, 'docs': [tla_doc(d) for d in ds], 'steps': [{'op': 'validate', 'di': k + 1, 'sid': '', 'cbs': []} for k in range(len(ds))]})
            gs.append((hl, tl))
    return gs

def run(pid, seed, groups, ndocs, workdir, every=None):
    gs = [make_group(random.Random(f'{pid}/{seed}/{g}'), pid, f'g{g}', ndocs) for g in range(groups)]
    if every is not None and pid != 'C08': gs += table_groups(pid, random.Random(f'{pid}/{seed}/tables'), every)
    obs = tracer.harness_parallel(build.harness(), 'exec', [h for h, _ in gs], workdir)
    tr = [merge(t, o) for (_, t), o in zip(gs, obs)]
    rej, states, out = tracer.check_traces('ValidTrace', shard(tr, tracer.JOBS), workdir, want_output=True)
    return gs, obs, tr, rej, states, out

def check(c):
    rnd = 0
    if c.pid == 'C05': probe_coerce(c)
    while True:
        one(c, f'{c.seed}.{rnd}' if rnd else str(c.seed), None if rnd else 1)
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is one document validated against a random schema (valid, or with one or two seeded mistakes of every kind), or an entry of the systematic tables of lib/vtab.py (all of them, every run); '
                   'distinct by document text; non-trivial: at least three selections.')
    c.assume += ['documents print to text as the grammar says (C01 checks the parser)', 'single values written for list types are not judged (see known-findings.txt)']

def probe_coerce(c):
    """Known finding: a single value is not accepted where a list is expected."""
    S = {'types': [ty('OBJECT', 'Query', fields=[fielddef('f', typ('Int'), [argdef('l', typ('Int', 'L'))])])], 'directives': BUILTIN_DIRS, 'query': 'Query', 'mutation': '', 'subscription': ''}
    lines = [{'k': 'world', 'schema': S, 'objs': []}, {'k': 'case', 'roots': [], 'steps': [{'op': 'validate', 'doc': '{f(l: 1)}'}]}]
    o = tracer.harness_run(build.harness(), 'exec', lines, c.dir('probe'))[-1]
    c.add(evaluations=1)
    if 'steps' not in o or o['steps'][0].get('errs'):
        c.finding('coerce', 'a single value is rejected where a list is expected', {'mode': 'exec', 'lines': lines, 'observed': o})

def one(c, seed, every):
    gs, obs, tr, rej, states, out = run(c.pid, seed, 128, 24, c.dir('valid'), every)
    n, valid = 0, 0
    for (hl, _), tl in zip(gs, tr):
        for h, t in zip(hl, tl):
            for hs, ts in zip(h.get('steps', []), t.get('steps', [])):
                n += 1
                valid += ts['ok'] == '1'
                text = hs.get('doc', '')
                if text.count('\n') + text.count(' ') >= 3: c.nontrivial(hash(text))
                if text: c.sample({'step': hs['op'], 'document': text[:500], 'accepted': ts['ok'] == '1'})
    c.add(evaluations=n, traces_validated_against_impl=n, states=states[0], transitions=states[1], accepted_documents=valid)
    rules = set(RULES[c.pid].split()) | {'rejected', 'answer'}
    if c.pid == 'C08': rules.discard('rejected')
    for cid, step, asp in rej:
        bad = asp & rules
        g, k = locate(tr, cid)
        o = obs[g][k]
        if o is None or 'crash' in o:
            if not tracer.confirmed(c, build.harness(), 'exec', [gs[g][0][0], gs[g][0][k]], o): continue
            bad = {'crash: ' + (o or {}).get('crash', '') + ' ' + (o or {}).get('err', '')[-300:]}
        if not bad: continue
        hs = gs[g][0][k]['steps'][step - 1]
        what = {'rejected': 'a valid document is rejected', 'answer': 'no verdict', 'changed': 'the verdict changed', 'executed': 'an invalid document was executed', 'subscribed': 'an invalid document was subscribed'}
        got = o['steps'][step - 1].get('errs', o['steps'][step - 1]) if o and 'steps' in o else ''
        c.violation(f'case {cid} step {step}: ' + '; '.join(what.get(b, 'accepted although it breaks ' + b) for b in sorted(bad)) + f'\n{hs["op"]} {hs.get("doc", "")[:700]}\n{got}',
                    {'mode': 'exec', 'lines': [gs[g][0][0], gs[g][0][k]], 'step': step, 'rules': sorted(asp), 'observed': o})
