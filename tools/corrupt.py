#!/usr/bin/env python3
"""corrupt.py [ID...]: tests the binding of the specifications.  Runs the check of each property up to its recorded traces, damages every trace in one
observed place (drops, repeats or swaps elements, changes scalars), lets TLC judge the damaged traces, and lists the kinds of damage which it accepts."""
import collections, copy, importlib, json, os, random, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/lib')
import tracer, check
from suites import SUITES
OBSERVED = {'ExecTrace': ['ev', 'doc', 'r', 'ready'], 'SubsTrace': ['ev', 'r', 'key', 'what'], 'ValidTrace': ['ok', 'ran'], 'ParseTrace': ['tree', 'r'], 'LiteralTrace': ['val', 'r'],
            'JsonTrace': ['back'], 'ValueTrace': ['pool', 'eq', 'r', 'res'], 'Base64Trace': None, 'ClientTrace': ['wire', 'back', 'data', 'errors', 'ok'],
            'SchemaTrace': ['said', 'ok'], 'ClientGenTrace': ['wire', 'back', 'tree', 'vars', 'fields', 'validated']}
PER = 300          # damaged lines per trace module
tracer.LOST = 40

def places(x, path, out):
    """(container, key, path) of everything below x which can be damaged."""
    it = x.items() if isinstance(x, dict) else enumerate(x)
    if isinstance(x, dict) and {'t', 'v', 'l', 'k'} <= set(x):          # a value: damaged as a whole
        if x['t'] != 'Map' and x['l']: out.append((x, 'l', path + ('elements',)))
        if x['t'] == 'Map' and x['l']: out.append((x, 'members', path + ('members',)))
        if x['t'] not in ('Map', 'List', 'Null'): out.append((x, 'v', path + ('value',)))
        if x['t'] == 'Null': out.append((x, 'null', path + ('null',)))
        for e in x['l']: places(e, path + ('*',), out)
        return
    for k, v in it:
        p = path + (k if isinstance(k, str) else '*',)
        if isinstance(v, (dict, list)):
            if isinstance(v, list) and v: out.append((x, k, p))
            places(v, p, out)
        else: out.append((x, k, p))

def damage(rng, x, k):
    if k == 'null': x.update(t='Int', v='1'); return 'set'
    if k == 'members':
        j = rng.randrange(len(x['l'])); how = rng.choice(['drop', 'rename', 'swap'])
        if how == 'drop': del x['l'][j], x['k'][j]
        elif how == 'rename': x['k'][j] += 'x'
        else:
            if j == 0: return None
            for a in ('l', 'k'): x[a][j - 1], x[a][j] = x[a][j], x[a][j - 1]
        return how
    v = x[k]
    if k == 'pool': return None
    if isinstance(v, list):
        how = rng.choice(['drop', 'again', 'swap'])
        j = rng.randrange(len(v))
        if how == 'drop': x[k] = v[:j] + v[j + 1:]
        elif how == 'again': x[k] = v[:j + 1] + v[j:]
        else:
            if j + 1 >= len(v) or v[j] == v[j + 1]: return None
            x[k] = v[:j] + [v[j + 1], v[j]] + v[j + 2:]
        return how
    if isinstance(v, str):
        if k in ('e', 'k', 't'): return None          # the kind of a record
        if v in ('0', '1'): x[k] = '1' if v == '0' else '0'
        elif len(v) > 1 and set(v) <= {'0', '1'}:
            j = rng.randrange(len(v)); x[k] = v[:j] + ('1' if v[j] == '0' else '0') + v[j + 1:]
        elif v.isdigit(): x[k] = str(int(v) + 1)
        elif v[-1:].isdigit(): x[k] = v[:-1] + str((int(v[-1]) + 1) % 10)
        else: x[k] = v + 'x'
        return 'change'
    if isinstance(v, int): x[k] = v + 1; return 'change'
    return None

class Enough(Exception): pass

def judge(pid, stats):
    real = tracer.check_traces
    def patched(module, shards, workdir, **kw):
        rng = random.Random(f'{pid}/{module}')
        keys = OBSERVED[module]
        out, todo, n = [], {}, 0
        for sh in shards:
            new = []
            for l in sh:
                l = copy.deepcopy(l)
                if l.get('k') == 'world' or ('id' in l and 'steps' not in l and 'schema' in str(l.get('k', ''))): new.append(l); continue
                ps = []
                if 'steps' in l:
                    for s in l['steps']:
                        for key in keys or s.keys():
                            if key in s:
                                if isinstance(s[key], (dict, list)): places({key: s[key]}, (), ps)
                                else: ps.append((s, key, (key,)))
                                if isinstance(s[key], list) and s[key]: ps.append((s, key, (key,)))
                else:
                    for key in keys or l.keys():
                        if key in l and key not in ('id', 'k', 'w'):
                            if isinstance(l[key], (dict, list)):
                                places(l[key], (key,), ps)
                                if isinstance(l[key], list) and l[key]: ps.append((l, key, (key,)))
                            else: ps.append((l, key, (key,)))
                if ps and n < PER and rng.random() < .8:
                    byp = collections.defaultdict(list)
                    for q in ps: byp[q[2]].append(q)
                    x, k, p = rng.choice(byp[rng.choice(sorted(byp))])
                    how = damage(rng, x, k)
                    if how: todo[l['id']] = (how, '.'.join(map(str, p))); n += 1
                new.append(l)
            out.append(new)
        try: res = real(module, out, workdir, **kw)
        except tracer.ToolError as e:
            print(pid, module, 'TLC cannot evaluate a damaged trace:', str(e)[-600:]); raise Enough
        got = {r[0] for r in res[0]}
        for i, t in todo.items(): stats[module][t][0 if i in got else 1] += 1
        raise Enough
    tracer.check_traces = patched
    try:
        for mod, fn in SUITES[pid]:
            c = check.Ctx(pid, 'quick', 1)
            try: getattr(importlib.import_module(mod), fn)(c)
            except Enough: pass
    finally: tracer.check_traces = real

stats = collections.defaultdict(lambda: collections.defaultdict(lambda: [0, 0]))
for pid in sys.argv[1:] or ['C09', 'C11', 'C30', 'C17', 'C19', 'C05', 'C08', 'C01', 'C02', 'C20', 'C21', 'C22', 'C25', 'C27', 'C28']: judge(pid, stats)
for m, t in stats.items():
    print(f'{m}: {sum(a + b for a, b in t.values())} damaged traces, {sum(a for a, _ in t.values())} rejected')
    for k, (a, b) in sorted(t.items(), key=lambda x: -x[1][1]):
        if b: print('   accepted', b, 'of', a + b, ':', *k)
