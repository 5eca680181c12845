"""C25: client-side conversion of variables and responses."""
import random
from gql import dumps
from suite_text import V, rval, rstr, rfloat, rint
import tracer, build

MODS = ['', 'Q', 'L', 'LQ', 'QL', 'QLQ', 'LL', 'LLQ', 'LQL', 'LQLQ', 'QLL', 'QLLQ', 'QLQL', 'QLQLQ', 'LLL', 'QLQLQLQ']
TYPES = ['Int', 'Float', 'String', 'Boolean', 'ID', 'Scalar']
NIL = V('Null')
def base(rng, ty):
    if ty == 'Int': return V('Int', str(rint(rng)))
    if ty == 'Float': return V('Float', format(rfloat(rng) + 0.0, '.17g'))
    if ty == 'String': return V('String', rstr(rng))
    if ty == 'Boolean': return V('Boolean', rng.choice(['true', 'false']))
    if ty == 'ID': return V('ID', bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 9]))).hex())
    v = rval(rng, 2)
    return v if v['t'] != 'Null' else V('Int', '3')
def many(rng, m): return rng.randint(16, 70) if 'L' not in m[1:] and rng.random() < .03 else rng.choice([0, 1, 2, 3, 5])
def typed(rng, ty, m):
    if not m: return base(rng, ty)
    if m[0] == 'Q': return NIL if rng.random() < .3 else typed(rng, ty, m[1:])
    return V('List', l=[typed(rng, ty, m[1:]) for _ in range(many(rng, m))])
import base64
def wire(rng, ty, m, odd):
    if rng.random() < odd: return rval(rng, 1)
    if not m:
        if ty == 'ID': return V(rng.choice(['String', 'JString']), base64.b64encode(bytes.fromhex(base(rng, 'ID')['v'])).decode())
        if ty == 'Float' and rng.random() < .4: return V('Int', str(rint(rng)))
        b = base(rng, ty)
        if ty == 'String' and rng.random() < .5: b['t'] = 'JString'
        return b
    if m[0] == 'Q': return NIL if rng.random() < .3 else wire(rng, ty, m[1:], odd)
    return V('List', l=[wire(rng, ty, m[1:], odd) for _ in range(many(rng, m))])
def S(rng, s): return V(rng.choice(['String', 'JString']), s)
def mp(rng, kv):
    kv = list(kv)
    if rng.random() < .2: kv.insert(rng.randint(0, len(kv)), (rng.choice(['extensions', 'Data', 'error', 'x']), rval(rng, 1)))
    if rng.random() < .4: rng.shuffle(kv)
    return V('Map', l=[v for _, v in kv], k=[k for k, _ in kv])
def error(rng):
    kv = []
    if rng.random() < .95: kv.append(('message', S(rng, rstr(rng) + 'm')))
    if rng.random() < .7: kv.append(('locations', V('List', l=[mp(rng, [('line', V('Int', str(rng.choice([0, 1, 7, 70000])))), ('column', V('Int', str(rng.choice([0, 1, 12, 99999]))))][:rng.choice([2, 2, 2, 1])]) for _ in range(rng.choice([0, 1, 1, 2]))])))
    if rng.random() < .7: kv.append(('path', V('List', l=[S(rng, rng.choice(['a', 'b', '', 'é', '0'])) if rng.random() < .6 else V('Int', str(rng.choice([0, 1, 2, 12345]))) for _ in range(rng.choice([0, 1, 2, 5]))])))
    return mp(rng, kv)
def response(rng):
    kv = []
    if rng.random() < .9: kv.append(('data', rval(rng, 3)))
    if rng.random() < .7: kv.append(('errors', V('List', l=[error(rng) for _ in range(12 if rng.random() < .03 else rng.choice([0, 1, 2, 4]))])))
    return mp(rng, kv)

def check(c):
    rnd = 0
    while True:
        rng = random.Random(f'C25/{c.seed}/{rnd}')
        lines = []
        for ty in TYPES:
            for m in MODS:
                for k in range(30): lines.append({'op': 'var', 'type': ty, 'mods': m, 'v': typed(rng, ty, m)})
                for k in range(20): lines.append({'op': 'resp', 'type': ty, 'mods': m, 'v': wire(rng, ty, m, rng.choice([0, 0, .2]))})
        for k in range(2500): lines.append({'op': 'split', 'type': '', 'mods': '', 'v': response(rng)})
        size = len(lines) // 32 + 1
        obs = [o for g in tracer.harness_parallel(build.harness(), 'client', [lines[k:k + size] for k in range(0, len(lines), size)], c.dir('cl')) for o in g]
        tr = []
        for k, (x, o) in enumerate(zip(lines, obs)):
            o = o or {}
            t = dict(x, id=f't{k}', r='failure', wire=NIL, back={'ok': '0', 'v': NIL}, data=NIL, errors=[])
            if x['op'] == 'var' and 'wire' in o: t.update(r='ok', wire=o['wire'], back=o['back'])
            if x['op'] == 'resp' and 'ok' in o: t.update(r='ok', back=o)
            if x['op'] == 'split' and 'data' in o: t.update(r='ok', data=o['data'], errors=o['errors'])
            tr.append(t)
        rej, st = tracer.check_traces('ClientTrace', [tr[k::tracer.JOBS] for k in range(tracer.JOBS)], c.dir('cl'))
        c.add(evaluations=len(lines), traces_validated_against_impl=len(lines), states=st[0], transitions=st[1])
        for x in lines: c.nontrivial(dumps(x))
        if rnd == 0:
            for k in (300, -1): c.sample(lines[k])
            c.cov['scalar_types'] = TYPES; c.cov['wrappers'] = MODS
        for i, _, asp in rej:
            k = int(i[1:])
            if 'model' in asp: raise tracer.ToolError(f'the model does not round-trip {lines[k]}')
            if (obs[k] or {}).get('crash') == 'skipped': continue
            c.violation(f'{sorted(asp)}: {lines[k]["op"]} {lines[k]["type"]}[{lines[k]["mods"]}] {dumps(lines[k]["v"])[:300]} gave {dumps(obs[k])[:400]}', {'mode': 'client', 'lines': [lines[k]], 'observed': obs[k]})
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is one typed value serialized as a variable and parsed back, one response value parsed as a type, or one service response split; every scalar type under 16 combinations of wrappers; distinct cases count.')
    c.assume += ['a value that is not a list where a list is expected is left open', 'malformed error entries are left open', 'floats are finite']
