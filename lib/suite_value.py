"""C20: histories of operations on response values, enumerated or drawn by TLC from ValueMC, replayed and judged by ValueTrace."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
from gql import dumps
import tracer, build

NAMES = ['a', 'b', 'B', 'ab', '', 'z', 'aa', 'é', '0', '_']
TYPES = ['Map', 'List', 'String', 'Null', 'Boolean', 'Int', 'Float', 'Enum', 'Scalar']
READ = ['Map', 'List', 'String', 'Boolean', 'Int', 'Float', 'ID', 'Scalar', 'begin']
def op(o, s, t=None, ty='', v='', i=0): return {'op': o, 's': s, 't': t or s, 'ty': ty, 'v': v, 'i': i}

TEXTS = ['', 'x', 'RED', 'a long text that does not fit into the string itself', 'QUJD', 'QQ==', 'QQ', 'Q', 'é', 'AA==', '\u2028"\\']
FLOATS = ['0.5', '-2.25', '1e+300', '3', '0.10000000000000001', '-17']
INTS = ['0', '1', '-1', '2147483647', '-2147483648', '17']
IDS = ['', '00', 'ff', '00ff10', '616263', 'fefefefe']
def content(rng, ty):
    return {'String': TEXTS, 'CString': TEXTS, 'Boolean': ['true', 'false'], 'Int': INTS, 'Float': FLOATS, 'ID': IDS}.get(ty, [''])[0 if rng is None else rng.randrange(len({'String': TEXTS, 'CString': TEXTS, 'Boolean': ['true', 'false'], 'Int': INTS, 'Float': FLOATS, 'ID': IDS}.get(ty, ['']))) ]

def random_menu(rng, n, names):
    sl = lambda: rng.randint(1, n)
    ops = []
    for _ in range(110):
        x = rng.random(); s, t = sl(), sl()
        if x < .08: ops.append(op('new', s, ty=rng.choice(TYPES + ['Map', 'List', 'Map'])))
        elif x < .17:
            ty = rng.choice(['String', 'CString', 'Boolean', 'Int', 'Float', 'ID']); ops.append(op('ctor', s, ty=ty, v=content(rng, ty)))
        elif x < .27: ops.append(op('copy', s, t))
        elif x < .31: ops.append(op(rng.choice(['move', 'movec']), s, t))
        elif x < .40:
            ty = rng.choice(['String', 'Boolean', 'Int', 'Float', 'ID', 'Scalar']); ops.append(op('set', s, t, ty=ty, v=content(rng, ty)))
        elif x < .58: ops.append(op(rng.choice(['put', 'put', 'putm']), s, t, v=rng.choice(names)))
        elif x < .66: ops.append(op(rng.choice(['app', 'app', 'appm']), s, t))
        elif x < .71: ops.append(op(rng.choice(['find', 'at']), s, v=rng.choice(names)))
        elif x < .75: ops.append(op('idx', s, i=rng.randint(0, 4)))
        elif x < .80: ops.append(op('sub', s, t, i=rng.randint(0, 3)))
        elif x < .87: ops.append(op('get', s, ty=rng.choice(READ)))
        elif x < .93: ops.append(op('release', s, t, ty=rng.choice(['Map', 'List', 'String', 'ID', 'Scalar'])))
        elif x < .95: ops.append(op('size', s))
        elif x < .97: ops.append(op('reserve', s, i=rng.choice([0, 1, 40])))
        else: ops.append(op('json', s))
    return [o for o in ops if not (o['op'] in ('putm', 'appm', 'release', 'sub') and o['s'] == o['t'])]

def small_menus():
    """Menus for exhaustive exploration: a few start states, and the operations that matter there."""
    A, B = 1, 2
    m = []
    # maps: insertion, duplicates, copies, release, nesting
    m.append(([op('new', A, ty='Map'), op('ctor', B, ty='Int', v='1')],
              [op('put', A, B, v='b'), op('put', A, B, v='a'), op('put', A, B, v='c'), op('put', A, A, v='d'), op('copy', B, A), op('copy', A, B), op('release', A, B, ty='Map'),
               op('ctor', B, ty='String', v='x'), op('sub', A, B, i=0), op('put', B, A, v='a'), op('move', A, B), op('find', A, v='b'), op('at', A, v='c')]))
    # lists
    m.append(([op('new', A, ty='List'), op('ctor', B, ty='Int', v='1')],
              [op('app', A, B), op('app', A, A), op('copy', B, A), op('copy', A, B), op('release', A, B, ty='List'), op('appm', A, B), op('ctor', B, ty='Boolean', v='true'), op('idx', A, i=1),
               op('sub', A, B, i=0), op('app', B, A), op('move', B, A), op('reserve', A, i=9)]))
    # strings, enum values, IDs
    m.append(([op('ctor', A, ty='String', v='QUJD'), op('new', B, ty='Enum')],
              [op('set', B, ty='String', v='RED'), op('set', A, ty='String', v='RED'), op('json', A), op('json', B), op('copy', B, A), op('copy', A, B), op('set', A, ty='ID', v='00ff'), op('set', B, ty='ID', v='00'),
               op('get', A, ty='ID'), op('get', B, ty='ID'), op('release', A, B, ty='String'), op('release', B, A, ty='String'), op('release', A, B, ty='ID'), op('get', A, ty='String')]))
    # scalars of scalars, numbers
    m.append(([op('new', A, ty='Scalar'), op('ctor', B, ty='Int', v='1')],
              [op('set', A, B, ty='Scalar'), op('set', A, A, ty='Scalar'), op('copy', B, A), op('copy', A, B), op('release', A, B, ty='Scalar'), op('get', A, ty='Scalar'), op('sub', A, B, i=0), op('new', A, ty='Scalar'),
               op('set', B, ty='Int', v='7'), op('new', B, ty='Float'), op('set', B, ty='Float', v='0.5'), op('get', B, ty='Float'), op('get', B, ty='Int'), op('move', A, B)]))
    return m

def histories(c, menu, sim=None):
    w = c.dir(f'mc{menu["id"]}')
    with open(f'{w}/menu.ndjson', 'w') as f: f.write(dumps(menu) + '\n')
    extra = () if not sim else ('-simulate', f'num={sim[0]}', '-depth', str(menu['depth'] + 1), '-seed', str(sim[1]))
    rc, out = tracer.tlc('ValueMC.tla', 'ValueSim.cfg' if sim else 'ValueMC.cfg', env={'MENU': f'{w}/menu.ndjson'}, extra=extra, heap='3g', workdir=w)
    if rc != 0: raise tracer.ToolError('ValueMC: ' + out[-2000:])
    h = [json.loads(x) for x in re.findall(r'"HIST(.*)"', out)]
    st = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    return h, (int(st[-1][1]), int(st[-1][0]) - 1) if st else (0, int(re.findall(r'(\d+) states checked', out)[-1]))

def replay(c, batch):
    """batch: [(n, names, ops)]; runs them and has TLC judge."""
    lines = [{'k': 'case', 'n': n, 'names': names, 'ops': [dict(o, s=o['s'] - 1, t=o['t'] - 1) for o in ops]} for n, names, ops in batch]
    size = len(lines) // 64 + 1
    obs = [o for g in tracer.harness_parallel(build.harness(), 'value', [lines[k:k + size] for k in range(0, len(lines), size)], c.dir('value')) for o in g]
    tr = [{'id': f't{k}', 'n': n, 'names': names, 'ops': ops, 'steps': (o or {}).get('steps', [])} for k, ((n, names, ops), o) in enumerate(zip(batch, obs))]
    rej, st = tracer.check_traces('ValueTrace', [tr[k::tracer.JOBS] for k in range(tracer.JOBS)], c.dir('value'))
    c.add(evaluations=sum(len(b[2]) for b in batch), traces_validated_against_impl=len(batch), states=st[0], transitions=st[1])
    for (n, names, ops), o in zip(batch, obs):
        if o and 'steps' in o: c.nontrivial(dumps([x['op'] + x['ty'] + x['v'] + str(x['s']) + str(x['t']) for x in ops]))
    for i, s, asp in rej:
        k = int(i[1:])
        if asp == {'model'}: raise tracer.ToolError(f'the model refuses its own history: {batch[k][2]} step {s}')
        if asp == {'failure'} and (obs[k] or {}).get('crash') == 'skipped': continue
        n, names, ops = batch[k]
        c.violation(f'{sorted(asp)} after {[" ".join(filter(None, [o["op"], str(o["s"]), str(o["t"]), o["ty"], o["v"]])) for o in ops[:s]]}: '
                    + dumps(tr[k]['steps'][s - 1] if s <= len(tr[k]['steps']) else obs[k])[:400], {'mode': 'value', 'lines': [lines[k]], 'observed': obs[k], 'step': s})

def check(c):
    start = [op('new', 1, ty='Map'), op('new', 2, ty='List')]
    depth = 4 if c.thorough else 3
    with ThreadPoolExecutor(4) as ex:
        menus = [{'id': f'x{k}', 'n': 2, 'depth': depth, 'start': s, 'ops': o} for k, (s, o) in enumerate(small_menus())]
        hs = list(ex.map(lambda m: histories(c, m), menus))
    batch = []
    for m, (h, st) in zip(menus, hs):
        batch += [(2, ['a', 'b', 'c', 'd', 'zz'], m['start'] + [m['ops'][j - 1] for j in x]) for x in h]
        c.add(states=st[0], transitions=st[1])
    c.cov['exhaustive'] = [{'menu': m['id'], 'operations': len(m['ops']), 'length': depth, 'histories': len(h), 'complete': True} for m, (h, _) in zip(menus, hs)]
    for k in range(0, len(batch), 20000): replay(c, batch[k:k + 20000])
    for n, names, ops in batch[:1]: c.sample({'ops': [o['op'] for o in ops]})
    rnd = 0
    while True:
        menus = []
        for k in range(8):
            rng = random.Random(f'C20/{c.seed}/{rnd}/{k}')
            n = rng.choice([2, 3, 4])
            names = rng.sample(NAMES, rng.randint(2, len(NAMES)))
            if k == 7:      # a map and a list with many members
                names = rng.sample(NAMES + [f'n{j}' for j in range(40)], 40)
                wide = [op('new', 1, ty='Map'), op('new', 2, ty='List')]
                for j, nm in enumerate(rng.sample(names, rng.randint(20, 38))): wide += [op('ctor', 3, ty='Int', v=str(j)), op('put', 1, 3, v=nm), op('app', 2, 3)]
                menus.append(({'id': 'r7', 'n': 4, 'depth': 30, 'start': wide, 'ops': random_menu(rng, 4, names)}, names))
                continue
            menus.append(({'id': f'r{k}', 'n': n, 'depth': 30 if k < 4 else 60, 'start': [op('new', 1, ty='Map'), op('new', 2, ty=rng.choice(['List', 'Map', 'Scalar']))], 'ops': random_menu(rng, n, names)}, names))
        with ThreadPoolExecutor(8) as ex:
            hs = list(ex.map(lambda m: histories(c, m[0], (70, int(c.seed) * 100 + rnd * 8 + int(m[0]['id'][1:]))), menus))
        batch = []
        for (m, names), (h, st) in zip(menus, hs):
            batch += [(m['n'], names, m['start'] + [m['ops'][j - 1] for j in x]) for x in h]
            c.add(transitions=st[1])
        c.cov['random_histories'] = c.cov.get('random_histories', 0) + len(batch)
        replay(c, batch)
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.sample({'ops': [f'{o["op"]} {o["s"]} {o["t"]} {o["ty"]} {o["v"]}' for o in batch[0][2][:12]]})
    c.rules.append('A case is one history of operations on a pool of values, drawn by TLC from ValueMC (all short histories over four menus; random long ones over random menus) and replayed; '
                   'after each step the contents, findable names and equalities of the whole pool are compared; non-trivial: distinct.')
    c.assume += ['a value moved from is only assigned to', 'whether a value refused as a second member survives being moved is left open', 'values with NaN or negative zero are not compared']
