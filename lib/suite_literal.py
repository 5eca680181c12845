"""C02: literals in documents, and what a resolver receives."""
import itertools, random, re, struct
from gen import *
import pgen, tracer, build

def world():
    T = [ty('SCALAR', 'Any'), ty('OBJECT', 'Query', fields=[fielddef('f', typ('Int'), [argdef('a', typ('Any'))])])]
    S = Schema({'types': T, 'directives': copy.deepcopy(BUILTIN_DIRS), 'query': 'Query', 'mutation': '', 'subscription': ''})
    objs = [{'id': 'Query#0', 'type': 'Query', 'begin': [], 'end': [], 'fields': {'f': {'how': 'value', 'err': [], 'val': vint(1)}}}]
    return {'k': 'world', 'schema': S.s, 'objs': objs}

def number(rng, wide=True):
    x = rng.random() if wide else rng.random() * .45
    if x < .25: return pgen.G(rng).number()
    if x < .45: return str(rng.choice([2147483647, 2147483648, -2147483648, -2147483649, 4294967296, 9007199254740991, -1, 0, 99999999999, 2 ** 40, rng.randint(-2 ** 33, 2 ** 33), rng.randint(-100, 100)]))
    if x < .7:
        # a number with at most 15 digits
        s = str(rng.randint(0, 10 ** rng.randint(1, 15) - 1))
        k = rng.randint(0, len(s) - 1)
        s = s[:len(s) - k] + ('.' + s[len(s) - k:] if k else '')
        e = rng.choice(['', '', f'e{rng.randint(-250, 250)}', f'E+{rng.randint(0, 30)}', f'e-0{rng.randint(0, 9)}'])
        return rng.choice(['', '-']) + s + e
    while True:
        # 17 digits, exactly those of a double
        f = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0] if rng.random() < .5 else rng.uniform(-1e6, 1e6)
        if f == f and 1e-280 < abs(f) < 1e280:
            s = format(f, '.16e')
            m, e = s.split('e')
            if not m.endswith('0'): return f'{m}{rng.choice("eE")}{int(e)}'

def literal(rng, d=2, wide=True):
    x = rng.random()
    g = pgen.G(rng)
    if x < .35: return number(rng, wide)
    if x < .72: return g.string()
    if x < .78: return rng.choice(['true', 'false', 'null', 'RED', 'trueish', 'nulls', 'True', 'NULL', '_'])
    sep = lambda: rng.choice([' ', ',', '\n', ', '])
    if d and x < .88: return '[' + sep().join(literal(rng, d - 1, wide) for _ in range(rng.randint(0, 4))) + ']'
    if d:
        ks = rng.sample(['a', 'b', 'c', 'on', 'null', '_z'], rng.randint(0, 4))
        return '{' + sep().join(f'{k}:{rng.choice(["", " "])}{literal(rng, d - 1, wide)}' for k in ks) + '}'
    return number(rng, wide)

def documents(seed, n, thorough):
    r = []
    rng = random.Random(f'C02/{seed}')
    wrap = lambda l: rng.choice(['{f(a:%s)}', '{f(a:%s)}', 'query($v:Any=%s){f(a:$v)}', '{x:f(a: %s ) }', 'query Q{f(a:%s)@include(if:true)}']) % l
    for k in range(n):
        change = rng.random() < .1
        l = literal(rng, wide=not change)      # changed literals have no digits at the limit of a double
        if change and l:
            i = rng.randrange(len(l)); w = rng.random()
            l = l[:i] + (rng.choice(pgen.CHARS) if w < .7 else '') + l[i + (w > .4):]
        r.append((wrap(l), 'changed' if change else 'random'))
    for a in range(1, 5 if thorough else 4):
        for x in itertools.product('-01.eE+', repeat=a): r.append(('{f(a:' + ''.join(x) + ')}', 'short'))
    for a in range(0, 5 if thorough else 4):
        for x in itertools.product(['"', '\\', 'u', 'n', '\n', 'é', '0'], repeat=a): r.append(('{f(a:"' + ''.join(x) + '")}', 'short'))
    for a in range(0, 5 if thorough else 4):
        for x in itertools.product(['"', '\\', ' ', '\n', 'é'], repeat=a): r.append(('{f(a:"""' + ''.join(x) + '""")}', 'short'))
    for a in ['0000', '0041', '007f', '0080', '07ff', '0800', 'd7ff', 'e000', 'ffff', 'FFFD', 'd83d', 'de00', 'D83D\\uDE00', 'd800\\udc00', 'dbff\\udfff', 'de00\\ud83d', 'd83d\\u0041', '004', '00g0',
              'd83d\\n', 'd83d\\ud83d\\ude00', '0041\\u0042\\u0043', 'd83d\\ude00\\ud83d\\ude01']:
        for pre, post in itertools.product(['', 'x', '\\n', '\\\\'], repeat=2): r.append(('{f(a:"' + pre + '\\u' + a + post + '")}', 'escape'))
    return r

def observed(v):
    r = {'t': v['t'], 'v': v['v'], 'v15': '', 'l': [observed(x) for x in v['l']], 'k': v['k']}
    if v['t'] == 'String': r['v'] = v['v'].encode('utf-8', 'surrogatepass').hex()
    if v['t'] == 'Float':
        r['v15'] = format(float(v['v']), '.15g')
        if not re.fullmatch(r'-?[0-9.]+(e[-+]?\d+)?', r['v15']): r['t'] = 'Float?'
    return r

def check(c):
    rnd = 0
    while True:
        one(c, f'{c.seed}.{rnd}' if rnd else str(c.seed), c.thorough and rnd == 0)
        rnd += 1
        if not c.thorough or c.violations or c.left(400) < 60: break
    c.rules.append('A case is one document with a literal as the argument of a field (or the default of its variable): random literals, some with a character changed, '
                   'all short texts over the characters of numbers and strings, and escapes; non-trivial: accepted, distinct.')
    c.assume += ['floating point literals have at most 15 significant digits, or are the 17 digits of a double', 'a number directly followed by a name, number or dot may be read either way']

def one(c, seed, deep):
    W = world()
    docs = documents(seed, 6000, deep)
    hl = [{'k': 'case', 'roots': [{'op': 'query', 'o': 'Query#0'}],
           'steps': [{'op': 'resolve', 'doc': d, 'opname': '', 'vars': vmap([]), 'launch': 'deferred', 'gates': [], 'st': ''}]} for d, _ in docs]
    size = len(hl) // 32 + 1
    chunks = [hl[i:i + size] for i in range(0, len(hl), size)]
    obs = [o for g in tracer.harness_parallel(build.harness(), 'exec', [[W] + g for g in chunks], c.dir('lit')) for o in g[1:]]
    tr = []
    for k, ((d, sort), o) in enumerate(zip(docs, obs)):
        b = d.encode('utf-8', 'surrogatepass')
        t = {'id': f't{k}', 'b': list(b), 's': b.decode('latin-1'), 'r': 'crash', 'exact': '0' if sort == 'changed' else '1', 'val': observed(NULL)}
        if o and 'steps' in o:
            s = o['steps'][0]
            calls = [e for e in s['ev'] if e['e'] == 'call']
            if s['r'] == 'parse': t['r'] = 'parse'
            elif calls:
                raw = calls[0]['raw']
                if raw['k'] == ['a']: t['r'] = 'value'; t['val'] = observed(raw['l'][0])
                else: t['r'] = 'noarg'
            else: t['r'] = 'skip' if sort == 'changed' else s['r']       # a change can make the document invalid
        tr.append(t)
    rej, st, out = tracer.check_traces('LiteralTrace', [tr[k::tracer.JOBS] for k in range(tracer.JOBS)], c.dir('lit'), want_output=True)
    for (d, sort), t in zip(docs, tr):
        if t['r'] == 'value': c.nontrivial(d)
    for d, _ in docs[:3]: c.sample({'document': d})
    c.add(evaluations=len(docs), traces_validated_against_impl=len(docs), states=st[0], transitions=st[1], accepted=sum(map(int, re.findall(r'<<"COUNT", (\d+)>>', out))))
    for i, _, asp in rej:
        k = int(i[1:])
        if tr[k]['r'] == 'crash':
            if not tracer.confirmed(c, build.harness(), 'exec', [W, hl[k]], obs[k]): continue
        c.violation(f'{sorted(asp)} for {docs[k][0]!r}: {dumps(tr[k]["val"])[:300]} {tr[k]["r"]}', {'mode': 'exec', 'lines': [W, hl[k]], 'observed': obs[k]})
