"""C27: schema documents, consistent or not, given to schemagen; Parser and SchemaDoc decide which it has to refuse, and why."""
import os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import pgen, sgen, tracer, build

TOKEN = re.compile(r'"""(?:[^"\\]|\\.|"(?!""))*"""|"(?:[^"\\\n]|\\.)*"|#[^\n]*|[A-Za-z_][A-Za-z0-9_]*|-?\d[\d.eE+-]*|\.\.\.|[\s,\ufeff]+|.', re.S)
NAME = re.compile(r'[A-Za-z_]\w*$')
KIND = ['type', 'interface', 'union', 'enum', 'input', 'scalar']
SOME = ['Int', 'String', 'ID', 'Float', 'Boolean', 'Nowhere', 'Query', 'Mutation', '__Type', 'Any']

class Doc:
    """A document as a list of definitions, each a list of tokens."""
    def __init__(self, rng, S):
        self.rng = rng
        sdl = sgen.Sdl(rng)
        defs = sdl.definitions(S)
        rng.shuffle(defs)
        flat = [x for g in defs for x in g[:1]]
        for g in defs:
            for x in g[1:]: flat.insert(rng.randint(0, len(flat)), x)
        self.defs = [TOKEN.findall(x) for x in flat]
        self.types = {k: [t['name'] for t in S.s['types'] if t['kind'] == K] for k, K in
                      {'type': 'OBJECT', 'interface': 'INTERFACE', 'union': 'UNION', 'enum': 'ENUM', 'input': 'INPUT', 'scalar': 'SCALAR'}.items()}
    def text(self): return '\n\n'.join(''.join(d) for d in self.defs) + '\n'
    def names(self): return [n for l in self.types.values() for n in l] + SOME
    def places(self, test): return [(i, j) for i, d in enumerate(self.defs) for j, t in enumerate(d) if test(t)]
    # --- what can go wrong
    def rename(self):
        """One use or definition of a type name becomes another name."""
        known = set(self.names())
        ps = self.places(lambda t: t in known)
        if ps:
            i, j = self.rng.choice(ps)
            self.defs[i][j] = self.rng.choice(self.names())
    def any_name(self):
        ps = self.places(lambda t: NAME.match(t))
        i, j = self.rng.choice(ps)
        self.defs[i][j] = self.defs[(k := self.rng.choice(ps))[0]][k[1]]
    def drop(self):
        if len(self.defs) > 1: self.defs.pop(self.rng.randrange(len(self.defs)))
    def again(self):
        d = list(self.rng.choice(self.defs))
        if self.rng.random() < .4:
            for j, t in enumerate(d):
                if t in KIND: d[j] = self.rng.choice(KIND); break
        self.defs.insert(self.rng.randint(0, len(self.defs)), d)
    def extend(self):
        k = self.rng.choice(KIND)
        n = self.rng.choice(self.names() if self.rng.random() < .5 or not self.types[k] else self.types[k])
        body = {'type': '{ extra: Int }', 'interface': '{ extra: Int }', 'union': f'= {self.rng.choice(self.names())}', 'enum': '{ EXTRA }', 'input': f'{{ extra: {self.rng.choice(self.names())} }}', 'scalar': '@x'}[k]
        self.defs.insert(self.rng.randint(0, len(self.defs)), TOKEN.findall(f'extend {k} {n} {body}'))
    def cycle(self):
        ins = self.types['input']
        if not ins: return
        for _ in range(self.rng.randint(1, 3)):
            a, b = self.rng.choice(ins), self.rng.choice(ins)
            t = self.rng.choice(['{}', '{}!', '[{}]', '[[{}!]!]!']).format(b)
            self.defs.append(TOKEN.findall(f'extend input {a} {{ cyc{self.rng.randint(0, 9)}: {t} }}'))
    def default(self):
        """Defaults which are null, variables, or hold them."""
        ps = [(i, j) for i, j in self.places(lambda t: t == ':')]
        v = self.rng.choice(['null', 'null', '$v', '[$v]', '{a: $v}', '[null]'])
        ps = [(i, j) for i, j in ps if self.defs[i][0] in ('input', 'extend', 'directive') or '(' in self.defs[i][:j]]
        if not ps: return
        i, j = self.rng.choice(ps)
        k = j + 1
        while k < len(self.defs[i]) and (self.defs[i][k].isspace() or self.defs[i][k] in '[]!' or NAME.match(self.defs[i][k]) and self.defs[i][k - 1] in (' ', '[')): k += 1
        self.defs[i].insert(k, f' = {v} ')
    def executable(self):
        x = self.rng.choice(['{ a }', 'query { a }', 'query Q($a: Int = null) { a }', 'fragment F on Query { a }', 'mutation M { a }', 'subscription { a }'])
        self.defs.insert(self.rng.randint(0, len(self.defs)) if not x.startswith('{') else 0, TOKEN.findall(x))
    def schema(self):
        ops = [f"{self.rng.choice(['query', 'mutation', 'subscription'])}: {self.rng.choice(self.names() if self.rng.random() < .3 else self.types['type'])}" for _ in range(self.rng.randint(1, 3))]
        self.defs.append(TOKEN.findall(f"{self.rng.choice(['', 'extend '])}schema {{ {' '.join(ops)} }}"))
    def unfield(self):
        """Takes a member out of a body."""
        ps = [(i, j) for i, j in self.places(lambda t: t == ':') if self.defs[i][0] in ('type', 'interface', 'input', 'extend', 'schema')]
        if not ps: return
        i, j = self.rng.choice(ps)
        d = self.defs[i]
        a = j
        while a > 0 and '\n' not in d[a]: a -= 1
        b = j
        while b < len(d) and '\n' not in d[b]: b += 1
        if a > 0 and b < len(d) and b - a > 2: del d[a:b]
    def field_again(self):
        ps = [(i, j) for i, j in self.places(lambda t: t == ':') if self.defs[i][0] in ('type', 'interface', 'input', 'extend', 'schema')]
        if not ps: return
        i, j = self.rng.choice(ps)
        d = self.defs[i]
        a = b = j
        while a > 0 and '\n' not in d[a]: a -= 1
        while b < len(d) and '\n' not in d[b]: b += 1
        if b < len(d): d[b:b] = d[a:b]
    def member_again(self):
        """A name of a list (members of unions and enumerations, interfaces, arguments) twice."""
        ps = self.places(lambda t: t in ('|', '&'))
        en = [i for i, d in enumerate(self.defs) if 'enum' in d[:4]]
        if en and (not ps or self.rng.random() < .4):
            d = self.defs[self.rng.choice(en)]
            vs = [t for t in d[d.index('{'):] if NAME.match(t)] if '{' in d else []
            if vs: d.insert(len(d) - 1, ' ' + self.rng.choice(vs) + ' ')
        elif ps:
            i, j = self.rng.choice(ps)
            d = self.defs[i]
            ns = [k for k in range(j + 1, len(d)) if NAME.match(d[k])]
            if ns: d[j:j] = [d[j], ' ', d[ns[0]], ' ']
    def token(self):
        """A broken or at least different text."""
        d = self.rng.choice(self.defs)
        j = self.rng.randrange(len(d))
        x = self.rng.random()
        if x < .4: del d[j]
        elif x < .7: d.insert(j, self.rng.choice(['{', '}', '(', ')', '!', ':', '|', '&', '=', '@', ' a ', ' type ', ' null ', '"', '$', '[', ' extend ', ' 1 ', ' on ']))
        else: d[j] = self.rng.choice(['{', '}', '(', ')', '!', ':', '|', '=', '@', ' a ', ' type ', '1'])
        if not d: self.defs.remove(d)

MISTAKES = ['rename'] * 5 + ['any_name', 'drop', 'drop', 'again', 'again', 'extend', 'extend', 'cycle', 'default', 'default', 'executable', 'schema', 'schema', 'unfield', 'unfield',
            'field_again', 'field_again', 'member_again', 'member_again', 'token']
def case(rng):
    while True:
        S = sgen.schema(rng, pdesc=.08)
        d = Doc(rng, S)
        made = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            m = rng.choice(MISTAKES)
            getattr(d, m)(); made.append(m)
            if not d.defs: break
        b = d.text().encode()
        if 0 < len(b) < 2600: return b, made

HAND = ['', 'type Query', 'type Query { a: Int }', 'type Query { a: Query }', 'scalar S', 'schema { query: Q } type Q { a: Int }', 'schema { mutation: Q } type Q { a: Int }',
        'interface Query { a: Int }', 'type Q { a: Int } extend schema { query: Q }', 'extend schema { mutation: M } type Query { a: Int } type M { a: Int }',
        'type Query { a: Int } extend schema @x', 'type Query { a(a: In): Int } input In { a: In }', 'type Query { a(a: In): Int } input In { a: [In!]! }',
        'type Query { a: Int } input A { b: B } input B { c: C } input C { a: A }', 'type Query { a: Int } input A { b: B } input B { c: C } input C { a: Int }',
        'type Query { a: Int } input A { b: B } input B { b: B } input C { a: A }',
        'type Query { a(b: Int! = null): Int }', 'type Query { a(b: Int = null): Int }', 'type Query { a(b: [Int!] = null): Int }', 'type Query { a(b: [Int]! = null): Int }',
        'type Query { a(b: [Int]! = [null]): Int }', 'type Query { a(b: Int = $v): Int }', 'directive @d(a: Nope) on FIELD type Query { a: Int }', 'directive @d(a: Query) on FIELD type Query { a: Int }',
        'directive @d on FIELD directive @d on QUERY type Query { a: Int }', 'union U = Query type Query { a: U }', 'union U = U type Query { a: U }', 'union U = Nope type Query { a: U }',
        'union U = Int type Query { a: U }', 'interface I { a: Int } type Query implements I { a: Int }', 'interface I { a: Int } type Query implements I { b: Int }',
        'type Query implements Query { b: Int }', 'type Query implements Int { b: Int }', 'interface I { a: Int } type Query implements I & I { a: Int }',
        'extend interface I { b: Int } interface I { a: Int } type Query implements I { a: Int }', 'interface I { a: Nope } type Query { a: Int }', 'interface I { a(b: Nope): Int } type Query { a: Int }',
        'interface I { a(b: I): Int } type Query { a: Int }', 'interface I { a(b: Int, b: Int): Int } type Query { a: Int }', 'type Int { a: Int } type Query { a: Int }', 'scalar ID type Query { a: ID }',
        'enum Boolean { A } type Query { a: Int }', 'input String { a: Int } type Query { a: Int }', 'union Float = Query type Query { a: Int }', 'interface Int { a: Int } type Query { a: Int }',
        'type Query { a: In } input In { a: Int }', 'type Query { a(b: Query): Int }', 'type Query { a(b: U): Int } union U = Query', 'enum E { A A } type Query { a: E }', 'enum E { A } extend enum E { A } type Query { a: E }',
        'enum E { A } extend enum E { B } type Query { a(e: E = B): E }', 'extend type Query { b: Int } type Query { a: Int }', 'extend type Query { b: Int }', 'extend input Query { b: Int } type Query { a: Int }',
        'extend scalar Int @d type Query { a: Int }', 'extend scalar S @d type Query { a: Int }', 'scalar S extend scalar S @d type Query { a: S }', 'schema { query: Query query: Query } type Query { a: Int }',
        'schema { query: Query } schema { mutation: Query } type Query { a: Int }', 'schema { query: Query subscription: Nope } type Query { a: Int }', 'schema { query: Query subscription: I } interface I { a: Int } type Query { a: Int }',
        'type Query { a: Int } query { a }', '{ a }', 'fragment F on Query { a }', 'type Query { a: Int } type Mutation { a: Nope }', 'type Query { a: Int } type Unused { a: In } input In { a: Int }',
        'type Query { a: Int } input Unused { a: Query }', 'type Query { a: Int', 'type Query { }', 'type Query { a: }', 'type { a: Int }', 'type Query { a: Int } type query { a: Int }', 'type query { a: Int }']

def run_case(gen, root, k, b):
    d = f'{root}/{k}'
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/s.graphql', 'wb') as f: f.write(b)
    try: p = subprocess.run([gen, '-s', f'{d}/s.graphql', '-p', 'P', '-n', 'ns', '--source-dir', d, '--header-dir', d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60)
    except subprocess.TimeoutExpired: return 'hang', ''
    shutil.rmtree(d, ignore_errors=True)
    err = p.stderr.decode(errors='replace')
    return str(p.returncode), err.rstrip('\n').split('\n')[0] if p.returncode else ''

def judge(texts, workdir):
    gen = build.schemagen()
    root = f'{workdir}/files'
    os.makedirs(root, exist_ok=True)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda kb: run_case(gen, root, kb[0], kb[1][1]), enumerate(texts)))
    tr = [{'id': i, 'b': list(b), 's': b.decode('latin-1'), 'rc': rc, 'said': said} for (i, b), (rc, said) in zip(texts, res)]
    shards = [tr[k::tracer.JOBS] for k in range(tracer.JOBS)]
    rej, st, out = tracer.check_traces('SchemaTrace', shards, workdir, want_output=True)
    return tr, rej, st, sum(map(int, re.findall(r'<<"COUNT", (\d+)>>', out)))

def request_groups(seed, groups, ndocs):
    """Random schemas, each with documents valid or not, and how the client generator is asked."""
    import suite_valid as sv
    gs = []
    for g in range(groups):
        rng = random.Random(f'C27r/{seed}/{g}')
        S = sv.valid_schema(rng)
        for t in S.s['types']:
            if t['kind'] == 'INPUT': t['inputs'] = [a for a in t['inputs'] if not (t['name'] == 'In1' and a['name'] == 'm')]
        nointro = rng.random() < .2
        if nointro: S.s['nointro'] = '1'
        d = sgen.Sdl(rng)
        sdl = d.document(S)
        cases = []
        for n in range(ndocs):
            pid = rng.choice(['C03', 'C04', 'C05', 'C06', 'C07'])
            while True:
                doc = sv.document(rng, S, pid)
                if not doc.get('sdl'): break
            names = [o['name'] for o in doc['ops']]
            ask = rng.choice(names + ['', '', 'Nobody'])
            cases.append({'doc': doc, 'text': sv.Printer(rng, .03).document(doc), 'ask': ask})
        gs.append({'S': S, 'sdl': sdl, 'nointro': nointro, 'cases': cases, 'world': dict(sv.tla_schema(S), id=f'q{g}')})
    return gs

def run_request(gen, d, g, k, x):
    f = f'{d}/{k}.graphql'
    with open(f, 'w') as o: o.write(x['text'])
    out = f'{d}/{k}'
    os.makedirs(out, exist_ok=True)
    cmd = [gen, '-s', f'{d}/schema.graphql', '-r', f, '-p', 'P', '-n', 'ns', '--source-dir', out, '--header-dir', out]
    if x['ask']: cmd += ['-o', x['ask']]
    if g['nointro']: cmd.append('--no-introspection')
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=out, timeout=60)
    except subprocess.TimeoutExpired: return {'r': 'hang', 'said': ''}
    err = p.stderr.decode(errors='replace')
    made = os.path.exists(f'{out}/PClient.h') and os.path.exists(f'{out}/PClient.cpp')
    shutil.rmtree(out, ignore_errors=True)
    if p.returncode == 0: return {'r': 'accepted' if made else 'nothing generated', 'said': ''}
    if p.returncode == 1 and err.startswith('Invalid Request:\n\tmessage: '): return {'r': 'invalid', 'said': err}
    return {'r': f'status {p.returncode}', 'said': err}

def judge_requests(gs, workdir):
    gen = build.clientgen()
    jobs = []
    for n, g in enumerate(gs):
        d = f'{workdir}/req{n}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(f'{d}/schema.graphql', 'w') as f: f.write(g['sdl'])
        jobs += [(d, g, k, x) for k, x in enumerate(g['cases'])]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: run_request(gen, *j), jobs))
    for (d, g, k, x), r in zip(jobs, res): x.update(r)
    import suite_valid as sv
    tr = []
    for n, g in enumerate(gs):
        t = [g['world']]
        for k, x in enumerate(g['cases']):
            said = x['said']
            # an operation which is not there is the one thing clientgen refuses in valid requests
            missing = x['ask'] and x['ask'] not in [o['name'] for o in x['doc']['ops']]
            gone = said.startswith(f'Invalid Request:\n\tmessage: Missing operation name: {x["ask"]},') if missing else False
            r = {'accepted': ('errors', '1'), 'invalid': ('errors', '0')}.get(x['r'], (x['r'], '0'))
            if missing and gone: r = ('errors', '1')
            elif missing and x['r'] == 'accepted': r = ('no such operation', '0')
            t.append({'k': 'case', 'id': f'q{n}.{k}', 'w': 0, 'docs': [sv.tla_doc(x['doc'])], 'steps': [{'op': 'validate', 'di': 1, 'sid': '', 'cbs': [], 'r': r[0], 'ok': r[1], 'errs': '', 'ran': '0'}]})
        tr.append(t)
        shutil.rmtree(f'{workdir}/req{n}', ignore_errors=True)
    from suite_exec import shard
    rej, st = tracer.check_traces('ValidTrace', shard(tr, tracer.JOBS), workdir)
    return rej, st

# --------------------------------------------------------------------- check
def check(c):
    rnd = 0
    while True:
        texts = [(f'h{k}', t.encode()) for k, t in enumerate(HAND)] if rnd == 0 else []
        for k in range(320 if not c.thorough else 1600):
            b, made = case(random.Random(f'C27/{c.seed}/{c.tier}/{rnd}/{k}'))
            texts.append((f'r{k}:{"+".join(made)}', b))
        tr, rej, st, accepted = judge(texts, c.dir('schema'))
        by = {t['id']: t for t in tr}
        for k, t in enumerate(tr):
            if t['rc'] != '0': c.nontrivial(t['s'])
            if k % 90 == 5: c.sample({'schema': t['s'][:400], 'status': t['rc'], 'said': t['said']})
        c.add(evaluations=len(tr), traces_validated_against_impl=len(tr), states=st[0], transitions=st[1], accepted=accepted)
        for i, _, asp in rej:
            t = by[i]
            text = bytes(t['b']).decode(errors='replace')
            c.violation(f'{i}: {sorted(asp)} (status {t["rc"]}, said: {t["said"]})\n{text[:1500]}', {'mode': 'schemadoc', 'schema': text, 'status': t['rc'], 'said': t['said']})
        gs = request_groups(f'{c.seed}/{c.tier}/{rnd}', 10 if not c.thorough else 60, 24)
        rej, st = judge_requests(gs, c.dir('requests'))
        xs = [x for g in gs for x in g['cases']]
        for x in xs:
            if x['r'] != 'accepted': c.nontrivial(x['text'])
        c.add(evaluations=len(xs), traces_validated_against_impl=len(xs), states=st[0], transitions=st[1], requests=len(xs))
        for i, _, asp in rej:
            g, k = map(int, i[1:].split('.'))
            x = gs[g]['cases'][k]
            c.violation(f'request {i}: {sorted(asp)} (clientgen: {x["r"]}; operation asked for: {x["ask"] or "any"}; said: {x["said"][:300]})\n{x["text"][:1200]}',
                        {'mode': 'clientgen', 'schema': gs[g]['sdl'], 'request': x['text'], 'operation': x['ask'], 'no-introspection': gs[g]['nointro'], 'result': x['r'], 'said': x['said']})
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 120: break
    c.rules.append('A case is a schema document with no, one or two seeded mistakes given to schemagen (or one of a table of short documents), or a request, valid or not, given to clientgen with a schema; non-trivial when it is refused.')
