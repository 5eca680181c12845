"""Schemas and documents for the validation suite: valid documents and documents with seeded mistakes.  Whether a document
is valid is decided by Valid.tla alone; the mutators only have to be interesting."""
import copy, random
from gen import *
from meta import SCALARS, META

SHARED = ['a', 'b', 'c', 'd', 'e']

def valid_schema(rng):
    """Field names are shared between types, with equal, similar and different types and arguments."""
    objs = [f'O{i}' for i in range(rng.randint(2, 4))]
    ifaces = [f'I{i}' for i in range(rng.randint(0, 2))]
    unions = [f'U{i}' for i in range(rng.randint(0, 2))]
    comps = objs + ifaces + unions
    T = [ty('ENUM', 'Color', values=[{'name': v, 'dep': []} for v in ('RED', 'GREEN', 'BLUE')]),
         ty('ENUM', 'Size', values=[{'name': v, 'dep': []} for v in ('RED', 'BIG')]), ty('SCALAR', 'Any')]
    i0, i1 = ty('INPUT', 'In0'), ty('INPUT', 'In1')
    T += [i0, i1]
    S0 = Schema({'types': T, 'directives': []})
    def rdef(t, p=.4): return literal_text(rng, S0, t) if rng.random() < p else ''
    for n, t in (('i', typ('Int', *wraps(rng))), ('s', typ('String', *wraps(rng, 1))), ('c', typ('Color')), ('k', typ('ID'))):
        i0['inputs'].append(argdef(n, t, rdef(t, .3)))
    i1['inputs'] = [argdef('n', typ('In0', *wraps(rng, 1))), argdef('f', typ('Float'), rng.choice(['', '1.5'])), argdef('r', typ('Int', 'N'))]
    if rng.random() < .5: i1['inputs'].append(argdef('o', typ('Boolean', 'N'), 'true'))
    if rng.random() < .3: i1['inputs'].append(argdef('m', typ('In1', *rng.choice([[], ['L'], ['L', 'N']]))))
    i1['inputs'][2]['def'] = rng.choice(['', '', '3'])
    ARGT = ['Int', 'Float', 'String', 'Boolean', 'ID', 'Color', 'Size', 'In0', 'In1', 'In1', 'Any']
    def rargs(p=.5):
        r = []
        if rng.random() > p: return r
        for i in range(rng.choice([1, 1, 2, 3])):
            t = typ(rng.choice(ARGT), *wraps(rng))
            r.append(argdef('pqr'[i], t, rdef(t, .25)))
        return r
    leafpool = [typ(rng.choice(LEAF + ['Color', 'Size', 'Any']), *wraps(rng)) for _ in range(3)]
    comppool = [typ(rng.choice(comps), *wraps(rng)) for _ in range(3)]
    argpool = [[], [], rargs(1), rargs(1)]
    def rfields(names):
        r = []
        for n in names:
            t = copy.deepcopy(rng.choice(comppool if rng.random() < .4 else leafpool))
            if rng.random() < .15: t['w'] = wraps(rng)
            r.append(fielddef(n, t, copy.deepcopy(rng.choice(argpool) if rng.random() < .7 else rargs())))
        return r
    idefs = {}
    for k, i in enumerate(ifaces): idefs[i] = rfields([f'i{k}'] + rng.sample(SHARED, rng.randint(0, 1)))
    for i in ifaces: T.append(ty('INTERFACE', i, fields=copy.deepcopy(idefs[i])))
    for o in objs:
        im = [i for i in ifaces if rng.random() < .6]
        fs, have = [], set()
        for i in im:
            if have & {f['name'] for f in idefs[i]}: im = im[:im.index(i)]; break
            fs += copy.deepcopy(idefs[i]); have |= {f['name'] for f in idefs[i]}
        T.append(ty('OBJECT', o, ifaces=im, fields=fs + rfields([n for n in rng.sample(SHARED, rng.randint(2, 4)) if n not in have])))
    for i in ifaces:
        if not any(i in t['ifaces'] for t in T):
            for t in T:
                if t['name'] == objs[0]:
                    names = {f['name'] for f in idefs[i]}
                    # several interfaces may only share a field if it is the same field
                    if names & {f['name'] for j in t['ifaces'] for f in idefs[j]}:
                        T.append(ty('OBJECT', f'X{i}', ifaces=[i], fields=copy.deepcopy(idefs[i]))); objs.append(f'X{i}')
                    else:
                        t['ifaces'].append(i); t['fields'] = [f for f in t['fields'] if f['name'] not in names] + copy.deepcopy(idefs[i])
                    break
    for u in unions: T.append(ty('UNION', u, members=rng.sample(objs, rng.randint(1, len(objs)))))
    root = lambda n, p: ty('OBJECT', n, fields=[fielddef(f'{p}{i}', typ(c, *wraps(rng)), rargs(.3)) for i, c in enumerate(comps)] + rfields(rng.sample(SHARED, 3)))
    T.append(root('Query', 'q'))
    mut, sub = rng.random() < .8, rng.random() < .8
    if mut: T.append(root('Mutation', 'm'))
    if sub: T.append(root('Subscription', 's'))
    D = copy.deepcopy(BUILTIN_DIRS)
    for i in range(4):
        locs = list(EXEC_LOCS) if i == 0 else rng.sample(EXEC_LOCS, rng.randint(1, 6))
        args = []
        for n in 'xyz'[:rng.choice([0, 1, 2, 3])]:
            t = typ(rng.choice(ARGT), *wraps(rng)); args.append(argdef(n, t, rdef(t, .3)))
        D.append({'name': f'd{i}', 'locs': locs, 'args': args})
    s = {'types': T, 'directives': D, 'query': 'Query', 'mutation': 'Mutation' if mut else '', 'subscription': 'Subscription' if sub else ''}
    if rng.random() < .15: s['nointro'] = '1'
    return Schema(s)

def tla_schema(S):
    """The world as Valid.tla reads it."""
    def arg_(a): return {'name': a['name'], 'n': a['type']['n'], 'w': a['type']['w'], 'def': a['def']}
    none = {'kind': 'NONE', 'poss': [], 'fields': {'_': {'n': '', 'w': [], 'args': []}}, 'inputs': [], 'values': []}
    types = {'_': none}
    all_ = SCALARS + (META if S.s.get('nointro') != '1' else META) + S.s['types']
    for t in all_:
        fs = {'_': {'n': '', 'w': [], 'args': []}}
        for f in t['fields']: fs[f['name']] = {'n': f['type']['n'], 'w': f['type']['w'], 'args': [arg_(a) for a in f['args']]}
        poss = S.possible(t['name']) if t['name'] in S.types and t['kind'] in ('OBJECT', 'INTERFACE', 'UNION') else ([t['name']] if t['kind'] == 'OBJECT' else [])
        types[t['name']] = {'kind': t['kind'], 'poss': poss, 'fields': fs, 'inputs': [arg_(a) for a in t['inputs']], 'values': [v['name'] for v in t['values']]}
    dirs = {'_': {'locs': [], 'args': []}}
    for d in S.s['directives']: dirs[d['name']] = {'locs': d['locs'], 'args': [arg_(a) for a in d['args']]}
    return {'k': 'world', 'types': types, 'dirs': dirs, 'query': S.s['query'], 'mutation': S.s['mutation'], 'subscription': S.s['subscription'],
            'intro': '0' if S.s.get('nointro') == '1' else '1'}

def tla_doc(d):
    """Without positions (they do not matter for validity)."""
    def sel(s):
        return {k: ([sel(x) for x in s['sel']] if k == 'sel' else s[k]) for k in ('k', 'a', 'n', 'on', 'args', 'dirs', 'sel', 'has')}
    return {'ops': [{'type': o['type'], 'name': o['name'], 'vars': o['vars'], 'dirs': o['dirs'], 'sel': [sel(s) for s in o['sel']]} for o in d['ops']],
            'frags': [{'n': f['n'], 'on': f['on'], 'dirs': f['dirs'], 'sel': [sel(s) for s in f['sel']]} for f in d['frags']],
            'sdl': '1' if d.get('sdl') else '0'}

# ---------------------------------------------------------------- introspection selections
def meta_field(rng, S, P, d):
    """A random selection on the introspection types."""
    M = {t['name']: t for t in META}
    def sels(P, d):
        r = []
        for f in rng.sample(M[P]['fields'], min(len(M[P]['fields']), rng.randint(1, 3))):
            comp = f['type']['n'] in M and M[f['type']['n']]['kind'] == 'OBJECT'
            if comp and d <= 0: continue
            args = [arg('includeDeprecated', vbool(rng.random() < .5))] if f['args'] and rng.random() < .5 else []
            r.append(fld(f['name'], '', args, [], sels(f['type']['n'], d - 1) if comp else None))
        return r or [fld('__typename')]
    if rng.random() < .5: return fld('__schema', rng.choice(['', 'sc']), [], [], sels('__Schema', d))
    return fld('__type', rng.choice(['', 'ty']), [arg('name', vstr(rng.choice(['Query', 'In0', 'Nope'])))], [], sels('__Type', d))

# ---------------------------------------------------------------- walking documents
def walk(S, d):
    """Every selection list with the type it is selected on ('' when unknown), and its owner."""
    M = {t['name']: t for t in META}
    out = []
    def ftype(P, n):
        if n == '__typename': return typ('String', 'N')
        if P == S.s['query'] and n == '__schema': return typ('__Schema', 'N')
        if P == S.s['query'] and n == '__type': return typ('__Type')
        t = S.types.get(P) or M.get(P)
        for f in (t['fields'] if t else []):
            if f['name'] == n: return f['type']
        return typ('')
    def go(P, ss, depth):
        out.append((P, ss, depth))
        for s in ss:
            if s['k'] == 'field':
                if s['has'] == '1': go(ftype(P, s['n'])['n'], s['sel'], depth + 1)
            elif s['k'] == 'inline': go(s['on'] or P, s['sel'], depth + 1)
    for o in d['ops']: go(S.s[o['type']], o['sel'], 0)
    for f in d['frags']: go(f['on'], f['sel'], 0)
    return out
def fields_of(S, d):
    return [(P, ss, i) for P, ss, _ in walk(S, d) for i, s in enumerate(ss) if s['k'] == 'field']
def fdef(S, P, n):
    M = {t['name']: t for t in META}
    t = S.types.get(P) or M.get(P)
    for f in (t['fields'] if t else []):
        if f['name'] == n: return f
    return None
def spreads(S, d): return [(ss, i) for _, ss, _ in walk(S, d) for i, s in enumerate(ss) if s['k'] == 'spread']
def inlines(S, d): return [(P, ss, i) for P, ss, _ in walk(S, d) for i, s in enumerate(ss) if s['k'] == 'inline']
def dirplaces(S, d):
    r = [(o['type'].upper(), o['dirs']) for o in d['ops']] + [('FRAGMENT_DEFINITION', f['dirs']) for f in d['frags']]
    L = {'field': 'FIELD', 'spread': 'FRAGMENT_SPREAD', 'inline': 'INLINE_FRAGMENT'}
    return r + [(L[s['k']], s['dirs']) for _, ss, _ in walk(S, d) for s in ss]
def arglists(S, d):
    """(definitions or None, argument list)"""
    r = []
    for P, ss, i in fields_of(S, d):
        f = fdef(S, P, ss[i]['n'])
        r.append((f['args'] if f else [argdef('name', typ('String', 'N'))] if ss[i]['n'] == '__type' else None, ss[i]['args']))
    return r
def dirargs(S, d):
    return [(S.dirs[x['n']]['args'] if x['n'] in S.dirs else None, x['args']) for _, ds in dirplaces(S, d) for x in ds]

def pick(rng, l): return rng.choice(l) if l else None
def anytype(rng, S): return rng.choice(list(S.types) + ['Int', 'String', 'Nope', '__Type', '__Schema'])
def comptype(rng, S): return rng.choice([t['name'] for t in S.s['types'] if t['kind'] in ('OBJECT', 'INTERFACE', 'UNION')])

def respread(rng, S, d, ss, f):
    ss.insert(rng.randint(0, len(ss)), spread(f) if rng.random() < .8 else inline('', [spread(f)]))

def chain(rng, S, d):
    """Moves a selection list behind a chain of fragments (valid if it was); sometimes the chain bites its own tail."""
    ok = [(P, ss) for P, ss, _ in walk(S, d) if ss and P in S.types]
    if not ok: return
    P, ss = rng.choice(ok)
    n = rng.choice([2, 3, 5, 8, 12])
    names = [f'C{len(d["frags"])}x{i}' for i in range(n)]
    body = list(ss)
    ss[:] = [spread(names[0])] if rng.random() < .7 else [spread(names[0]), copy.deepcopy(rng.choice(body))]
    for i, nm in enumerate(names):
        sel = body if i + 1 == n else [spread(names[i + 1])] if rng.random() < .7 else [inline(rng.choice(['', P]), [spread(names[i + 1])])]
        if i + 1 < n and rng.random() < .2: sel.insert(rng.randint(0, 1), fld('__typename'))
        f = frag(nm, P, sel)
        d['frags'].append(f); d['order'].insert(rng.randint(0, len(d['order'])), f'f{len(d["frags"]) - 1}')
    if rng.random() < .15: body.append(spread(rng.choice(names)))

# ------------------------------------------------------------ C03
def m_op_dup(rng, S, d):
    o = copy.deepcopy(rng.choice(d['ops']))
    if rng.random() < .4: o['name'] = rng.choice(['', o['name'] + 'x'])
    if rng.random() < .3: o['type'] = rng.choice(['query', 'mutation', 'subscription'])
    o['short'] = '0'
    d['ops'].append(o); d['order'].insert(rng.randint(0, len(d['order'])), f'o{len(d["ops"]) - 1}')
def m_op_anon(rng, S, d): rng.choice(d['ops'])['name'] = ''
def m_op_simple(rng, S, d):
    t = rng.choice(['query', 'query', 'mutation', 'subscription'])
    o = op(t, rng.choice(['', 'Z', 'Op0', 'F0']), [], [], [fld('__typename')], short=False)
    if t == 'query' and not o['name'] and rng.random() < .5: o['short'] = '1'
    d['ops'].append(o); d['order'].insert(rng.randint(0, len(d['order'])), f'o{len(d["ops"]) - 1}')
def m_op_kind(rng, S, d):
    o = rng.choice(d['ops']); o['type'] = rng.choice(['query', 'mutation', 'subscription']); o['short'] = '0'
def m_frag_dup(rng, S, d):
    f = pick(rng, d['frags'])
    if not f: return
    g = copy.deepcopy(f)
    if rng.random() < .5: g['on'] = comptype(rng, S)
    if rng.random() < .5: g['sel'] = [fld('__typename')]
    d['frags'].append(g); d['order'].insert(rng.randint(0, len(d['order'])), f'f{len(d["frags"]) - 1}')
def m_frag_unused(rng, S, d):
    if rng.random() < .5 and d['frags']:
        n = rng.choice(d['frags'])['n']
        for _, ss, _ in walk(S, d):
            for s in ss:
                if s['k'] == 'spread' and s['n'] == n and rng.random() < .9: s.update(fld('__typename'))
    else:
        n = f'F{len(d["frags"])}'
        f = frag(n, comptype(rng, S), [fld('__typename')])
        if rng.random() < .3: f['sel'].append(spread(rng.choice([n] + [x['n'] for x in d['frags']])))
        d['frags'].append(f); d['order'].insert(rng.randint(0, len(d['order'])), f'f{len(d["frags"]) - 1}')
def m_frag_undef(rng, S, d):
    x = pick(rng, spreads(S, d))
    if x and rng.random() < .6: x[0][x[1]]['n'] = rng.choice(['Nope', 'f0', 'F', 'F9', 'Op0', 'Query'])
    else:
        _, ss, _ = rng.choice(walk(S, d)); respread(rng, S, d, ss, rng.choice(['Nope', 'F9']))
def m_frag_cycle(rng, S, d):
    if not d['frags']: return
    f = rng.choice(d['frags'])
    P, ss, _ = rng.choice([w for g in [f] for w in walk(S, {'ops': [], 'frags': [g]})])
    respread(rng, S, d, ss, rng.choice(d['frags'])['n'])
def m_frag_type(rng, S, d):
    if d['frags']: rng.choice(d['frags'])['on'] = anytype(rng, S)
def m_inline_type(rng, S, d):
    x = pick(rng, inlines(S, d))
    if x and rng.random() < .5: x[1][x[2]]['on'] = rng.choice([anytype(rng, S), comptype(rng, S)])
    else:
        _, ss, _ = rng.choice(walk(S, d)); ss.insert(rng.randint(0, len(ss)), inline(rng.choice([anytype(rng, S), comptype(rng, S)]), [fld('__typename')]))
def m_frag_new(rng, S, d):
    n = f'F{len(d["frags"])}'
    f = frag(n, comptype(rng, S), [fld('__typename')])
    d['frags'].append(f); d['order'].insert(rng.randint(0, len(d['order'])), f'f{len(d["frags"]) - 1}')
    for _ in range(rng.randint(1, 2)):
        _, ss, _ = rng.choice(walk(S, d)); respread(rng, S, d, ss, n)
SDL = ['type X { a: Int }', 'schema { query: Query }', 'scalar Foo', 'directive @foo on FIELD', 'extend type Query { zz: Int }', 'enum E { A }', 'input J { a: Int }', 'union V = O0', 'interface K { a: Int }', 'extend schema { mutation: O0 }', '"d" type Y { a: Int }']
def m_sdl(rng, S, d):
    d.setdefault('sdl', []).append(' ' + rng.choice(SDL) + ' ')
    d['order'].insert(rng.randint(0, len(d['order'])), f's{len(d["sdl"]) - 1}')
def m_subroot(rng, S, d):
    if not S.s['subscription']: return
    os = [o for o in d['ops'] if o['type'] == 'subscription']
    if not os:
        o = op('subscription', f'Op{len(d["ops"])}', [], [], [fld('__typename')])
        d['ops'].append(o); d['order'].append(f'o{len(d["ops"]) - 1}')
    else: o = rng.choice(os)
    g = DocGen(rng, S, depth=1, width=1, pvar=0)
    f = g.field(S.s['subscription'], 1) if rng.random() < .5 else fld('__typename', rng.choice(['', 'tn']))
    r = rng.random()
    if r < .3: o['sel'].append(f)
    elif r < .5: o['sel'].append(inline(rng.choice(['', S.s['subscription']]), [f]))
    elif r < .6: o['sel'].append(copy.deepcopy(rng.choice(o['sel'])))
    elif r < .7: o['sel'][0] = inline('', [copy.deepcopy(o['sel'][0]), f])
    else:
        n = f'F{len(d["frags"])}'
        d['frags'].append(frag(n, S.s['subscription'], [f])); d['order'].append(f'f{len(d["frags"]) - 1}')
        o['sel'].append(spread(n))
# ------------------------------------------------------------ C04
def m_field_name(rng, S, d):
    P, ss, i = rng.choice(fields_of(S, d))
    ss[i]['n'] = rng.choice(SHARED + ['i0', 'q0', 'nope', '__typename', '__schema', '__type', 'name', 'A', ss[i]['n'] + 'x'])
    if rng.random() < .3: ss[i]['args'] = []
def m_field_add(rng, S, d):
    P, ss, _ = rng.choice(walk(S, d))
    n = rng.choice(SHARED + ['i0', 'i1', '__typename', '__schema', 'nope'])
    ss.insert(rng.randint(0, len(ss)), fld(n, rng.choice(['', '', 'x', 'y', 'a', 'b']), [], [], rng.choice([None, None, [fld('__typename')]])))
def m_leaf(rng, S, d):
    P, ss, i = rng.choice(fields_of(S, d))
    if ss[i]['has'] == '0': ss[i].update(has='1', sel=[fld(rng.choice(['__typename', 'a', 'nope']))])
    else: ss[i].update(has='0', sel=[])
def m_composite_bare(rng, S, d):
    x = [(P, ss, i) for P, ss, i in fields_of(S, d) if ss[i]['has'] == '1']
    x = pick(rng, x)
    if x: x[1][x[2]].update(has='0', sel=[])
def m_alias(rng, S, d):
    fs = fields_of(S, d)
    P, ss, i = rng.choice(fs)
    others = [s['a'] or s['n'] for _, l, j in fs for s in [l[j]]]
    here = [s['a'] or s['n'] for s in ss if s['k'] == 'field']
    ss[i]['a'] = rng.choice(others + here * 3)
def m_repeat(rng, S, d):
    """A copy of a field elsewhere under the same parent, slightly changed."""
    P, ss, i = rng.choice(fields_of(S, d))
    c = copy.deepcopy(ss[i])
    r = rng.random()
    if r < .3 and c['args']:
        a = rng.choice(c['args']); a['v'] = mutate_value(rng, S, a['v'])
    elif r < .4: c['args'] = []
    elif r < .5 and len(c['args']) > 1: c['args'].reverse()
    elif r < .7 and c['has'] == '1':
        x = pick(rng, fields_of(S, {'ops': [], 'frags': [{'on': P, 'sel': [c]}]})[1:])
        if x: x[1][x[2]]['n'] = rng.choice(SHARED); x[1][x[2]]['a'] = rng.choice(['', x[1][x[2]]['a'], 'a', 'b'])
    elif r < .85:
        c['a'] = c['a'] or c['n']; c['n'] = rng.choice(SHARED)
    r = rng.random()
    if r < .4: ss.insert(rng.randint(0, len(ss)), c)
    elif r < .75:
        on = rng.choice(['', P or 'Query', comptype(rng, S)])
        ss.append(inline(on, [c]))
    else:
        n = f'F{len(d["frags"])}'
        d['frags'].append(frag(n, P or 'Query', [c])); d['order'].append(f'f{len(d["frags"]) - 1}')
        ss.insert(rng.randint(0, len(ss)), spread(n))
def m_meta(rng, S, d):
    qs = [ss for P, ss, _ in walk(S, d) if P == S.s['query']] if rng.random() < .75 else [ss for _, ss, _ in walk(S, d)]
    if not qs: return
    ss = rng.choice(qs); ss.insert(rng.randint(0, len(ss)), meta_field(rng, S, 'Query', rng.randint(1, 3)))
def merge_sels(rng, S, P, d, n):
    """Selections with many clashes of response names: built from few aliases and all the possible types of P."""
    r = []
    for _ in range(n):
        x = rng.random()
        if x < .35 and d > -2:
            poss = [t['name'] for t in S.s['types'] if t['kind'] in ('OBJECT', 'INTERFACE', 'UNION') and set(S.possible(t['name'])) & set(S.possible(P))]
            on = rng.choice(poss)
            r.append(inline(on, merge_sels(rng, S, on, d - 1, rng.randint(1, 2)), [])); continue
        fs = S.types[P]['fields'] if S.kind(P) != 'UNION' else []
        fs = [f for f in fs if d > 0 or not S.composite(f['type']['n'])]
        if not fs: r.append(fld('__typename', rng.choice(['', '', 'x']))); continue
        f = rng.choice(fs)
        args = []
        for a in f['args']:
            if (a['type']['w'][:1] == ['N'] and not a['def']) or rng.random() < .3: args.append(arg(a['name'], simple_value(rng, S, a['type'])))
        comp = S.composite(f['type']['n'])
        r.append(fld(f['name'], rng.choice(['', '', '', 'x', 'a']), args, [], merge_sels(rng, S, f['type']['n'], d - 1, rng.randint(1, 2)) if comp else None))
    return r
def simple_value(rng, S, t):
    """One of few values of the type, so that equal arguments are frequent."""
    return valid_value(random.Random(f'{dumps(t)}{rng.randint(0, 1)}'), S, t, novar=True, nonnull=True)
def m_merge(rng, S, d):
    # a fresh operation of clashing selections
    o = op('query', f'M{len(d["ops"])}', [], [], merge_sels(rng, S, S.s['query'], rng.randint(1, 2), rng.randint(2, 4)))
    if rng.random() < .7: d['ops'], d['frags'], d['order'] = [o], [], ['o0']
    else: d['ops'].append(o); d['order'].append(f'o{len(d["ops"]) - 1}')
# ------------------------------------------------------------ C05
def mutate_value(rng, S, v):
    """A value like v but different somewhere."""
    if v['t'] in ('List', 'Map') and v['l'] and rng.random() < .6:
        v = copy.deepcopy(v); i = rng.randrange(len(v['l'])); v['l'][i] = mutate_value(rng, S, v['l'][i]); return v
    r = rng.random()
    if v['t'] == 'Map':
        v = copy.deepcopy(v)
        if r < .3 and v['k']: i = rng.randrange(len(v['k'])); v['k'][i] = rng.choice(['i', 's', 'c', 'n', 'f', 'r', 'zz'])
        elif r < .5 and v['k']: i = rng.randrange(len(v['k'])); del v['k'][i]; del v['l'][i]
        elif r < .65 and v['k']:
            i = rng.randrange(len(v['k'])); v['k'].append(v['k'][i]); v['l'].append(copy.deepcopy(v['l'][i]))
        elif r < .9: v['k'].append(rng.choice(['i', 's', 'c', 'zz', 'r'])); v['l'].append(rng.choice([vint(1), NULL, vstr('x'), venum('RED')]))
        else: return rng.choice([vint(1), vlist([v]), NULL])
        return v
    if v['t'] == 'List':
        v = copy.deepcopy(v)
        if r < .6: v['l'].insert(rng.randint(0, len(v['l'])), rng.choice([NULL, vint(3), vstr('x'), vlist([]), venum('BIG')])); return v
    if v['t'] == 'String' and r < .5:
        return rng.choice([vstr(v['v'] + '='), vstr(v['v'][:-1]), vstr(v['v'] + 'A'), vstr('@@@@'), vstr('QR=='), vstr('QUJ='), vstr('QUI'), vstr(''), vstr('QQ')])
    if v['t'] == 'Int' and r < .5:
        return rng.choice([vint(2147483648), vint(-2147483649), vint(2147483647), vint(-2147483648), vint(4294967296), vint(99999999999), vfloat(0.5), vint(9007199254740993)])
    if v['t'] == 'Enum' and r < .5: return rng.choice([venum('RED'), venum('BIG'), venum('PURPLE'), venum('red'), vstr('RED')])
    return rng.choice([NULL, vint(1), vfloat(0.5), vstr('x'), vstr('QQ=='), vbool(True), venum('RED'), venum('BIG'), vlist([]), vlist([vint(1)]), vlist([NULL]), vmap([]), vmap([('i', vint(1))]), vmap([('r', vint(1))])])
def m_arg_value(rng, S, d, lists=None):
    l = [(ds, a) for ds, args in (lists or arglists)(S, d) for a in args]
    x = pick(rng, l)
    if x: x[1]['v'] = mutate_value(rng, S, x[1]['v'])
def m_arg_drop(rng, S, d, lists=None):
    l = [args for _, args in (lists or arglists)(S, d) if args]
    x = pick(rng, l)
    if x: del x[rng.randrange(len(x))]
def m_arg_dup(rng, S, d, lists=None):
    x = pick(rng, [args for _, args in (lists or arglists)(S, d) if args])
    if x:
        a = copy.deepcopy(rng.choice(x))
        if rng.random() < .4: a['v'] = mutate_value(rng, S, a['v'])
        x.insert(rng.randint(0, len(x)), a)
def m_arg_name(rng, S, d, lists=None):
    x = pick(rng, [args for _, args in (lists or arglists)(S, d) if args])
    if x: rng.choice(x)['n'] = rng.choice(['p', 'q', 'r', 'x', 'y', 'P', 'zz', 'if'])
def m_arg_add(rng, S, d, lists=None):
    x = pick(rng, (lists or arglists)(S, d))
    if x:
        a = pick(rng, x[0] or [])
        if a and rng.random() < .7: x[1].append(arg(a['name'], valid_value(rng, S, a['type'], novar=True)))
        else: x[1].append(arg(rng.choice(['p', 'q', 'x', 'zz', 'if', 'name']), rng.choice([vint(1), NULL, vbool(True), vstr('x')])))
def m_arg_all(rng, S, d):
    """Adds a field with all its arguments (many literals at once)."""
    cands = [(P, f) for t in S.s['types'] if t['kind'] in ('OBJECT', 'INTERFACE') for P in [t['name']] for f in t['fields'] if f['args']]
    here = [(ss, f) for Q, ss, _ in walk(S, d) for P, f in cands if P == Q]
    if not here: return
    ss, f = rng.choice(here)
    n = f'z{rng.randint(0, 999)}'
    args = [arg(a['name'], valid_value(rng, S, a['type'], novar=True)) for a in f['args']]
    if rng.random() < .6:
        a = rng.choice(args); a['v'] = mutate_value(rng, S, a['v'])
    ss.append(fld(f['name'], n, args, [], [fld('__typename')] if S.composite(f['type']['n']) else None))
def m_input(rng, S, d):
    """A field with an input object argument that has something wrong at some depth."""
    l = [(f, ss, a) for P, ss, _ in walk(S, d) for t in [S.types.get(P)] if t for f in t['fields'] for a in f['args'] if a['type']['n'] in ('In0', 'In1')]
    x = pick(rng, l)
    if not x: return m_arg_all(rng, S, d)
    f, ss, a = x
    args = [arg(b['name'], valid_value(rng, S, b['type'], novar=True, nonnull=True)) for b in f['args'] if b is a or (b['type']['w'][:1] == ['N'] and not b['def'])]
    maps = []
    def go(v):
        if v['t'] == 'Map': maps.append(v)
        for y in v['l']: go(y)
    for y in args: go(y['v'])
    if maps and rng.random() < .8:
        m = rng.choice(maps); r = rng.random()
        if r < .3: m['k'].append(rng.choice(['zz', 'I', 'Q', 'r2'])); m['l'].append(rng.choice([NULL, vint(1), vstr('')]))
        elif r < .6 and m['k']: i = m['k'].index('r') if 'r' in m['k'] else rng.randrange(len(m['k'])); del m['k'][i]; del m['l'][i]
        elif r < .75 and m['k']: i = rng.randrange(len(m['k'])); m['k'].append(m['k'][i]); m['l'].append(copy.deepcopy(m['l'][i]))
        elif m['k']: i = rng.randrange(len(m['k'])); m['l'][i] = rng.choice([NULL, mutate_value(rng, S, m['l'][i])])
    ss.append(fld(f['name'], f'z{rng.randint(0, 999)}', args, [], [fld('__typename')] if S.composite(f['type']['n']) else None))
# ------------------------------------------------------------ C06
def vals(S, d):
    """Every place that holds a value: (container, key)."""
    r = []
    def go(c, k):
        r.append((c, k))
        for i in range(len(c[k]['l'])): go(c[k]['l'], i)
    for _, args in arglists(S, d) + dirargs(S, d):
        for a in args: go(a, 'v')
    return r
def m_var_dup(rng, S, d):
    o = pick(rng, [o for o in d['ops'] if o['vars']])
    if o:
        v = copy.deepcopy(rng.choice(o['vars']))
        if rng.random() < .4: v['type'] = typ(rng.choice(LEAF), *wraps(rng)); v['has'] = '0'; v['def'] = NULL
        o['vars'].insert(rng.randint(0, len(o['vars'])), v)
def m_var_undef(rng, S, d):
    o = pick(rng, [o for o in d['ops'] if o['vars']])
    if o: del o['vars'][rng.randrange(len(o['vars']))]
def m_var_use(rng, S, d):
    x = pick(rng, vals(S, d))
    names = [v['n'] for o in d['ops'] for v in o['vars']]
    if x: x[0][x[1]] = vvar(rng.choice((names or ['v0']) * 3 + ['undefinedvar']))
def m_var_unused(rng, S, d):
    o = rng.choice(d['ops']); o['short'] = '0'
    if rng.random() < .6 or not o['vars']: o['vars'].append(vardef(f'w{len(o["vars"])}', typ(rng.choice(LEAF + ['Color', 'In0']))))
    else:
        n = rng.choice(o['vars'])['n']
        for c, k in vals(S, d):
            if c[k]['t'] == 'Var' and c[k]['v'] == n: c[k] = rng.choice([NULL, vint(1), vbool(True), vstr('x')])
def m_var_type(rng, S, d):
    o = pick(rng, [o for o in d['ops'] if o['vars']])
    if not o: return
    v = rng.choice(o['vars'])
    r = rng.random()
    if r < .3: v['type'] = typ(anytype(rng, S), *v['type']['w'])
    elif r < .5: v['type'] = typ(rng.choice(LEAF + ['Color', 'Size', 'Any', 'In0', 'In1']), *v['type']['w'])
    else:
        w = list(v['type']['w'])
        q = rng.random()
        if q < .3 and w[:1] == ['N']: w = w[1:]
        elif q < .45 and w[:1] != ['N']: w = ['N'] + w
        elif q < .6: w = ['L'] + w
        elif q < .75 and 'L' in w: w = w[w.index('L') + 1:]
        else: w = wraps(rng)
        v['type'] = typ(v['type']['n'], *w)
    if v['has'] == '1' and rng.random() < .5: v['has'] = '0'; v['def'] = NULL
def m_var_default(rng, S, d):
    o = pick(rng, [o for o in d['ops'] if o['vars']])
    if not o: return
    v = rng.choice(o['vars'])
    if v['has'] == '1' and rng.random() < .7: v['def'] = mutate_value(rng, S, v['def'])
    elif v['has'] == '1': v['has'] = '0'; v['def'] = NULL
    else:
        v['has'] = '1'
        t = v['type']
        try: v['def'] = valid_value(rng, S, typ(t['n'], *t['w']), novar=True)
        except Exception: v['def'] = vint(1)
        if rng.random() < .3: v['def'] = mutate_value(rng, S, v['def'])
        if rng.random() < .4 and t['w'][:1] == ['N']: v['type'] = typ(t['n'], *t['w'][1:])
def m_var_other(rng, S, d):
    """A second operation that shares the fragments but not the variables."""
    o = pick(rng, [o for o in d['ops']])
    c = copy.deepcopy(o)
    c['name'] = f'Op{len(d["ops"])}'; c['short'] = '0'
    if not o['name']: o['name'] = 'OpA'; o['short'] = '0'
    if c['vars'] and rng.random() < .8:
        q = rng.random()
        if q < .4: del c['vars'][rng.randrange(len(c['vars']))]
        elif q < .8:
            v = rng.choice(c['vars']); v['type'] = typ(v['type']['n'], *wraps(rng))
    if rng.random() < .3: c['sel'] = [s for s in c['sel'] if s['k'] != 'spread'] or [fld('__typename')]
    d['ops'].append(c); d['order'].insert(rng.randint(0, len(d['order'])), f'o{len(d["ops"]) - 1}')
    # operations must be listed in the order of the text
def m_var_inlist(rng, S, d):
    """A new variable used as a whole argument, a list element or an input field."""
    l = [(f, ss) for P, ss, _ in walk(S, d) for t in [S.types.get(P)] if t for f in t['fields'] if f['args']]
    x = pick(rng, l)
    if not x: return
    f, ss = x
    o = rng.choice(d['ops'])
    o['short'] = '0'
    class C:
        pvar = .5
        def variable(self, t):
            n = f'n{len(o["vars"])}'
            w = list(t['w'])
            dflt = None
            q = rng.random()
            if q < .15: w = wraps(rng)
            elif q < .35 and w[:1] == ['N']:
                w = w[1:]
                if rng.random() < .6: dflt = valid_value(rng, S, typ(t['n'], *w), novar=True)
            elif q < .45: w = ['N'] + w if w[:1] != ['N'] else w
            nm = t['n'] if rng.random() < .93 else rng.choice(LEAF)
            if dflt is not None and nm != t['n']: dflt = None
            o['vars'].append(vardef(n, typ(nm, *w), dflt))
            return vvar(n)
    args = [arg(a['name'], valid_value(rng, S, a['type'], ctx=C())) for a in f['args']]
    ss.append(fld(f['name'], f'zz{len(ss)}', args, [], [fld('__typename')] if S.composite(f['type']['n']) else None))
def m_var_any(rng, S, d):
    """A variable of any type at all inside a literal for a custom scalar."""
    l = [(f, ss, a) for P, ss, _ in walk(S, d) for t in [S.types.get(P)] if t for f in t['fields'] for a in f['args'] if a['type']['n'] == 'Any']
    x = pick(rng, l)
    if not x: return m_var_type(rng, S, d)
    f, ss, a = x
    o = rng.choice(d['ops']); o['short'] = '0'
    n = f'any{len(o["vars"])}'
    o['vars'].append(vardef(n, typ(rng.choice(['O0', 'Query', 'I0', 'U0', 'Nope', 'In0', 'Int', 'Color', '__Type']), *wraps(rng))))
    def inner(v):
        for i in range(a['type']['w'].count('L')): v = vlist([v])
        return v
    args = [arg(b['name'], valid_value(rng, S, b['type'], novar=True, nonnull=True)) for b in f['args'] if b is not a and b['type']['w'][:1] == ['N'] and not b['def']]
    args.append(arg(a['name'], inner(rng.choice([vmap([('x', vvar(n))]), vlist([vvar(n)]), vmap([('x', vlist([vvar(n)]))])]))))
    ss.append(fld(f['name'], f'z{rng.randint(0, 999)}', args, [], [fld('__typename')] if S.composite(f['type']['n']) else None))
# ------------------------------------------------------------ C07
def m_dir_unknown(rng, S, d):
    _, ds = rng.choice(dirplaces(S, d)); ds.append(dirv(rng.choice(['nope', 'D0', 'Skip', 'deprecated'])))
def m_dir_dup(rng, S, d):
    x = pick(rng, [ds for _, ds in dirplaces(S, d) if ds])
    if x: x.insert(rng.randint(0, len(x)), copy.deepcopy(rng.choice(x)))
def m_dir_add(rng, S, d):
    loc, ds = rng.choice(dirplaces(S, d))
    t = rng.choice([x for x in S.s['directives']])
    args = [arg(a['name'], valid_value(rng, S, a['type'], novar=True)) for a in t['args'] if rng.random() < .8]
    ds.insert(rng.randint(0, len(ds)), dirv(t['name'], args))
def m_dir_bare(rng, S, d):
    x = pick(rng, [y for _, ds in dirplaces(S, d) for y in ds])
    if x: x['args'] = []
def m_dir_name(rng, S, d):
    x = pick(rng, [y for _, ds in dirplaces(S, d) for y in ds])
    if x: x['n'] = rng.choice(list(S.dirs))
def on_dirs(f): return lambda rng, S, d: f(rng, S, d, dirargs)

MUT = {
    'C03': [m_op_dup, m_op_anon, m_op_simple, m_op_kind, m_frag_dup, m_frag_unused, m_frag_undef, m_frag_cycle, m_frag_type, m_inline_type, m_frag_new, m_sdl, m_subroot, m_subroot],
    'C04': [m_field_name, m_field_add, m_leaf, m_composite_bare, m_alias, m_alias, m_repeat, m_repeat, m_meta, m_merge, m_merge, m_merge, m_merge],
    'C05': [m_arg_value, m_arg_value, m_arg_drop, m_arg_dup, m_arg_name, m_arg_add, m_arg_all, m_arg_all, m_input, m_input, m_input],
    'C06': [m_var_dup, m_var_undef, m_var_use, m_var_use, m_var_unused, m_var_type, m_var_type, m_var_default, m_var_default, m_var_other, m_var_other, m_var_inlist, m_var_inlist, m_var_any],
    'C07': [m_dir_unknown, m_dir_dup, m_dir_add, m_dir_add, m_dir_add, m_dir_bare, m_dir_name, on_dirs(m_arg_value), on_dirs(m_arg_drop), on_dirs(m_arg_dup), on_dirs(m_arg_name), on_dirs(m_arg_add), on_dirs(m_arg_value)],
}
MUT['C08'] = [m for l in MUT.values() for m in l]

def sort_ops(d):
    """Lists operations and fragments in the order of the text."""
    o = [int(x[1:]) for x in d['order'] if x[0] == 'o']
    f = [int(x[1:]) for x in d['order'] if x[0] == 'f']
    d['ops'] = [d['ops'][i] for i in o]; d['frags'] = [d['frags'][i] for i in f]
    no, nf, out = 0, 0, []
    for x in d['order']:
        if x[0] == 'o': out.append(f'o{no}'); no += 1
        elif x[0] == 'f': out.append(f'f{nf}'); nf += 1
        else: out.append(x)
    d['order'] = out
    if not any(x[0] == 's' for x in out): d.pop('sdl', None)

PROF = {
    'C03': dict(depth=2, width=3, pvar=.05, pdir=.03, pskip=.03, pfrag=.45, pinline=.25),
    'C04': dict(depth=3, width=4, pvar=.05, pdir=.03, pskip=.03, pfrag=.2, pinline=.25, prepeat=.3),
    'C05': dict(depth=2, width=4, pvar=.1, pdir=.1, pskip=.05, pfrag=.1, pinline=.1),
    'C06': dict(depth=2, width=3, pvar=.5, pdir=.2, pskip=.15, pfrag=.3, pinline=.15),
    'C07': dict(depth=2, width=3, pvar=.15, pdir=.6, pskip=.25, pfrag=.3, pinline=.2),
    'C08': dict(depth=2, width=3, pvar=.2, pdir=.15, pskip=.1, pfrag=.25, pinline=.2),
}

def document(rng, S, pid, pinvalid=.65):
    types = [t for t in ('query', 'mutation', 'subscription') if S.s[t]]
    for _ in range(30):
        prof, size = PROF[pid], rng.random()
        if size < .04: prof = dict(prof, width=12, depth=1)
        elif size < .08: prof = dict(prof, width=2, depth=7)
        g = DocGen(rng, S, **prof)
        ops = []
        for i in range(rng.choice([1, 1, 2, 3])):
            t = rng.choice(['query'] + types)
            if t == 'subscription':
                o = op(t, f'Op{i}', [], g.dirs('SUBSCRIPTION'), [g.field(S.s[t], 1)])
            else: o = g.operation(t, f'Op{i}')
            ops.append(o)
        if len(ops) == 1 and rng.random() < .4: ops[0]['name'] = ''
        d = g.finish(ops)
        if len(dumps(d)) < 9000: break
    if rng.random() < .08: chain(rng, S, d)
    n = rng.choice([1, 1, 1, 2]) if rng.random() < pinvalid else 0
    for _ in range(n):
        c = copy.deepcopy(d)
        rng.choice(MUT[pid])(rng, S, c)
        if len(dumps(c)) < 14000: d = c
    for o in d['ops']:
        if o['short'] == '1' and (o['type'] != 'query' or o['name'] or o['vars'] or o['dirs']): o['short'] = '0'
    sort_ops(d)
    return d
