"""Seeded generation of schemas, object graphs and valid executable documents."""
import copy, random
from gql import *

LEAF = ['Int', 'Float', 'String', 'Boolean', 'ID']
EXEC_LOCS = ['QUERY', 'MUTATION', 'SUBSCRIPTION', 'FIELD', 'FRAGMENT_DEFINITION', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT']

def typ(n, *w): return {'n': n, 'w': list(w)}
def wraps(rng, maxl=2, pn=.35, pl=.3):
    w = []
    for i in range(maxl + 1):
        if rng.random() < pn: w.append('N')
        if i < maxl and rng.random() < pl: w.append('L')
        else: break
    return w
def argdef(n, t, d=''): return {'name': n, 'type': t, 'def': d}
def fielddef(n, t, args=()): return {'name': n, 'type': t, 'args': list(args), 'dep': []}
def ty(kind, name, **k):
    r = {'kind': kind, 'name': name, 'ifaces': [], 'fields': [], 'members': [], 'values': [], 'inputs': []}
    r.update(k)
    return r
BUILTIN_DIRS = [
    {'name': 'skip', 'locs': ['FIELD', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT'], 'args': [argdef('if', typ('Boolean', 'N'))], 'builtin': '1'},
    {'name': 'include', 'locs': ['FIELD', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT'], 'args': [argdef('if', typ('Boolean', 'N'))], 'builtin': '1'},
    {'name': 'deprecated', 'locs': ['FIELD_DEFINITION', 'ENUM_VALUE'], 'args': [argdef('reason', typ('String'), '"No longer supported"')], 'builtin': '1'},
]

class Schema:
    def __init__(self, s):
        self.s = s
        self.types = {t['name']: t for t in s['types']}
        self.dirs = {d['name']: d for d in s['directives']}
    def kind(self, n): return self.types[n]['kind'] if n in self.types else 'SCALAR'
    def fields(self, n): return {f['name']: f for f in self.types[n]['fields']}
    def possible(self, n):
        t = self.types[n]
        if t['kind'] == 'OBJECT': return [n]
        if t['kind'] == 'UNION': return list(t['members'])
        return [o['name'] for o in self.s['types'] if n in o['ifaces']]
    def composite(self, n): return self.kind(n) in ('OBJECT', 'INTERFACE', 'UNION')
    def objects(self): return [t['name'] for t in self.s['types'] if t['kind'] == 'OBJECT']

def literal_text(rng, S, t, w=None, depth=0):
    """A default value for a schema argument, as text."""
    return Printer_text(valid_value(rng, S, t, novar=True, depth=depth))
def Printer_text(v):
    p = Printer(); p.value(v); return p.text()

def exec_schema(rng, sub=True, mut=True):
    nobj = rng.randint(2, 4)
    objs = [f'O{i}' for i in range(nobj)]
    ifaces = [f'I{i}' for i in range(rng.randint(0, 2))]
    unions = [f'U{i}' for i in range(rng.randint(0, 1))]
    comps = objs + ifaces + unions
    T = [ty('ENUM', 'Color', values=[{'name': v, 'dep': []} for v in ('RED', 'GREEN', 'BLUE')]), ty('SCALAR', 'Any')]
    inp = ty('INPUT', 'In0')
    inp['inputs'] = [argdef('i', typ('Int', *wraps(rng))), argdef('s', typ('String')), argdef('c', typ('Color'))]
    inp2 = ty('INPUT', 'In1')
    inp2['inputs'] = [argdef('n', typ('In0', *wraps(rng, 1))), argdef('f', typ('Float'), rng.choice(['', '1.5'])), argdef('r', typ('Int', 'N'))]
    T += [inp, inp2]
    S0 = Schema({'types': T, 'directives': []})
    def rargs():
        r = []
        for i in range(rng.choice([0, 0, 1, 1, 2])):
            n = rng.choice(LEAF + ['Color', 'In0', 'In1', 'Any'])
            t = typ(n, *wraps(rng))
            r.append(argdef('abc'[i], t, literal_text(rng, S0, t) if rng.random() < .2 else ''))
        return r
    def rfields(prefix, n, comp_p=.4):
        r = []
        for i in range(n):
            if rng.random() < comp_p: t = typ(rng.choice(comps), *wraps(rng))
            else: t = typ(rng.choice(LEAF + ['Color', 'Any']), *wraps(rng))
            r.append(fielddef(f'{prefix}{i}', t, rargs()))
        return r
    idefs = {i: rfields(f'{i.lower()}_', rng.randint(1, 2)) for i in ifaces}
    for i in ifaces: T.append(ty('INTERFACE', i, fields=copy.deepcopy(idefs[i])))
    for o in objs:
        im = [i for i in ifaces if rng.random() < .6]
        fs = [copy.deepcopy(f) for i in im for f in idefs[i]] + rfields('f', rng.randint(2, 4))
        T.append(ty('OBJECT', o, ifaces=im, fields=fs))
    for i in ifaces:
        if not any(i in t['ifaces'] for t in T):
            o = [t for t in T if t['name'] == objs[0]][0]
            o['ifaces'].append(i); o['fields'] += copy.deepcopy(idefs[i])
    for u in unions: T.append(ty('UNION', u, members=rng.sample(objs, rng.randint(1, len(objs)))))
    T.append(ty('OBJECT', 'Query', fields=rfields('q', rng.randint(3, 5), .6)))
    if ifaces and rng.random() < .25:
        T[-1]['ifaces'] = [ifaces[0]]; T[-1]['fields'] += copy.deepcopy(idefs[ifaces[0]])
    if mut: T.append(ty('OBJECT', 'Mutation', fields=rfields('m', rng.randint(2, 4), .5)))
    if sub: T.append(ty('OBJECT', 'Subscription', fields=rfields('s', rng.randint(2, 3), .6)))
    D = copy.deepcopy(BUILTIN_DIRS)
    for i in range(3):
        D.append({'name': f'd{i}', 'locs': list(EXEC_LOCS), 'args': [argdef('i', typ('Int')), argdef('s', typ('String'))][:rng.randint(0, 2)]})
    return Schema({'types': T, 'directives': D, 'query': 'Query', 'mutation': 'Mutation' if mut else '', 'subscription': 'Subscription' if sub else ''})

STRS = ['', 'x)gql"y', 'x', 'hello', 'a"b', 'back\\slash', 'new\nline', 'tab\t', 'é', '日本', '\U0001F600', '$v', '#no', '{', 'null', 'true', '1', '\u007f', 'a\rb', '\u2028', '\ufeff', 'x\uffee', '\U0010fffd', '\x01\x1f', '\b\f/', 'a' * 15, 'b' * 16, 'c' * 33]
def rstr(rng):
    if rng.random() < .02: return ''.join(rng.choice('abc XYZ019"\\\né日') for _ in range(rng.randint(20, 300)))
    return rng.choice(STRS) if rng.random() < .6 else ''.join(rng.choice('abcXYZ01 _-"\\\n') for _ in range(rng.randint(0, 6)))
def rint(rng): return rng.choice([0, 1, -1, 7, 42, 2147483647, -2147483648, rng.randint(-1000, 1000)])
def rfloat(rng): return rng.choice([0.5, -1.25, 1e10, 3.0, 2.5e-7, 1e300, 0.1, rng.uniform(-100, 100)])
def rbytes(rng): return bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7])))
import base64 as b64
def rid(rng): return vstr(b64.b64encode(rbytes(rng)).decode())

def few(rng, depth): return rng.randint(8, 40) if depth < 1 and rng.random() < .02 else rng.choice([0, 1, 2, 3])

def valid_value(rng, S, t, novar=False, depth=0, ctx=None, i=0, nonnull=False):
    """A literal acceptable for input type t (ctx gives variables, if allowed)."""
    w = t['w']
    nn = i < len(w) and w[i] == 'N'
    if ctx is not None and not novar and rng.random() < ctx.pvar:
        v = ctx.variable(typ(t['n'], *w[i:]))
        if v is not None: return v
    if nn: i += 1
    elif not nonnull and rng.random() < .12: return NULL
    if i < len(w) and w[i] == 'L':
        return vlist([valid_value(rng, S, t, novar, depth + 1, ctx, i + 1) for _ in range(few(rng, depth))])
    n = t['n']
    if n == 'Int': return vint(rint(rng))
    if n == 'Float': return vint(rint(rng)) if rng.random() < .3 else vfloat(rfloat(rng))
    if n == 'String': return vstr(rstr(rng))
    if n == 'Boolean': return vbool(rng.random() < .5)
    if n == 'ID': return rid(rng)
    k = S.kind(n)
    if k == 'ENUM': return venum(rng.choice(S.types[n]['values'])['name'])
    if k == 'SCALAR':
        r = rng.random()
        if depth < 3 and r < .2: return vlist([valid_value(rng, S, typ(n), novar, depth + 1, ctx) for _ in range(rng.randint(0, 2))])
        if depth < 3 and r < .4: return vmap([(x, valid_value(rng, S, typ(n), novar, depth + 1, ctx)) for x in rng.sample('xyz', rng.randint(0, 2))])
        return rng.choice([vint(rint(rng)), vstr(rstr(rng)), vbool(True), vfloat(rfloat(rng)), venum('ZED')])
    if k == 'INPUT':
        fs = []
        for f in S.types[n]['inputs']:
            req = f['type']['w'][:1] == ['N'] and not f['def']
            if req or (depth < 4 and rng.random() < .6): fs.append((f['name'], valid_value(rng, S, f['type'], novar, depth + 1, ctx)))
        rng.shuffle(fs)
        return vmap(fs)
    raise ValueError(n)

def runtime_value(rng, S, t, wrong=.12, i=0):
    """A value supplied for a variable of type t: usually of that type, sometimes not."""
    if rng.random() < wrong:
        return rng.choice([NULL, vint(5), vstr('w'), vbool(True), vfloat(2.5), vlist([vint(1)]), vlist([NULL]), venum('RED'), vmap([('i', vint(1))]), vstr('===='), vstr('QQ==')])
    w = t['w']
    nn = i < len(w) and w[i] == 'N'
    if nn: i += 1
    elif rng.random() < .15: return NULL
    if i < len(w) and w[i] == 'L': return vlist([runtime_value(rng, S, t, wrong, i + 1) for _ in range(few(rng, i))])
    v = valid_value(rng, S, typ(t['n']), novar=True, nonnull=True)
    return v

class DocGen:
    """Valid documents over a schema.  A response name always stands for one field with one set of arguments and sub-selections."""
    def __init__(self, rng, S, depth=3, width=4, pvar=.25, pdir=.2, pskip=.15, pfrag=.2, pinline=.2, prepeat=.15, ptypename=.12):
        self.rng, self.S = rng, S
        self.depth, self.width, self.pvar, self.pdir, self.pskip = depth, width, pvar, pdir, pskip
        self.pfrag, self.pinline, self.prepeat, self.ptypename = pfrag, pinline, prepeat, ptypename
        self.rn, self.vars, self.frags, self.nalias, self.busy = {}, {}, [], 0, []
    # variables: name -> (type, needs)  needs: the position is non-null
    def variable(self, t):
        rng = self.rng
        same = [n for n, x in self.vars.items() if x['n'] == t['n'] and x['w'] == t['w']]
        if same and rng.random() < .5: return vvar(rng.choice(same))
        if len(self.vars) >= 6: return None
        n = f'v{len(self.vars)}'
        self.vars[n] = typ(t['n'], *t['w'])
        return vvar(n)
    def dirs(self, loc, noskip=False):
        rng, r = self.rng, []
        cands = [d for d in self.S.s['directives'] if loc in d['locs'] and d['name'] not in ('skip', 'include', 'deprecated')]
        if cands and rng.random() < self.pdir:
            for d in rng.sample(cands, min(len(cands), rng.choice([1, 1, 2]))):
                r.append(dirv(d['name'], [arg(a['name'], valid_value(rng, self.S, a['type'], ctx=self)) for a in d['args'] if (a['type']['w'][:1] == ['N'] and not a['def']) or rng.random() < .7]))
        if loc in ('FIELD', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT') and not noskip and rng.random() < self.pskip:
            for n in rng.choice([['skip'], ['include'], ['skip', 'include'], ['include', 'skip']]):
                c = vbool(rng.random() < (.35 if n == 'skip' else .65))
                if rng.random() < .4:
                    v = self.variable(typ('Boolean', 'N'))
                    if v: c = v
                r.append(dirv(n, [arg('if', c)]))
            rng.shuffle(r)
        return r
    def arguments(self, defs):
        r = []
        for a in defs:
            req = a['type']['w'][:1] == ['N'] and not a['def']
            if req or self.rng.random() < .7:
                v = valid_value(self.rng, self.S, a['type'], ctx=self)
                r.append(arg(a['name'], v))
        self.rng.shuffle(r)
        return r
    def field(self, P, d, noskip=False):
        rng, S = self.rng, self.S
        if S.kind(P) == 'UNION' or rng.random() < self.ptypename:
            f, name = {'type': typ('String', 'N'), 'args': []}, '__typename'
        else:
            fs = S.types[P]['fields']
            ok = [f for f in fs if d > 0 or not S.composite(f['type']['n'])]
            if not ok: f, name = {'type': typ('String', 'N'), 'args': []}, '__typename'
            else:
                f = rng.choice(ok); name = f['name']
        sig = (name, dumps(f['type']), dumps(f['args']))
        known = [r for r, x in self.rn.items() if x[0] == sig and x[1] is not None]
        comp = S.composite(f['type']['n'])
        if known and rng.random() < .6 and (not comp or d >= 1):
            rn = rng.choice(known)
            _, args, sel = self.rn[rn]
            return fld(name, '' if rn == name else rn, copy.deepcopy(args), self.dirs('FIELD', noskip), copy.deepcopy(sel))
        rn = name
        if rn in self.rn or rng.random() < .2:
            rn = f'{rng.choice("xyz")}{self.nalias}'; self.nalias += 1
        self.rn[rn] = (sig, None, None)
        args = self.arguments(f['args'])
        sel = self.sels(f['type']['n'], d - 1) if comp else None
        self.rn[rn] = (sig, args, sel)
        return fld(name, '' if rn == name else rn, copy.deepcopy(args), self.dirs('FIELD', noskip), copy.deepcopy(sel))
    def overlap(self, A, B):
        return bool(set(self.S.possible(A)) & set(self.S.possible(B)))
    def sels(self, P, d, n=None):
        rng, S, r = self.rng, self.S, []
        for _ in range(n or rng.randint(1, self.width)):
            x = rng.random()
            if x < self.pfrag:
                ok = [f for f in self.frags if f['n'] not in self.busy and self.overlap(P, f['on']) and f['d'] <= d]
                if ok and rng.random() < .6:
                    r.append(spread(rng.choice(ok)['n'], self.dirs('FRAGMENT_SPREAD')))
                    continue
                if len(self.frags) < 4:
                    on = rng.choice([t['name'] for t in S.s['types'] if t['kind'] in ('OBJECT', 'INTERFACE', 'UNION') and self.overlap(P, t['name'])])
                    name = f'F{len(self.frags)}'
                    f = frag(name, on, [], [])
                    f['d'] = d
                    self.busy.append(name); self.frags.append(f)
                    f['sel'] = self.sels(on, d)
                    f['dirs'] = self.dirs('FRAGMENT_DEFINITION')
                    self.busy.remove(name)
                    r.append(spread(name, self.dirs('FRAGMENT_SPREAD')))
                    continue
            elif x < self.pfrag + self.pinline and d > -2:
                if rng.random() < .3: on = ''
                else: on = rng.choice([t['name'] for t in S.s['types'] if t['kind'] in ('OBJECT', 'INTERFACE', 'UNION') and self.overlap(P, t['name'])])
                r.append(inline(on, self.sels(on or P, d, rng.randint(1, 2)), self.dirs('INLINE_FRAGMENT')))
                continue
            elif r and x > 1 - self.prepeat:
                prev = [s for s in r if s['k'] == 'field']
                if prev:
                    c = copy.deepcopy(rng.choice(prev)); c['dirs'] = self.dirs('FIELD'); r.append(c)
                    continue
            r.append(self.field(P, d))
        return r
    def used_vars(self, x, frags, seen):
        out = []
        def val(v):
            if v['t'] == 'Var': out.append(v['v'])
            for y in v['l']: val(y)
        def dirs(ds):
            for dd in ds:
                for a in dd['args']: val(a['v'])
        def sels(ss):
            for s in ss:
                for a in s['args']: val(a['v'])
                dirs(s['dirs'])
                if s['k'] == 'spread' and s['n'] not in seen:
                    seen.add(s['n']); f = frags[s['n']]; dirs(f['dirs']); sels(f['sel'])
                sels(s['sel'])
        dirs(x['dirs']); sels(x['sel'])
        return out
    def vardefs(self, o):
        rng, S = self.rng, self.S
        used = []
        for v in self.used_vars(o, {f['n']: f for f in self.frags}, set()):
            if v not in used: used.append(v)
        rng.shuffle(used)
        r = []
        for v in used:
            t = self.vars[v]
            w = list(t['w'])
            d = None
            if w[:1] == ['N']:
                if rng.random() < .25: d = valid_value(rng, S, typ(t['n'], *w), novar=True)
                if d is not None and rng.random() < .5: w = w[1:]
            else:
                if rng.random() < .4: d = valid_value(rng, S, typ(t['n'], *w), novar=True)
                elif rng.random() < .2: w = ['N'] + w
            r.append(vardef(v, typ(t['n'], *w), d))
        return r
    def operation(self, type_, name, d=None, n=None):
        root = self.S.s[type_]
        d = self.depth if d is None else d
        sel = self.sels(root, d, n)
        o = op(type_, name, [], self.dirs(type_.upper()), sel)
        return o
    def finish(self, ops):
        for o in ops: o['vars'] = self.vardefs(o)
        for o in ops:
            if o['type'] == 'query' and not o['name'] and not o['vars'] and not o['dirs'] and self.rng.random() < .6: o['short'] = '1'
        # only fragments that some operation reaches
        seen = set()
        for o in ops: self.used_vars(o, {f['n']: f for f in self.frags}, seen)
        fr = [f for f in self.frags if f['n'] in seen]
        for f in fr: f.pop('d', None)
        order = [('o', i) for i in range(len(ops))] + [('f', i) for i in range(len(fr))]
        self.rng.shuffle(order)
        # operations keep their relative order
        k = iter(range(len(ops)))
        order = [('o', next(k)) if a == 'o' else (a, i) for a, i in order]
        return doc(ops, fr, order)

def request_vars(rng, S, o, wrong=.1):
    """Values for the variables of an operation: skip conditions are always booleans."""
    r = []
    for v in o['vars']:
        t = v['type']
        if t['n'] == 'Boolean' and 'L' not in t['w']:
            if v['has'] == '1' and rng.random() < .5: continue
            r.append((v['n'], vbool(rng.random() < .5)))
            continue
        x = rng.random()
        if x < .2 and (v['has'] == '1' or t['w'][:1] != ['N']): continue
        r.append((v['n'], runtime_value(rng, S, t, wrong)))
    bools = [v['n'] for v in o['vars'] if v['type']['n'] == 'Boolean']
    extra = rng.choice(['v0', 'v1', 'extra'])
    if rng.random() < .3 and extra not in bools: r.append((extra, vstr('EXTRA')))
    seen, out = set(), []
    for k, v in r:
        if k not in seen: seen.add(k); out.append((k, v))
    rng.shuffle(out)
    return vmap(out)

# ---------------------------------------------------------------- object graphs
def leaf_result(rng, S, n):
    if n == 'Int': return vint(rint(rng))
    if n == 'Float': return vfloat(rfloat(rng))
    if n == 'String': return vstr(rstr(rng))
    if n == 'Boolean': return vbool(rng.random() < .5)
    if n == 'ID': return V('ID', rbytes(rng).hex())
    if S.kind(n) == 'ENUM': return venum(rng.choice(S.types[n]['values'])['name'])
    return rng.choice([vint(1), vstr('s'), vmap([('k', vlist([vint(1), NULL]))]), vlist([vmap([])]), vbool(False)])

def result(rng, S, t, objs, i=0, lmax=3):
    w = t['w']
    nn = i < len(w) and w[i] == 'N'
    if nn: i += 1
    elif rng.random() < .18: return NULL
    if i < len(w) and w[i] == 'L':
        return vlist([result(rng, S, t, objs, i + 1, max(1, lmax - 1)) for _ in range(rng.randint(0, lmax))])
    if S.composite(t['n']):
        return V('Obj', rng.choice([o for o in objs if objs[o] in S.possible(t['n'])]))
    return leaf_result(rng, S, t['n'])

def world_objs(rng, S, per=2, perr=.08, how=('value', 'deferred', 'async', 'gate'), phook=.04, hows=None, lmax=0):
    objs = {}
    for t in S.objects():
        n = 1 if t in (S.s['query'], S.s['mutation'], S.s['subscription']) else per
        for i in range(n): objs[f'{t}#{i}'] = t
    out = []
    for o, t in objs.items():
        fs = {}
        for f in S.types[t]['fields']:
            h = rng.choice(how)
            comp = S.composite(f['type']['n'])
            e = []
            if rng.random() < perr: e = [{'k': rng.choice(['runtime', 'schema', 'schema2', 'located']), 'm': 'boom ' + f['name']}]
            if h == 'broken': e = [{'k': 'runtime', 'm': 'std::future_error: Broken promise'}]
            b = {'how': h, 'err': e, 'val': result(rng, S, f['type'], objs, lmax=(min(lmax, 6) or 2) if comp else lmax or 3)}
            if comp and rng.random() < .4: b['derived'] = '1'
            fs[f['name']] = b
        d = {'id': o, 'type': t, 'begin': [], 'end': [], 'fields': fs}
        if t not in (S.s['query'], S.s['mutation'], S.s['subscription']):
            if rng.random() < phook: d['begin'] = [{'k': rng.choice(['runtime', 'schema', 'located']), 'm': 'hook ' + o}]
            elif rng.random() < phook: d['end'] = [{'k': rng.choice(['runtime', 'schema', 'located']), 'm': 'hook ' + o}]
        out.append(d)
    return out
