"""Seeded generation of consistent schema documents: descriptions, deprecations, defaults, extensions, any order of definitions."""
import copy, random
from gql import *
from gen import *

DESCS = ['', 'A thing', 'with "quotes" and \\ backslash', 'two\nlines', 'é 日本 \U0001F600', '#no comment', '100% {sure} $x', 'tab\there', '(parens) )"', 'raw )md" x )gql" y', 'cr\rlf\r\nx', '??/ trigraph', '// c \\']
REASONS = ['', 'x)md"\r', 'old', 'No longer supported', 'use "x"', 'b\nc', '\\']
DEFAULT_REASON = 'No longer supported'

def value_text(rng, v):
    p = Printer(rng, .15); p.value(v)
    return p.text().strip(' ,\n\t\r') if not any(c in p.text() for c in '#\r') else Printer_text(v)

def schema(rng, pdesc=.45):
    """A schema record like gen.exec_schema's, with defv (the default as a value) next to each def (as text)."""
    d = lambda: rng.choice(DESCS) if rng.random() < pdesc else ''
    dep = lambda: [rng.choice(REASONS)] if rng.random() < .25 else []
    nobj = rng.randint(2, 4)
    suffix = rng.choice(['', '_t', 'X'])
    objs = [f'Ob{"ject"[:rng.randint(0, 4)]}{i}{suffix}' for i in range(nobj)]
    ifaces = [f'Face{i}' for i in range(rng.randint(0, 2))]
    unions = [f'Un_{i}' for i in range(rng.randint(0, 2))]
    comps = objs + ifaces + unions
    T = []
    enums = ['Color', 'sizeE'][:rng.randint(1, 2)]
    pools = [['RED', 'GREEN', 'BLUE', 'dark_red'], ['S', 'M', 'XL', 'x_l', 'Xs']]
    for i, e in enumerate(enums):
        vs = rng.sample(pools[i], rng.randint(1, 4))
        T.append(ty('ENUM', e, desc=d(), values=[{'name': v, 'desc': d(), 'dep': dep()} for v in vs]))
    scalars = ['Any'][:rng.randint(0, 1)] + ['Date_Time'][:rng.randint(0, 1)]
    for s in scalars: T.append(ty('SCALAR', s, desc=d()))
    inputs = [f'In{i}' for i in range(rng.randint(1, 3))]
    order = list(inputs); rng.shuffle(order)
    made = []
    def S0(): return Schema({'types': T + made, 'directives': []})
    def argument(n, t, pdef=.4):
        a = dict(argdef(n, t), desc=d(), defv=None)
        if rng.random() < pdef:
            v = valid_value(rng, S0(), t, novar=True)
            a['def'], a['defv'] = value_text(rng, v), v
        return a
    for n in order:
        fs = []
        for i in range(rng.randint(1, 4)):
            b = rng.choice(LEAF + enums + scalars + [m['name'] for m in made] * 2)
            fs.append(argument(rng.choice(['f', 'value_', 'm_x']) + 'abcd'[i], typ(b, *wraps(rng)), .35))
        made.append(ty('INPUT', n, desc=d(), inputs=fs))
    T += made
    def rargs():
        names = rng.sample(['a', 'id_', 'first', 'in_put', 'xY'], rng.choice([0, 0, 1, 1, 2, 3]))
        return [argument(n, typ(rng.choice(LEAF + enums * 2 + inputs * 2 + scalars), *wraps(rng))) for n in names]
    def rfields(prefix, n, comp_p=.4):
        r = []
        for i in range(n):
            if rng.random() < comp_p: t = typ(rng.choice(comps), *wraps(rng))
            else: t = typ(rng.choice(LEAF + enums * 2 + scalars), *wraps(rng))
            r.append(dict(fielddef(f'{prefix}{i}', t, rargs()), desc=d(), dep=dep()))
        return r
    idefs = {i: rfields(f'{i.lower()}_', rng.randint(1, 2)) for i in ifaces}
    for i in ifaces: T.append(ty('INTERFACE', i, desc=d(), fields=copy.deepcopy(idefs[i])))
    for o in objs:
        im = [i for i in ifaces if rng.random() < .6]
        rng.shuffle(im)
        fs = [copy.deepcopy(f) for i in im for f in idefs[i]] + rfields(rng.choice(['f', 'F_', 'g_x']), rng.randint(1, 3))
        rng.shuffle(fs)
        T.append(ty('OBJECT', o, desc=d(), ifaces=im, fields=fs))
    for i in ifaces:
        if not any(i in t['ifaces'] for t in T):
            o = [t for t in T if t['name'] == objs[0]][0]
            o['ifaces'].append(i); o['fields'] += copy.deepcopy(idefs[i])
    for u in unions: T.append(ty('UNION', u, desc=d(), members=rng.sample(objs, rng.randint(1, len(objs)))))
    names = {'query': 'Query', 'mutation': 'Mutation', 'subscription': 'Subscription'}
    if rng.random() < .4: names = {'query': 'Root_Q', 'mutation': 'Changes', 'subscription': 'Events'}
    q = ty('OBJECT', names['query'], desc=d(), fields=rfields('q', rng.randint(3, 5), .6))
    T.append(q)
    mut, sub = rng.random() < .7, rng.random() < .6
    if mut: T.append(ty('OBJECT', names['mutation'], desc=d(), fields=rfields('m', rng.randint(2, 3), .4)))
    if sub: T.append(ty('OBJECT', names['subscription'], desc=d(), fields=rfields('s', rng.randint(1, 2), .6)))
    D = copy.deepcopy(BUILTIN_DIRS)
    for i in range(rng.randint(0, 3)):
        locs = rng.sample(EXEC_LOCS + ['SCHEMA', 'OBJECT', 'ENUM', 'UNION', 'INPUT_OBJECT', 'FIELD_DEFINITION', 'SCALAR', 'ARGUMENT_DEFINITION', 'INTERFACE', 'ENUM_VALUE', 'INPUT_FIELD_DEFINITION'], rng.randint(1, 6))
        D.append({'name': f'dir_{i}', 'desc': d(), 'locs': locs, 'args': [argument(n, typ(rng.choice(LEAF + enums + inputs + scalars), *wraps(rng))) for n in 'abc'[:rng.randint(0, 2)]]})
    rng.shuffle(T)
    return Schema({'types': T, 'directives': D, 'query': names['query'], 'mutation': names['mutation'] if mut else '', 'subscription': names['subscription'] if sub else ''})

# ------------------------------------------------------------------ printing
class Sdl:
    def __init__(self, rng): self.rng = rng
    def string(self, s):
        rng = self.rng
        if rng.random() < .35 and '"""' not in s and '\\' not in s and s.strip() == s and s and not s.endswith('"') and '\t' not in s and '\n' not in s and '\r' not in s and max(s) < '\uffff':
            return f'"""{s}"""'
        ls = s.split('\n')
        if rng.random() < .35 and s and '\r' not in s and ls[0].strip(' \t') and ls[-1].strip(' \t') and any(l[:1] not in ('', ' ', '\t') for l in ls) \
                and max(s) < '\uffff' and not any(c < ' ' and c not in '\t\n' for c in s):
            ind, nl = rng.choice(['', '  ', '\t', '    \t']), rng.choice(['\n', '\n', '\r\n'])
            body = [ind + l if l.strip(' \t') or rng.random() < .7 or l else rng.choice(['', ' ']) if ind != '' else '' for l in ls]
            return '"""' + nl + nl.join(b.replace('"""', '\\"""') for b in body) + nl + rng.choice(['', ind, nl]) + '"""'
        return quote(s)
    def desc(self, x):
        if not x.get('desc'): return '"" ' if self.rng.random() < .05 else ''
        return self.string(x['desc']) + self.rng.choice([' ', '\n'])
    def type(self, t):
        p = Printer(); p.type(t)
        return p.text()
    def arg(self, a): return f"{self.desc(a)}{a['name']}: {self.type(a['type'])}" + (f" = {a['def']}" if a['def'] else '')
    def args(self, l): return '(' + self.rng.choice([', ', '\n', ' ']).join(self.arg(a) for a in l) + ')' if l else ''
    def dep(self, x):
        if not x.get('dep'): return ''
        r = x['dep'][0]
        if r == DEFAULT_REASON and self.rng.random() < .7: return ' @deprecated'
        return f' @deprecated(reason: {self.string(r)})'
    def field(self, f): return f"{self.desc(f)}{f['name']}{self.args(f['args'])}: {self.type(f['type'])}{self.dep(f)}"
    def ifaces(self, l):
        if not l: return ''
        return ' implements ' + self.rng.choice(['', '& ']) + ' & '.join(l)
    def body(self, l): return ' {\n  ' + '\n  '.join(l) + '\n}' if l else ''
    def split(self, l):
        """Cuts a list in up to two parts; the second goes to an extension."""
        if len(l) < 2 or self.rng.random() < .75: return l, []
        k = self.rng.randint(1, len(l) - 1)
        return l[:k], l[k:]
    def definitions(self, S):
        rng, defs = self.rng, []
        for t in S.s['types']:
            k, n = t['kind'], t['name']
            if k == 'SCALAR': defs.append([f"{self.desc(t)}scalar {n}"])
            elif k == 'ENUM':
                a, b = self.split([f"{self.desc(v)}{v['name']}{self.dep(v)}" for v in t['values']])
                defs.append([f'{self.desc(t)}enum {n}{self.body(a)}'] + ([f'extend enum {n}{self.body(b)}'] if b else []))
            elif k == 'UNION':
                a, b = self.split(t['members'])
                f = lambda l: ' = ' + rng.choice(['', '| ']) + ' | '.join(l)
                defs.append([f'{self.desc(t)}union {n}{f(a)}'] + ([f'extend union {n}{f(b)}'] if b else []))
            elif k == 'INPUT':
                a, b = self.split([self.arg(x) for x in t['inputs']])
                defs.append([f'{self.desc(t)}input {n}{self.body(a)}'] + ([f'extend input {n}{self.body(b)}'] if b else []))
            elif k == 'INTERFACE':
                a, b = self.split([self.field(x) for x in t['fields']])
                defs.append([f'{self.desc(t)}interface {n}{self.body(a)}'] + ([f'extend interface {n}{self.body(b)}'] if b else []))
            else:
                a, b = self.split([self.field(x) for x in t['fields']])
                i, j = (t['ifaces'], []) if not b else self.split(t['ifaces'])
                defs.append([f'{self.desc(t)}type {n}{self.ifaces(i)}{self.body(a)}'] + ([f'extend type {n}{self.ifaces(j)}{self.body(b)}'] if b else []))
        for x in S.s['directives']:
            if x.get('builtin') == '1': continue
            defs.append([f"{self.desc(x)}directive @{x['name']}{self.args(x['args'])} on " + rng.choice(['', '| ']) + ' | '.join(x['locs'])])
        ops = [(o, S.s[o]) for o in ('query', 'mutation', 'subscription') if S.s[o]]
        standard = all(n == o.capitalize() for o, n in ops)
        if not standard or rng.random() < .3:
            rng.shuffle(ops)
            S.oporder = [o for o, _ in ops]
            k = rng.randint(1, len(ops)) if rng.random() < .3 else len(ops)
            f = lambda l: ' { ' + ' '.join(f'{o}: {n}' for o, n in l) + ' }'
            defs.append([f'schema{f(ops[:k])}'] + ([f'extend schema{f(ops[k:])}'] if ops[k:] else []))
        return defs
    def document(self, S):
        rng, defs = self.rng, self.definitions(S)
        rng.shuffle(defs)
        flat = [x for g in defs for x in g[:1]]
        for g in defs:
            for x in g[1:]: flat.insert(rng.randint(0, len(flat)), x)
        return rng.choice(['', '# a schema\n', '\ufeff']) + '\n\n'.join(flat) + '\n'
