"""Systematic tables of small documents for the validation rules: every combination inside a small scope, on one fixed schema each.
Valid.tla decides every verdict; nothing here knows what the answer is."""
import itertools
from gen import *

DIRS = BUILTIN_DIRS
W = [[], ['N'], ['L'], ['N', 'L'], ['L', 'N'], ['N', 'L', 'N'], ['L', 'L'], ['N', 'L', 'L'], ['L', 'N', 'L'], ['L', 'L', 'N'],
     ['N', 'L', 'N', 'L'], ['N', 'L', 'L', 'N'], ['L', 'N', 'L', 'N'], ['N', 'L', 'N', 'L', 'N']]
def schema(types, dirs=(), **k):
    return Schema(dict({'types': types, 'directives': list(DIRS) + list(dirs), 'query': 'Query', 'mutation': '', 'subscription': ''}, **k))
def lit(w, base, i=0):
    """A value with the shape of the wrapper."""
    return vlist([lit(w[w.index('L') + 1:], base)]) if 'L' in w else base
def text(v): return Printer_text(v)
one = lambda *sel, **k: doc([op('query', k.get('name', ''), k.get('vars', ()), k.get('dirs', ()), sel)], [])

def variables():
    """Every variable type with up to two lists in every kind of place of every such type."""
    T, q, dirs = [], [], []
    for i, w in enumerate(W):
        d = text(lit(w, vint(1)))
        T += [ty('INPUT', f'X{i}', inputs=[argdef('p', typ('Int', *w))]), ty('INPUT', f'Y{i}', inputs=[argdef('p', typ('Int', *w), d)])]
        q += [fielddef(f'f{i}', typ('Int'), [argdef('p', typ('Int', *w))]), fielddef(f'g{i}', typ('Int'), [argdef('p', typ('Int', *w), d)]),
              fielddef(f'h{i}', typ('Int'), [argdef('p', typ('Int', *w), 'null')]) if w[:1] != ['N'] else fielddef(f'h{i}', typ('Int'), []),
              fielddef(f'x{i}', typ('Int'), [argdef('v', typ(f'X{i}'))]), fielddef(f'y{i}', typ('Int'), [argdef('v', typ(f'Y{i}'))]),
              fielddef(f'l{i}', typ('Int'), [argdef('v', typ('Int', 'L', *w))])]
        dirs += [{'name': f'd{i}', 'locs': ['FIELD'], 'args': [argdef('p', typ('Int', *w))]}]
    q.append(fielddef('a', typ('Int')))
    S = schema(T + [ty('OBJECT', 'Query', fields=q)], dirs)
    V_ = vvar('v')
    places = [lambda i: fld(f'f{i}', '', [arg('p', V_)]), lambda i: fld(f'g{i}', '', [arg('p', V_)]), lambda i: fld(f'h{i}', '', [arg('p', V_)]),
              lambda i: fld(f'x{i}', '', [arg('v', vmap([('p', V_)]))]), lambda i: fld(f'y{i}', '', [arg('v', vmap([('p', V_)]))]),
              lambda i: fld(f'l{i}', '', [arg('v', vlist([V_]))]), lambda i: fld('a', '', [], [dirv(f'd{i}', [arg('p', V_)])])]
    core, more = [], []
    for vw in W:
        for i, w in enumerate(W):
            for p, place in enumerate(places):
                for df in (None, lit(vw, vint(1)), NULL):
                    if df is NULL and vw[:1] == ['N']: continue
                    (core if p in (0, 1) and df is None else more).append(one(place(i), vars=[vardef('v', typ('Int', *vw), df)]))
    for a, b in itertools.product(LEAF, LEAF):      # different named types
        T2 = fld('s' + b)
        core.append(one(fld('s' + b, '', [arg('p', V_)]), vars=[vardef('v', typ(a))]))
    q += [fielddef('s' + b, typ('Int'), [argdef('p', typ(b))]) for b in LEAF]
    return S, core, more

LITS = [NULL, vint(0), vint(2147483647), vint(2147483648), vint(-2147483649), vfloat(1.5), vstr(''), vstr('x'), vstr('QUJD'), vstr('Q'), venum('RED'), venum('NOPE'), vbool(True),
        vlist([]), vlist([NULL]), vlist([vint(1)]), vlist([vint(1), NULL]), vlist([vint(1), vstr('s')]), vlist([vlist([])]), vlist([vlist([vint(1), NULL])]), vlist([NULL, vlist([NULL])]),
        vlist([venum('RED')]), vlist([vmap([])]), vlist([vmap([('r', vint(1))])]), vmap([]), vmap([('r', vint(1))]), vmap([('r', NULL)]), vmap([('r', vint(1)), ('nope', vint(1))]),
        vmap([('r', vint(1)), ('r', vint(1))]), vmap([('r', vint(1)), ('n', vmap([]))]), vmap([('r', vint(1)), ('n', vmap([('r', vint(2))]))]), vmap([('d', NULL), ('r', vint(1))]),
        vmap([('d', vint(2)), ('r', vint(1))]), vmap([('r', vint(1)), ('l', vlist([vint(1), NULL]))]), vmap([('r', vint(1)), ('l', vlist([vint(1)]))]), vmap([('r', vint(1)), ('e', venum('RED'))]),
        vmap([('r', vint(1)), ('e', vstr('RED'))])]
def literals():
    """Every kind of literal in every kind of place of every named type."""
    T = [ty('ENUM', 'Color', values=[{'name': v, 'dep': []} for v in ('RED', 'GREEN')]), ty('SCALAR', 'Any'),
         ty('INPUT', 'In', inputs=[argdef('r', typ('Int', 'N')), argdef('n', typ('In')), argdef('d', typ('Int', 'N'), '7'), argdef('l', typ('Int', 'L', 'N')), argdef('e', typ('Color'))])]
    N = LEAF + ['Color', 'Any', 'In']
    w6 = [[], ['N'], ['L'], ['L', 'N'], ['N', 'L'], ['L', 'L']]
    q, dirs, core, more = [fielddef('a', typ('Int'))], [], [], []
    for n in N:
        for i, w in enumerate(w6):
            q += [fielddef(f'f{n}{i}', typ('Int'), [argdef('p', typ(n, *w))])]
            dirs.append({'name': f'd{n}{i}', 'locs': ['FIELD'], 'args': [argdef('p', typ(n, *w))]})
            for v in LITS:
                core.append(one(fld(f'f{n}{i}', '', [arg('p', v)])))
                more.append(one(fld('a', '', [], [dirv(f'd{n}{i}', [arg('p', v)])])))
                more.append(one(fld(f'f{n}{i}', '', [arg('p', vvar('v'))]), vars=[vardef('v', typ(n, *w), v)]))
    # argument lists: required, optional and defaulted arguments, present, null, repeated, unknown
    q.append(fielddef('req', typ('Int'), [argdef('a', typ('Int', 'N')), argdef('b', typ('Int')), argdef('c', typ('Int', 'N'), '1')]))
    dirs.append({'name': 'req', 'locs': ['FIELD'], 'args': [argdef('a', typ('Int', 'N')), argdef('b', typ('Int')), argdef('c', typ('Int', 'N'), '1')]})
    some = [[], [vint(1)], [NULL], [vint(1), vint(1)], [vint(1), NULL]]
    for x in itertools.product(some, some, some, some[:2]):
        al = [arg(n, v) for n, vs in zip('abcz', x) for v in vs]
        core.append(one(fld('req', '', al)))
        more.append(one(fld('a', '', [], [dirv('req', al)])))
    return schema(T + [ty('OBJECT', 'Query', fields=q)], dirs), core, more

ALL_LOCS = EXEC_LOCS + ['SCHEMA', 'SCALAR', 'OBJECT', 'FIELD_DEFINITION', 'ARGUMENT_DEFINITION', 'INTERFACE', 'UNION', 'ENUM', 'ENUM_VALUE', 'INPUT_OBJECT', 'INPUT_FIELD_DEFINITION']
def directives():
    """Every location, every directive that is allowed at one, all but one, or no executable location; pairs of directives at one place."""
    dirs = [{'name': f'only{l}', 'locs': [l], 'args': []} for l in ALL_LOCS] + [{'name': f'not{l}', 'locs': [x for x in ALL_LOCS if x != l], 'args': []} for l in EXEC_LOCS] \
        + [{'name': 'any', 'locs': list(ALL_LOCS), 'args': [argdef('i', typ('Int'))]}]
    names = [d['name'] for d in dirs] + ['skip', 'include', 'deprecated', 'nope']
    obj = lambda n: ty('OBJECT', n, fields=[fielddef('a', typ('Int')), fielddef('o', typ('Query'))])
    S = schema([obj('Query'), obj('Mutation'), obj('Subscription')], dirs, mutation='Mutation', subscription='Subscription')
    def at(place, ds):
        n = lambda x: ds if x == place else []
        kind = {'MUTATION': 'mutation', 'SUBSCRIPTION': 'subscription'}.get(place, 'query')
        root = kind.capitalize()
        sel = {'FRAGMENT_SPREAD': [spread('F', ds)], 'FRAGMENT_DEFINITION': [spread('F')], 'INLINE_FRAGMENT': [inline('', [fld('a')], ds)], 'INLINE_FRAGMENT2': [inline(root, [fld('a')], ds)]}.get(place, [fld('a', '', [], n('FIELD'))])
        fr = [frag('F', root, [fld('a')], n('FRAGMENT_DEFINITION'))] if 'FRAGMENT_' in place and 'INLINE' not in place else []
        nest = [fld('o', '', [], [], sel)] if place not in ('MUTATION', 'SUBSCRIPTION', 'FRAGMENT_SPREAD', 'FRAGMENT_DEFINITION') else sel
        return doc([op(kind, 'Op', [], ds if place in ('QUERY', 'MUTATION', 'SUBSCRIPTION') else [], nest)], fr)
    places = EXEC_LOCS + ['INLINE_FRAGMENT2']
    mk = lambda n: dirv(n, [arg('if', vbool(True))] if n in ('skip', 'include') else [])
    core = [at(p, [mk(n)]) for p in places for n in names]
    more = [at(p, [mk(a), mk(b)]) for p in places for a in names[:8] + names[-6:] for b in names[:8] + names[-6:]]
    return S, core, more

def merges():
    """Two selections with one response name, on equal or different parents, with equal or different fields, arguments and sub-selections."""
    I = lambda *w: typ('Int', *w)
    leaf = [fielddef('i', I()), fielddef('j', I('N')), fielddef('k', I('L')), fielddef('l', I('L', 'N')), fielddef('s', typ('String')), fielddef('e', typ('Color')), fielddef('g', typ('Size')), fielddef('h', typ('Any')), fielddef('w', typ('Other')),
            fielddef('p', I(), [argdef('x', I()), argdef('y', typ('String'))])]
    comp = [fielddef('o', typ('A')), fielddef('b', typ('B')), fielddef('q', typ('A', 'N')), fielddef('m', typ('A', 'L')), fielddef('u', typ('U'))]
    T = [ty('ENUM', 'Color', values=[{'name': 'RED', 'dep': []}]), ty('ENUM', 'Size', values=[{'name': 'RED', 'dep': []}]), ty('SCALAR', 'Any'), ty('SCALAR', 'Other'), ty('INTERFACE', 'I', fields=leaf + comp), ty('OBJECT', 'A', ifaces=['I'], fields=leaf + comp), ty('OBJECT', 'B', ifaces=['I'], fields=leaf + comp),
         ty('UNION', 'U', members=['A', 'B']), ty('OBJECT', 'Query', fields=[fielddef('u', typ('U')), fielddef('i', typ('I')), fielddef('a', typ('A'))])]
    S = schema(T)
    x = lambda n, al=(): fld(n, 'r' if n != 'r' else '', al)
    L = [x(f['name']) for f in leaf[:9]] + [x('p'), x('p', [arg('x', vint(1))]), x('p', [arg('x', vint(2))]), x('p', [arg('x', NULL)]), x('p', [arg('x', vint(1)), arg('y', vstr('1'))]), x('p', [arg('y', vstr('1')), arg('x', vint(1))]), x('p', [arg('x', vvar('v'))]),
         fld('__typename', 'r')]
    C = [fld(f['name'], 'r', [], [], [fld('__typename')]) for f in comp]
    subs = [[fld('i', 'z')], [fld('j', 'z')], [fld('s', 'z')], [fld('p', 'z', [arg('x', vint(1))])], [fld('p', 'z', [arg('x', vint(2))])], [fld('o', 'z', [], [], [fld('i')])], [inline('A', [fld('s', 'z')])], [fld('i'), fld('j')]]
    C2 = [fld('o', 'r', [], [], s) for s in subs] + [fld('b', 'r', [], [], s) for s in subs]
    same = lambda P: (lambda a, b: [inline(P, [a]), inline(P, [b])])
    wraps_ = {'AA': lambda a, b: [inline('A', [a, b])], 'AB': lambda a, b: [inline('A', [a]), inline('B', [b])], 'IA': lambda a, b: [inline('I', [a]), inline('A', [b])], 'A-A': same('A'), 'I-I': same('I')}
    def one_(a, b, how, root):
        vs = [vardef('v', typ('Int'))] if any(g['v']['t'] == 'Var' for s in (a, b) for g in s['args']) else []
        return doc([op('query', '', vs, [], [fld(root, '', [], [], wraps_[how](a, b))])], [])
    def twice(a, b, how):
        # the two selections in two selections of their parent
        vs = [vardef('v', typ('Int'))] if any(g['v']['t'] == 'Var' for s in (a, b) for g in s['args']) else []
        p, q = {'AA': ('A', 'A'), 'AB': ('A', 'B'), 'IA': ('I', 'A')}[how]
        return doc([op('query', '', vs, [], [fld('i', '', [], [], [inline(p, [fld('o', 't', [], [], [a])])]), fld('i', '', [], [], [inline(q, [fld('o', 't', [], [], [b])])])])], [])
    def frags(a, b, how):
        vs = [vardef('v', typ('Int'))] if any(g['v']['t'] == 'Var' for s in (a, b) for g in s['args']) else []
        p, q = {'AA': ('A', 'A'), 'AB': ('A', 'B'), 'IA': ('I', 'A')}[how]
        return doc([op('query', '', vs, [], [fld('u', '', [], [], [spread('F'), spread('G')])])], [frag('F', p, [a]), frag('G', q, [b])])
    core = [one_(a, b, h, 'u') for a in L + C for b in L + C for h in ('AA', 'AB')] + [one_(a, b, h, 'i') for a in C2 for b in C2 for h in ('AB',)]
    more = [one_(a, b, h, r) for a in L + C + C2 for b in L + C + C2 for h in wraps_ for r in ('u', 'i')] + [f(a, b, h) for a in L + C + C2 for b in L + C + C2 for h in ('AA', 'AB', 'IA') for f in (twice, frags)]
    return S, core, more

def fields():
    """Every field name and sub-selection shape on every kind of parent."""
    leaf = [fielddef('i', typ('Int')), fielddef('e', typ('Color', 'L'))]
    T = [ty('ENUM', 'Color', values=[{'name': 'RED', 'dep': []}]), ty('SCALAR', 'Any'), ty('INPUT', 'In', inputs=[argdef('i', typ('Int'))]), ty('INTERFACE', 'I', fields=leaf), ty('INTERFACE', 'J', fields=[fielddef('k', typ('Any', 'N'))]),
         ty('OBJECT', 'A', ifaces=['I'], fields=leaf + [fielddef('a', typ('A', 'N')), fielddef('u', typ('U', 'L'))]), ty('OBJECT', 'B', ifaces=['I', 'J'], fields=leaf + [fielddef('k', typ('Any', 'N')), fielddef('b', typ('I'))]),
         ty('UNION', 'U', members=['A', 'B']), ty('OBJECT', 'Query', fields=[fielddef(n, typ(t, *w)) for n, t, w in (('a', 'A', []), ('b', 'B', ['N']), ('i', 'I', ['L']), ('j', 'J', []), ('u', 'U', ['N', 'L', 'N']), ('n', 'Int', []))])]
    S = schema(T)
    names = ['i', 'e', 'k', 'a', 'b', 'u', 'n', '__typename', '__schema', '__type', '__nope', 'nope']
    sub = [None, [fld('__typename')], [fld('i')], [fld('nope')], [inline('', [fld('__typename')])], [inline('', [])] if False else [inline('A', [fld('i')])]]
    core, more = [], []
    for p in ('a', 'b', 'i', 'j', 'u', ''):
        for n in names:
            for s in sub:
                f = fld(n, '', [arg('name', vstr('A'))] if n == '__type' else [], [], s)
                core.append(one(fld(p, '', [], [], [f]) if p else f))
                for on in ('A', 'B', 'I', 'J', 'U', ''):
                    if p: more.append(one(fld(p, '', [], [], [inline(on, [f])])))
    core += [one(fld(p, '', [], [], None)) for p in 'abijun']
    return S, core, more

def fragments():
    """Every pair of scope and target; every graph of three fragments and every set the operation uses; every set of operation names."""
    leaf = [fielddef('i', typ('Int'))]
    T = [ty('ENUM', 'Color', values=[{'name': 'RED', 'dep': []}]), ty('SCALAR', 'Any'), ty('INPUT', 'In', inputs=[argdef('i', typ('Int'))])]
    T += [ty('INTERFACE', n, fields=leaf) for n in 'IJ']
    T += [ty('OBJECT', n, ifaces=i, fields=leaf + [fielddef('q', typ('Query'))]) for n, i in (('A', ['I']), ('B', ['I', 'J']), ('C', []))]
    T += [ty('UNION', 'U', members=['A', 'B']), ty('UNION', 'X', members=['C']), ty('OBJECT', 'Query', fields=leaf + [fielddef(n.lower(), typ(n)) for n in 'ABCIJUX'] + [fielddef('q', typ('Query'))]),
          ty('OBJECT', 'Mutation', fields=leaf), ty('OBJECT', 'Subscription', fields=leaf + [fielddef('j', typ('Int'))])]
    S = schema(T, mutation='Mutation', subscription='Subscription')
    targets = ['A', 'B', 'C', 'I', 'J', 'U', 'X', 'Query', 'Color', 'Any', 'In', 'Int', 'Nope', '__Type', 'Mutation']
    core, more = [], []
    ti = [fld('__typename')]
    for p in 'abcijux':
        for t in targets:
            core.append(one(fld(p, '', [], [], [inline(t, ti)])))
            core.append(doc([op('query', '', [], [], [fld(p, '', [], [], [spread('F')])])], [frag('F', t, ti)]))
            for t2 in targets[:7]:
                more.append(one(fld(p, '', [], [], [inline(t, [inline(t2, ti)])])))
    E = [(a, b) for a in range(3) for b in range(3)]
    for m in range(512):
        for u in range(8):
            fr = [frag(f'F{a}', 'Query', [fld('q', '', [], [], [spread(f'F{b}')]) if (a + b) % 2 else spread(f'F{b}') for (x, b), i in zip(E, range(9)) if x == a and m >> i & 1] + [fld('i')]) for a in range(3)]
            (more if (m * 8 + u) % 8 else core).append(doc([op('query', '', [], [], [spread(f'F{a}') for a in range(3) if u >> a & 1] + [fld('i')])], fr))
    for names in itertools.chain(itertools.product(['', 'A', 'B'], repeat=2), itertools.product(['', 'A', 'B'], repeat=3)):
        for kinds in (['query'] * 3, ['query', 'mutation', 'subscription']):
            core.append(doc([op(k, n, [], [], [fld('i')]) for n, k in zip(names, kinds)], []))
    for fs in ('FF', 'FGF', 'FG', 'GF'): core.append(doc([op('query', '', [], [], [spread('F')])], [frag(n, 'Query', [fld('i')]) for n in fs]))
    for a, b in itertools.product([fld('i'), fld('j'), fld('j', 'i'), fld('i', 'k'), inline('', [fld('j')]), inline('Subscription', [fld('i')]), fld('nope')], repeat=2):
        core.append(doc([op('subscription', 'S', [], [], [a, b])], []))
    return S, core, more

TABLES = {'C03': fragments, 'C04': None, 'C05': literals, 'C06': variables, 'C07': directives}
def table(pid):
    """Schemas with the documents that are always looked at, and those of which a sample is taken."""
    return [merges(), fields()] if pid == 'C04' else [TABLES[pid]()]
