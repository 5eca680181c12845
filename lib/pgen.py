"""Seeded generation of document texts from the grammar, right and wrong; no attention to meaning."""
import random

NAMES = ['a', 'b', 'x1', '_y', '__typename', 'on', 'type', 'query', 'mutation', 'subscription', 'fragment', 'true', 'false', 'null', 'input', 'enum', 'extend', 'implements',
         'Name', 'Q9', 'scalar', 'schema', 'interface', 'union', 'directive', 'FIELD', 'trueish', 'nullx', 'onx', 'typed', 'q', 'f', 'l']
LOCS = ['QUERY', 'MUTATION', 'SUBSCRIPTION', 'FIELD', 'FRAGMENT_DEFINITION', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT', 'SCHEMA', 'SCALAR', 'OBJECT',
        'FIELD_DEFINITION', 'ARGUMENT_DEFINITION', 'INTERFACE', 'UNION', 'ENUM', 'ENUM_VALUE', 'INPUT_OBJECT', 'INPUT_FIELD_DEFINITION']
PUNCT = ['!', '$', '&', '(', ')', '...', ':', '=', '@', '[', ']', '{', '|', '}']
CHARS = ['a', 'Z', '_', '0', '9', ' ', ',', '\n', '\r\n', '\t', '#', '"', '\\', '{', '}', '(', ')', '$', ':', '.', '-', '+', 'e', '/', '%', '?', ';', "'", '<', '~', '^', '`',
         '\x00', '\x07', '\x7f', 'é', '日', '\ufeff', '\u2028', '\ufffd', '\U0001f600', 'u', 'n', '*', '\r', '\x0b', '\x1b']

class G:
    def __init__(self, rng, depth=3):
        self.rng, self.t, self.d = rng, [], depth
    def p(self, *ts): self.t += ts
    def r(self, p=.5): return self.rng.random() < p
    def name(self, no=()):
        while True:
            n = self.rng.choice(NAMES[:4] if self.r(.4) else NAMES)
            if n not in no: break
        self.p(n)
    def many(self, f, lo=1, hi=3):
        for _ in range(self.rng.randint(lo, hi)): f()
    def opt(self, f, p=.35):
        if self.r(p): f()
    # --- values
    def string(self):
        rng = self.rng
        if self.r(.3):
            parts = []
            for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 10])):
                parts.append(rng.choice(['x', ' ', '\n  ', '\n   ', '\n\t ', '\n', '  \n', '"', '""', '\\"""', '\\', '\\n', '\\u0041', 'é', '日本', '#', ',', '\t', '\r\n', 'word', '\\\\', '\\"']))
            s = ''.join(parts)
            while s.endswith('"') or s.endswith('\\') or '"""' in s.replace('\\"""', ''): s = s.replace('"""', '').rstrip('"\\') + rng.choice(['', 'z'])
            return '"""' + s + '"""'
        parts = []
        for _ in range(rng.randint(0, 5)):
            parts.append(rng.choice(['x', 'y z', '\\"', '\\\\', '\\/', '\\b', '\\f', '\\n', '\\r', '\\t', '\\u00e9', '\\u0041', '\\uD83D\\uDE00', '\\u65E5', '\\ufFfF', '\\u0000',
                                     '#', ',', '$', '{', "'", 'é', '日', '\t', '\\u005c', '\\u0022', '\x7f', '\ufeff', '0']))
        return '"' + ''.join(parts) + '"'
    def number(self):
        rng = self.rng
        s = rng.choice(['', '-']) + rng.choice(['0', '1', '9', '42', '10', '2147483647', '-'.strip('-') + '7', '100200300400'])
        if self.r(.4): s += '.' + rng.choice(['0', '5', '00', '125', '10'])
        if self.r(.25): s += rng.choice('eE') + rng.choice(['', '+', '-']) + rng.choice(['0', '1', '07', '10'])
        return s
    def value(self, d=2, const=True):
        k = self.rng.randint(0, 9)
        if k == 0 and d > 0: self.p('['); self.many(lambda: self.value(d - 1, const), 0, 3); self.p(']')
        elif k == 1 and d > 0:
            self.p('{')
            for _ in range(self.rng.randint(0, 3)): self.name(); self.p(':'); self.value(d - 1, const)
            self.p('}')
        elif k == 2 and not const: self.p('$'); self.glue = True; self.t.append('\0'); self.name()
        elif k <= 4: self.p(self.number())
        elif k <= 6: self.p(self.string())
        elif k == 7: self.p(self.rng.choice(['true', 'false', 'null']))
        else: self.name()
    def args(self, const):
        self.p('(')
        def one(): self.name(); self.p(':'); self.value(2, const)
        self.many(one); self.p(')')
    def dirs(self, const):
        def one(): self.p('@'); self.name(); self.opt(lambda: self.args(const))
        self.many(one, 1, 2)
    def type(self, d=2):
        if d > 0 and self.r(.3): self.p('['); self.type(d - 1); self.p(']')
        else: self.name()
        self.opt(lambda: self.p('!'))
    # --- executable
    def sels(self, d):
        self.p('{'); self.many(lambda: self.sel(d)); self.p('}')
    def sel(self, d):
        k = self.rng.random()
        if k < .12: self.p('...'); self.name(('on',)); self.opt(lambda: self.dirs(False))
        elif k < .27 and d > 0:
            self.p('...')
            if self.r(): self.p('on'); self.name()
            self.opt(lambda: self.dirs(False)); self.sels(d - 1)
        else:
            if self.r(.25): self.name(); self.p(':')
            self.name(); self.opt(lambda: self.args(False)); self.opt(lambda: self.dirs(False), .25)
            if d > 0: self.opt(lambda: self.sels(d - 1), .4)
    def operation(self):
        if self.r(.3): self.sels(self.d); return
        self.p(self.rng.choice(['query', 'query', 'mutation', 'subscription']))
        self.opt(lambda: self.name(), .6)
        def var(): self.p('$'); self.t.append('\0'); self.name(); self.p(':'); self.type(); self.opt(lambda: (self.p('='), self.value(2, True)))
        self.opt(lambda: (self.p('('), self.many(var), self.p(')')), .4)
        self.opt(lambda: self.dirs(False)); self.sels(self.d)
    def fragment(self):
        self.p('fragment'); self.name(('on',)); self.p('on'); self.name(); self.opt(lambda: self.dirs(False)); self.sels(self.d)
    def executable(self): self.operation() if self.r(.7) else self.fragment()
    # --- type system
    def desc(self): self.opt(lambda: self.p(self.string()), .3)
    def inputs(self, a, b):
        def one(): self.desc(); self.name(); self.p(':'); self.type(); self.opt(lambda: (self.p('='), self.value(2, True))); self.opt(lambda: self.dirs(True), .2)
        self.p(a); self.many(one); self.p(b)
    def fields(self):
        def one(): self.desc(); self.name(); self.opt(lambda: self.inputs('(', ')')); self.p(':'); self.type(); self.opt(lambda: self.dirs(True), .2)
        self.p('{'); self.many(one); self.p('}')
    def listby(self, sep, f, hi=3):
        self.opt(lambda: self.p(sep), .25)
        f()
        for _ in range(self.rng.randint(0, hi - 1)): self.p(sep); f()
    def values(self):
        def one(): self.desc(); self.name(('true', 'false', 'null')); self.opt(lambda: self.dirs(True), .2)
        self.p('{'); self.many(one); self.p('}')
    def roots(self):
        def one(): self.p(self.rng.choice(['query', 'mutation', 'subscription']), ':'); self.name()
        self.p('{'); self.many(one); self.p('}')
    def typedef(self, ext=False):
        rng = self.rng
        kind = rng.choice(['schema', 'scalar', 'type', 'type', 'interface', 'union', 'enum', 'input'] + ([] if ext else ['directive']))
        if ext: self.p('extend')
        elif kind != 'schema': self.desc()
        self.p(kind)
        if kind == 'schema':
            if ext and self.r(.4): self.dirs(True); return
            self.opt(lambda: self.dirs(True)); self.roots(); return
        if kind == 'directive':
            self.p('@'); self.name(); self.opt(lambda: self.inputs('(', ')')); self.p('on'); self.listby('|', lambda: self.p(rng.choice(LOCS))); return
        self.name()
        parts = []
        if kind == 'type': parts.append(lambda: (self.p('implements'), self.listby('&', self.name)))
        parts.append(lambda: self.dirs(True))
        body = {'type': self.fields, 'interface': self.fields, 'enum': self.values, 'input': lambda: self.inputs('{', '}'),
                'union': lambda: (self.p('='), self.listby('|', self.name))}.get(kind)
        if body: parts.append(body)
        ps = [.35] * (len(parts) - 1) + [.8]
        if kind == 'scalar': ps = [.4]
        on = [rng.random() < q for q in ps]
        if ext and not any(on): on[rng.randrange(len(on))] = True
        for f, o in zip(parts, on):
            if o: f()
    def definition(self, kind):
        if kind == 'exec': self.executable()
        else: self.typedef(self.r(.3))

def joinable(a, b):
    """Whether token b may directly follow token a."""
    word = lambda t: t[:1].isalnum() or t[:1] in '_-'
    if a is None: return True
    if word(a) and word(b): return False
    if a[:1] in '-0123456789' and b == '...': return False
    if a[:1] == '"' and b[:1] == '"': return False
    return True

TRIVIA = [' ', ' ', '\n', ',', '\t', '\r\n', '# c\n', '#{"$ é日\n', ' ,\n ', '\ufeff', '#"""\r\n', '  ']
def join(rng, ts, wild):
    out, last, glue = [], None, False
    for t in ts:
        if t == '\0': glue = True; continue
        if not glue:
            g = ''.join(rng.choice(TRIVIA) for _ in range(rng.choice([0, 1, 1, 2]))) if rng.random() < wild else ''
            if not g and not joinable(last, t): g = rng.choice([' ', '\n', ',', '#\n']) if rng.random() < wild else ' '
            out.append(g)
        out.append(t)
        last, glue = t, False
    if rng.random() < wild: out.append(rng.choice(TRIVIA + ['# end']))
    return ''.join(out)

def document(rng, kind):
    """(text, sort)"""
    g = G(rng, rng.choice([1, 2, 2, 3]))
    mixed = rng.random() < .15
    for _ in range(rng.choice([1, 1, 2, 3])): g.definition(rng.choice(['exec', 'schema']) if mixed else kind)
    ts = g.t
    # a shorthand query would be read as the body of a definition before it
    x = rng.random()
    sort = 'mixed' if mixed else 'right'
    if x < .35:
        sort = 'tokens'
        for _ in range(rng.choice([1, 1, 1, 2])):
            if not ts: break
            i = rng.randrange(len(ts))
            w = rng.randint(0, 5)
            if w == 0: del ts[i]
            elif w == 1: ts.insert(i, ts[i])
            elif w == 2: ts[i] = rng.choice(PUNCT + NAMES[:12])
            elif w == 3: ts.insert(i, rng.choice(PUNCT + NAMES + ['1', '1.5', '"s"']))
            elif w == 4: j = rng.randrange(len(ts)); ts[i], ts[j] = ts[j], ts[i]
            else: del ts[i:i + rng.randint(1, 4)]
    text = join(rng, ts, rng.choice([0, .1, .3]))
    if rng.random() < .06: text = '\ufeff' + text
    if .35 <= x < .5 and text:
        sort = 'characters'
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(text) + 1)
            w = rng.randint(0, 2)
            if w == 0: text = text[:i] + rng.choice(CHARS) + text[i:]
            elif w == 1: text = text[:i] + text[i + 1:]
            else: text = text[:i] + rng.choice(CHARS) + text[i + 1:]
    b = text.encode()
    if rng.random() < .015:
        i = rng.randrange(len(b) + 1)
        b = b[:i] + rng.choice([b'\x80', b'\xff', b'\xc0\xaf', b'\xed\xa0\x80', b'\xe2\x82']) + b[i:]; sort = 'bytes'
    return b, sort
