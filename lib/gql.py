"""GraphQL documents as plain data, and a printer which records the line and column of every node.

value   {"t","v","l","k"}; t: Null Boolean Int Float String Enum List Map Var; maps keep keys in k and values in l
dir     {"n","args":[{"n","v"}]}          (line/col added by the printer)
sel     {"k":"field|spread|inline","a","n","on","args","dirs","sel","has","line","col"}
"""
import json

def V(t, v='', l=(), k=()):
    return {'t': t, 'v': v, 'l': list(l), 'k': list(k)}
NULL = V('Null')
def vint(i): return V('Int', str(i))
def vbool(b): return V('Boolean', 'true' if b else 'false')
def vstr(s): return V('String', s)
def venum(s): return V('Enum', s)
def vlist(l): return V('List', '', l)
def vmap(d): return V('Map', '', [x for _, x in d], [k for k, _ in d])
def vfloat(f): return V('Float', fmtd(f))
def vvar(n): return V('Var', n)

def fmtd(f):
    s = format(f, '.17g')
    return s

def fld(n, a='', args=(), dirs=(), sel=None):
    return {'k': 'field', 'a': a, 'n': n, 'on': '', 'args': list(args), 'dirs': list(dirs), 'sel': list(sel or []),
            'has': '0' if sel is None else '1', 'line': '0', 'col': '0'}
def spread(n, dirs=()):
    return {'k': 'spread', 'a': '', 'n': n, 'on': '', 'args': [], 'dirs': list(dirs), 'sel': [], 'has': '0', 'line': '0', 'col': '0'}
def inline(on, sel, dirs=()):
    return {'k': 'inline', 'a': '', 'n': '', 'on': on, 'args': [], 'dirs': list(dirs), 'sel': list(sel), 'has': '1', 'line': '0', 'col': '0'}
def dirv(n, args=()):
    return {'n': n, 'args': list(args)}
def arg(n, v): return {'n': n, 'v': v}
def op(type_, name='', vars=(), dirs=(), sel=(), short=False):
    return {'type': type_, 'name': name, 'vars': list(vars), 'dirs': list(dirs), 'sel': list(sel), 'line': '0', 'col': '0',
            'short': '1' if short else '0'}
def vardef(n, type_, default=None):
    return {'n': n, 'type': type_, 'has': '0' if default is None else '1', 'def': default if default is not None else NULL}
def frag(n, on, sel, dirs=()):
    return {'n': n, 'on': on, 'dirs': list(dirs), 'sel': list(sel), 'line': '0', 'col': '0'}
def doc(ops, frags, order=None):
    """order: sequence of ('o', index) / ('f', index) giving the definition order."""
    order = order or [('o', i) for i in range(len(ops))] + [('f', i) for i in range(len(frags))]
    return {'ops': ops, 'frags': frags, 'order': [f'{a}{i}' for a, i in order]}

PUNCT = set('!$()[]{}:=@|&') | {'...'}
ESC = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}

def quote(s, rng=None):
    r = []
    for ch in s:
        o = ord(ch)
        if ch in ESC and not (rng and rng.random() < .2): r.append(ESC[ch])
        elif o < 0x20 or ch in ESC or (rng and o < 0x10000 and rng.random() < .05): r.append('\\u%04x' % o)
        elif o > 0xffff:
            o -= 0x10000
            r.append('\\u%04X\\u%04x' % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
        else: r.append(ch)
    return '"' + ''.join(r) + '"'

class Printer:
    """Appends tokens separated by ignorable text; trivia(rng) chooses it."""
    def __init__(self, rng=None, wild=0.0):
        self.rng, self.wild = rng, wild
        self.out, self.line, self.col, self.last = [], 1, 1, None

    def raw(self, s):
        self.out.append(s)
        for ch in s:
            if ch == '\n': self.line, self.col = self.line + 1, 1
            else: self.col += len(ch.encode())

    def gap(self, need):
        r = self.rng
        if r is None or r.random() >= self.wild:
            self.raw(' ' if need else '')
            return
        n = r.choice([0, 1, 1, 2])
        parts = [r.choice([' ', '  ', '\n', ',', '\t', '\r\n', '# c\n', '#{"$ é\n', ' ,\n ']) for _ in range(n)]
        s = ''.join(parts)
        if need and not s: s = r.choice([' ', ',', '\n', '#\n'])
        self.raw(s)

    def tok(self, t, glue=False):
        """glue: the token is written directly after the previous one."""
        wordy = lambda x: x is not None and x not in PUNCT and x[:1] not in '"'
        need = wordy(self.last) and (wordy(t) or t[:1] == '"') or (self.last is not None and self.last[:1] == '"' and (wordy(t) or t[:1] == '"'))
        need = need or (self.last is not None and wordy(self.last) and t == '...' and self.last[:1] in '-0123456789')
        if not glue: self.gap(need)
        pos = (str(self.line), str(self.col))
        self.raw(t)
        self.last = t
        return pos

    def text(self):
        return ''.join(self.out)

    # ---- executable documents
    def value(self, v):
        t = v['t']
        if t == 'Var':
            self.tok('$'); self.tok(v['v'], glue=True)
        elif t == 'Null': self.tok('null')
        elif t in ('Boolean', 'Int', 'Enum'): self.tok(v['v'])
        elif t == 'Float':
            s = v.get('text') or v['v']
            if 'text' not in v and not any(c in s for c in '.eE'): s += '.0'
            self.tok(s)
        elif t == 'String': self.tok(v.get('text') or quote(v['v'], self.rng if self.wild else None))
        elif t == 'List':
            self.tok('[')
            for x in v['l']: self.value(x)
            self.tok(']')
        elif t == 'Map':
            self.tok('{')
            for k, x in zip(v['k'], v['l']):
                self.tok(k); self.tok(':'); self.value(x)
            self.tok('}')
        else: raise ValueError(t)

    def args(self, args):
        if not args: return
        self.tok('(')
        for a in args:
            self.tok(a['n']); self.tok(':'); self.value(a['v'])
        self.tok(')')

    def dirs(self, dirs):
        for d in dirs:
            self.tok('@'); self.tok(d['n']); self.args(d['args'])

    def type(self, t):
        """t = {n, w}: w outer to inner."""
        w = t['w']
        def go(i):
            if i == len(w): self.tok(t['n']); return
            if w[i] == 'L':
                self.tok('['); go(i + 1); self.tok(']')
            else:
                go(i + 1); self.tok('!')
        go(0)

    def sels(self, sels):
        self.tok('{')
        for s in sels: self.sel(s)
        self.tok('}')

    def sel(self, s):
        if s['k'] == 'field':
            if s['a']:
                p = self.tok(s['a']); self.tok(':'); self.tok(s['n'])
            else: p = self.tok(s['n'])
            self.args(s['args']); self.dirs(s['dirs'])
            if s['has'] == '1': self.sels(s['sel'])
        elif s['k'] == 'spread':
            p = self.tok('...'); self.tok(s['n']); self.dirs(s['dirs'])
        else:
            p = self.tok('...')
            if s['on']: self.tok('on'); self.tok(s['on'])
            self.dirs(s['dirs']); self.sels(s['sel'])
        s['line'], s['col'] = p

    def operation(self, o):
        if o['short'] == '1':
            mark = len(self.out)
            self.gap(False)
            p = (str(self.line), str(self.col))
            self.last = '{'
            self.raw('{')
            for s in o['sel']: self.sel(s)
            self.tok('}')
        else:
            p = self.tok(o['type'])
            if o['name']: self.tok(o['name'])
            if o['vars']:
                self.tok('(')
                for v in o['vars']:
                    self.tok('$'); self.tok(v['n'], glue=True); self.tok(':'); self.type(v['type'])
                    if v['has'] == '1': self.tok('='); self.value(v['def'])
                self.tok(')')
            self.dirs(o['dirs']); self.sels(o['sel'])
        o['line'], o['col'] = p

    def fragment(self, f):
        f['line'], f['col'] = self.tok('fragment')
        self.tok(f['n']); self.tok('on'); self.tok(f['on']); self.dirs(f['dirs']); self.sels(f['sel'])

    def document(self, d):
        for o in d['order']:
            i = int(o[1:])
            if o[0] == 'o': self.operation(d['ops'][i])
            elif o[0] == 'f': self.fragment(d['frags'][i])
            else: self.raw(d['sdl'][i]); self.last = None
        self.gap(False)
        return self.text()

def dumps(x):
    return json.dumps(x, ensure_ascii=True, separators=(',', ':'))
