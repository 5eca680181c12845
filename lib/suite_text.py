"""C21 and C22: JSON text, Base64 text."""
import itertools, random, re, struct
from gql import dumps
import tracer, build

STRS = ['', 'x', '"', '\\', '/', '\b\f\n\r\t', '\0', '\x01\x1f', '\x7f', 'é', '\u2028\u2029', '😀', '\ufffd', '\uffff', 'a\0b', '\\u0041', '</script>', 'QUJD', 'RED', 'null', ' lead', '𝄞x', '\ud7ff\ue000']
def rstr(rng):
    x = rng.random()
    if x < .5: return rng.choice(STRS)
    return ''.join(chr(rng.choice([rng.randint(0, 127), rng.randint(128, 0x7ff), rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff)])) for _ in range(rng.randint(30, 400) if rng.random() < .02 else rng.randint(0, 12)))
def rfloat(rng):
    x = rng.random()
    if x < .4:
        while True:
            f = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
            if f == f and abs(f) != float('inf'): return f
    if x < .5: return rng.choice([5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1 / 3, 1e21, 1e20, 1e-7, 123456789012345680.0, 4503599627370497.5, 9007199254740993.0, 0.0])
    if x < .8: return float(rng.randint(-2 ** 53, 2 ** 53)) / rng.choice([1, 2, 10, 1000, 1e6])
    return rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30)
def rint(rng): return rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randint(-2 ** 31, 2 ** 31 - 1), rng.randint(-1000, 1000)])

def V(t, v='', l=(), k=()): return {'t': t, 'v': v, 'l': list(l), 'k': list(k)}
def rval(rng, d):
    x = rng.random()
    if d and x < .2: return V('List', l=[rval(rng, d - 1) for _ in range(rng.randint(16, 80) if d < 2 and rng.random() < .03 else rng.choice([0, 1, 2, 3, 8]))])
    if d and x < .45:
        ks = []
        for _ in range(rng.randint(16, 50) if d < 2 and rng.random() < .03 else rng.choice([0, 1, 2, 3, 9])):
            k = rstr(rng)
            if k not in ks: ks.append(k)
        return V('Map', l=[rval(rng, d - 1) for _ in ks], k=ks)
    if d and x < .5: return V('Scalar', l=[rval(rng, d - 1)])
    y = rng.random()
    if y < .3: return V(rng.choice(['String', 'JString', 'Enum']), rstr(rng))
    if y < .55: return V('Float', format(rfloat(rng) + 0.0, '.17g'))
    if y < .8: return V('Int', str(rint(rng)))
    if y < .9: return V('Boolean', rng.choice(['true', 'false']))
    return V('Null')

def ws(rng): return rng.choice(['', '', '', ' ', '\n', '\t\r\n  '])
def jstr(rng, s):
    o = '"'
    for c in s:
        n = ord(c); x = rng.random()
        short = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(c)
        if short and (x < .6 or (c in '"\\' and x < .8)): o += short
        elif n < 32 or c in '"\\' or x < .15:
            f = rng.choice(['\\u%04x', '\\u%04X'])
            if n >= 0x10000: n -= 0x10000; o += f % (0xd800 + (n >> 10)) + f % (0xdc00 + (n & 1023))
            else: o += f % n
        else: o += c
    return o + '"'
def jnum(rng):
    x = rng.random()
    if x < .3: return str(rint(rng))
    if x < .36: return str(rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 63, 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1, rng.randint(-2 ** 63, 2 ** 64 - 1), 4294967295, 4294967296 + 5]))
    if x < .38: return str(rng.choice([2 ** 64, -2 ** 63 - 1, 10 ** 30]))
    if x < .42: return rng.choice(['-0', '0', '-0.0', '0e5', '0.0', '-0e-2'])
    if x < .7: return repr(rfloat(rng)).replace('e', rng.choice(['e', 'E'])).replace('inf', '0').replace('nan', '0')
    return rng.choice(['', '-']) + str(rng.choice([0, rng.randint(1, 9), rng.randint(1, 10 ** 12)])) + rng.choice(['', '.' + str(rng.randint(0, 10 ** rng.randint(1, 25)))]) + rng.choice(['', f'e{rng.randint(-40, 40)}', f'E+{rng.randint(0, 300)}', f'e-0{rng.randint(0, 300)}'])
def jtext(rng, d):
    x = rng.random()
    if d and x < .25:
        return '[' + ws(rng) + (ws(rng) + ',' + ws(rng)).join(jtext(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 3, 6]))) + ws(rng) + ']'
    if d and x < .5:
        return '{' + ws(rng) + (ws(rng) + ',').join(ws(rng) + jstr(rng, rstr(rng)) + ws(rng) + ':' + ws(rng) + jtext(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 3, 6]))) + ws(rng) + '}'
    y = rng.random()
    if y < .35: return jstr(rng, rstr(rng))
    if y < .8: return jnum(rng)
    return rng.choice(['true', 'false', 'null'])

NUMTOK = re.compile(rb'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?')
def numbers(b):
    """The nearest double of every text in b that reads like a number with a fraction or exponent."""
    r, op = {'_': ''}, '0'
    for k in range(len(b)):
        m = NUMTOK.match(b, k)
        if m and any(c in b'.eE' for c in m.group()):
            f = float(m.group())
            t = format(f, '.17g')
            if f in (float('inf'), -float('inf')) : op = '1'; t = 'inf'
            r[m.group().decode()] = t
    return r, op

def check_json(c):
    rnd = 0
    while True:
        rng = random.Random(f'C21/{c.seed}/{rnd}')
        lines = []
        for _ in range(3500): lines.append({'op': 'write', 'v': rval(rng, rng.choice([0, 1, 2, 3]))})
        if rnd == 0:
            for cp in range(0, 0x180): lines.append({'op': 'write', 'v': V('String', chr(cp))})
            for cp in range(0, 0x80): lines.append({'op': 'write', 'v': V('Map', l=[V('Null')], k=['a' + chr(cp)])})
            v = V('Int', '1')
            for n in range(40): v = V('List', l=[v]) if n % 2 else V('Map', l=[v], k=['k'])
            lines.append({'op': 'write', 'v': v})
            for cp in list(range(0x20, 0x80)) : lines.append({'op': 'read', 't': b'"\\' + bytes([cp]) + b'"'})
            for t in itertools.chain.from_iterable(itertools.product('-0129.eE+', repeat=n) for n in range(1, 6 if c.thorough else 5)): lines.append({'op': 'read', 't': ''.join(t).encode()})
        for _ in range(4000):
            t = (ws(rng) + jtext(rng, rng.choice([0, 1, 2, 3])) + ws(rng)).encode('utf-8', 'surrogatepass')
            if rng.random() < .06 and t:
                k = rng.randrange(len(t)); t = t[:k] + rng.choice([b'', b'"', b',', b'}', b'\\', b'1', b'\x01', b' ']) + t[k + rng.randint(0, 1):]
            if b'\0' not in t: lines.append({'op': 'read', 't': t})
        hl = [dict(x) if x['op'] == 'write' else {'op': 'read', 's': x['t'].hex()} for x in lines]
        size = len(hl) // 32 + 1
        obs = [o for g in tracer.harness_parallel(build.harness(), 'json', [hl[k:k + size] for k in range(0, len(hl), size)], c.dir('json')) for o in g]
        NIL = V('Null')
        tr = []
        for k, (x, o) in enumerate(zip(lines, obs)):
            o = o or {}
            t = {'id': f't{k}', 'op': x['op'], 'of': NIL, 'back': {'r': 'failure', 'v': NIL}}
            b = x.get('t', b'')
            if 'back' in o:
                t['back'] = o['back']
                if x['op'] == 'write': t['of'] = o['of']; b = bytes.fromhex(o['s'])
            num, op = numbers(b)
            t.update(b=list(b), s=b.decode('latin-1'), num=num, open=op)
            tr.append(t)
        rej, st, out = tracer.check_traces('JsonTrace', [tr[k::tracer.JOBS] for k in range(tracer.JOBS)], c.dir('json'), want_output=True)
        n = sum(map(int, re.findall(r'<<"COUNT", (\d+)>>', out)))
        c.add(evaluations=len(lines), traces_validated_against_impl=len(lines), states=st[0], transitions=st[1], denoting=n)
        for t in tr: c.nontrivial(t['op'] + t['s'])
        if rnd == 0:
            for k in (0, 1, 4000): c.sample({'text': tr[k]['s'][:200], 'op': tr[k]['op']})
        for i, _, asp in rej:
            k = int(i[1:])
            if (obs[k] or {}).get('crash') == 'skipped': continue
            c.violation(f'{sorted(asp)}: text {tr[k]["s"]!r} value {dumps(tr[k]["of"])[:300]} read as {dumps(tr[k]["back"])[:300]}', {'mode': 'json', 'lines': [hl[k]], 'observed': obs[k]})
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is one value written as JSON and read back, or one JSON text that is read; values and texts are random (all characters, escapes, notations of numbers), all short texts over the characters of numbers; distinct texts count.')
    c.assume += ['floats are finite', 'texts that are not JSON, objects with a key twice and integers beyond 64 bits are left open', 'Python gives the nearest double of a decimal text']

def check_base64(c):
    rnd = 0
    while True:
        rng = random.Random(f'C22/{c.seed}/{rnd}')
        items = []
        enc = lambda b: items.append({'op': 'enc', 's': b.hex(), 'b': list(b)})
        def dec(b):
            if isinstance(b, str): b = b.encode('utf-8')
            items.append({'op': 'dec', 's': b.hex(), 'b': list(b)})
        import base64
        if rnd == 0:
            enc(b'')
            for a in range(256): enc(bytes([a]))
            edge = [0, 1, 2, 3, 4, 15, 16, 63, 64, 127, 128, 191, 192, 240, 252, 254, 255]
            for k in (2, 3): 
                for x in itertools.product(range(256) if k == 2 and c.thorough else edge, repeat=k): enc(bytes(x))
            A = ['A', 'B', 'Q', 'g', 'w', '=', '-', '/', '+', '9', 'Z', 'z'] + (['0', ' ', '_', 'a'] if c.thorough else [])
            for k in range(0, 5):
                for x in itertools.product(A, repeat=k): dec(''.join(x))
            for a in range(256):
                for t in (b'QQ', b'QUJD', b'QQ==', b'QUI='):
                    for k in range(len(t) + 1):
                        dec(t[:k] + bytes([a]) + t[k:])
                        if k < len(t): dec(t[:k] + bytes([a]) + t[k + 1:])
        for _ in range(6000):
            b = bytes(rng.choice([rng.randrange(256), 0, 255]) for _ in range(rng.randint(41, 300) if rng.random() < .03 else rng.randint(0, 40)))
            enc(b)
            t = base64.b64encode(b).decode()
            x = rng.random()
            if x < .3: pass
            elif x < .5: t = t.rstrip('=')
            elif x < .6: t = t + rng.choice(['=', '==', '===', '====', 'A', ' ', '\n', '\0'])
            elif x < .65: t = t[:-1]
            elif x < .7 and len(t) > 4: k = rng.randrange(0, len(t) // 4 + 1) * 4; t = t[:k] + rng.choice(['QQ==', 'QUI=', '====', 'Q===', '=']) + t[k:]
            elif t:
                k = rng.randrange(len(t)); t = t[:k] + rng.choice(['=', '-', '_', 'A', 'B', '/', '+', '', '!', 'é', '\x7f', '\x01', 'h']) + t[k + rng.randint(0, 1):]
            dec(t)
        chunks = [items[k:k + 250] for k in range(0, len(items), 250)]
        obs = [g[0] for g in tracer.harness_parallel(build.harness(), 'base64', [[{'items': [{'op': i['op'], 's': i['s']} for i in ch]}] for ch in chunks], c.dir('b64'))]
        tr = [{'id': f't{k}', 'items': ch, 'r': (o or {}).get('r', [])} for k, (ch, o) in enumerate(zip(chunks, obs))]
        rej, st, out = tracer.check_traces('Base64Trace', [tr[k::tracer.JOBS] for k in range(tracer.JOBS)], c.dir('b64'), want_output=True)
        n = sum(map(int, re.findall(r'<<"COUNT", (\d+)>>', out)))
        c.add(evaluations=len(items), traces_validated_against_impl=len(items), states=st[0], transitions=st[1], convertible=n)
        for t in items: c.nontrivial(t['op'] + t['s'])
        if rnd == 0:
            for k in (5, 5000, -1): c.sample(items[k])
        for i, j, asp in rej:
            k = int(i[1:]); it = chunks[k][j - 1]
            if (obs[k] or {}).get('crash') == 'skipped': continue
            c.violation(f'{it["op"]} of {bytes(it["b"])!r} ({it["s"]}): {tr[k]["r"][j - 1] if j <= len(tr[k]["r"]) else obs[k]}',
                        {'mode': 'base64', 'lines': [{'items': [{'op': it['op'], 's': it['s']}]}], 'observed': tr[k]['r'][j - 1:j] or obs[k]})
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 60: break
    c.rules.append('A case is one byte string encoded (and decoded back) or one text decoded, each through the Base64 functions, the value type, the client and argument conversion: all single bytes, '
                   'boundary pairs and triples, all texts of up to four characters over a small alphabet, every byte inserted into or replacing each place of four texts, random ones with damage.')
