"""C01 and C02: texts parsed by the library and by Parser.tla."""
import random, re
from gql import *
import pgen, tracer, build

def lines_of(texts):
    """texts: (id, bytes, kind, via, sort)"""
    hl = [{'k': 'text', 'hex': b.hex(), 'kind': kind, 'via': via} for _, b, kind, via, _ in texts]
    tl = [{'id': i, 'b': list(b), 's': b.decode('latin-1'), 'kind': kind} for i, b, kind, via, _ in texts]
    return hl, tl

def judge(texts, workdir):
    hl, tl = lines_of(texts)
    size = max(1, len(hl) // 64)
    groups = [hl[i:i + size] for i in range(0, len(hl), size)]
    obs = [o for g in tracer.harness_parallel(build.harness(), 'parse', groups, workdir) for o in g]
    tr = []
    for t, o in zip(tl, obs):
        o = o or {}
        tr.append(dict(t, r=o.get('r', 'crash'), tree=o.get('tree', [])))
    shards = [tr[k::tracer.JOBS] for k in range(tracer.JOBS)]
    rej, st, out = tracer.check_traces('ParseTrace', shards, workdir, want_output=True)
    accepted = sum(map(int, re.findall(r'<<"COUNT", (\d+)>>', out)))
    return hl, obs, tr, rej, st, accepted

def batch(seed, n):
    r = []
    for k in range(n):
        rng = random.Random(f'C01/{seed}/{k}')
        kind = rng.choice(['exec', 'exec', 'schema'])
        while True:
            b, sort = pgen.document(rng, kind)
            if len(b) < 700: break
        via = rng.choice(['string', 'string', 'file', 'udl'] if kind == 'exec' else ['string', 'string', 'file'])
        r.append((f't{k}', b, kind, via, sort))
    return r

def report(c, hl, obs, tr, rej):
    for i, step, asp in rej:
        k = next(j for j, t in enumerate(tr) if t['id'] == i)
        if tr[k]['r'] == 'crash':
            if not tracer.confirmed(c, build.harness(), 'parse', [hl[k]], obs[k]): continue
        c.violation(f'text {i} ({hl[k]["kind"]} via {hl[k]["via"]}): {sorted(asp)}: {bytes(tr[k]["b"]).decode(errors="replace")!r} {dumps(obs[k])[:300]}',
                    {'mode': 'parse', 'lines': [hl[k]], 'observed': obs[k]})

def check(c):
    probe(c)
    rnd = 0
    while True:
        texts = batch(f'{c.seed}.{rnd}' if rnd else c.seed, 5000)
        if rnd == 0: texts += short(c)
        hl, obs, tr, rej, st, acc = judge(texts, c.dir('parse'))
        for t, o in zip(texts, obs):
            if t[4] != 'short' and (o or {}).get('r') == 'tree': c.nontrivial(t[1])
        for t in texts[:2]: c.sample({'text': t[1].decode(errors='replace')[:400], 'sort': t[4]})
        c.add(evaluations=len(texts), traces_validated_against_impl=len(texts), states=st[0], transitions=st[1], accepted=acc)
        report(c, hl, obs, tr, rej)
        rnd += 1
        if not c.thorough or c.violations or c.left(600) < 90: break
    c.rules.append('A case is one text: generated from the grammar (executable, type system or mixed), or such a text with tokens or characters changed, or one of all short token '
                   'sequences; non-trivial: longer texts that the library accepts, distinct.')
    c.assume += ['a number directly followed by a name, number or dot may be read either way', 'what counts as a line after a lone carriage return is open',
                 'lists and types are not nested more than a few levels']

def probe(c):
    """Known findings: places where the library reads another language than the grammar."""
    for key, text, want, what in [('dollar', '{f(a: $ x)}', 'tree', 'the $ of a variable is a token of its own, but the name has to follow at once'),
                                  ('const', 'query($x: Int = $y){f(a: $x)}', 'error', 'a variable as the default of a variable is accepted')]:
        line = {'k': 'text', 'hex': text.encode().hex(), 'kind': 'exec', 'via': 'string'}
        o = tracer.harness_run(build.harness(), 'parse', [line], c.dir('probe'))[-1]
        c.add(evaluations=1)
        if (o.get('r') == 'tree') != (want == 'tree'): c.finding(key, f'{text}: {what}', {'mode': 'parse', 'lines': [line], 'observed': o})

def short(c):
    """All sequences of a few tokens in a few places."""
    import itertools
    r = []
    frames = [('{ f %s }', ['a', ':', '(', ')', '{', '}', '@d', '...', 'on', '$v', '1'], 'exec'),
              ('query q %s { a }', ['(', ')', '$v', ':', 'T', '[', ']', '!', '=', '1', '@d'], 'exec'),
              ('type T %s', ['implements', 'A', '&', '{', '}', 'f', ':', '@d', '(', ')', '"s"'], 'schema'),
              ('extend %s', ['schema', 'type', 'union', 'enum', 'A', '{', '}', '=', '|', '@d', 'query', ':'], 'schema')]
    for f, ts, kind in frames:
        for n in range(1, 4):
            for x in itertools.product(ts, repeat=n): r.append((f % ' '.join(x), kind))
        if c.thorough:
            for x in itertools.product(ts, repeat=4): r.append((f % ' '.join(x), kind))
    for n in range(1, 5 if c.thorough else 4):
        for x in itertools.product('-01.eE+ ', repeat=n): r.append(('{f(a:' + ''.join(x) + ')}', 'exec'))
    for n in range(0, 5 if c.thorough else 4):
        for x in itertools.product(['"', '\\', 'u', 'n', '\n', ' ', 'é'], repeat=n): r.append(('{f(a:"' + ''.join(x) + '")}', 'exec'))
    c.cov['short_texts_in_all'] = len(r)
    return [(f's{k}', t.encode(), kind, 'string', 'short') for k, (t, kind) in enumerate(r)]
