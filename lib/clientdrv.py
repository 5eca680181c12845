"""Static shapes of requests, and the driver of a generated client."""
from genmock import cpp
from gen import typ
TYPENAME = ('String', '')
def mods(t):
    """Wrappers as a text, outermost first: Q nullable, L list."""
    r, i, w = '', 0, t['w']
    while True:
        nn = i < len(w) and w[i] == 'N'
        if not nn: r += 'Q'
        i += nn
        if i >= len(w): return r
        r += 'L'; i += 1

def flat(S, frags, T, sels):
    for s in sels:
        if s['k'] == 'field':
            rn = s['a'] or s['n']
            if s['n'] == '__typename': yield rn, 'String', '', None
            elif s['n'] == '__schema': yield rn, '__Schema', '', s['sel']
            elif s['n'] == '__type': yield rn, '__Type', 'Q', s['sel']
            else:
                t = [f for f in S.types[T]['fields'] if f['name'] == s['n']][0]['type']
                yield rn, t['n'], mods(t), s['sel']
        else:
            on, sel = (frags[s['n']]['on'], frags[s['n']]['sel']) if s['k'] == 'spread' else (s['on'] or T, s['sel'])
            yield from flat(S, frags, on, sel)

def shape(S, frags, parts):
    """parts: (type, selections); the merged fields: [name, type, wrappers, fields]"""
    out = {}
    for T, sels in parts:
        for rn, n, m, sub in flat(S, frags, T, sels):
            x = out.setdefault(rn, [rn, n, m, []])
            if sub: x[3].append((n, sub))
    return [[rn, n, m, shape(S, frags, sub)] for rn, n, m, sub in out.values()]

def kind(S, n): return S.kind(n)
def enum_dump(S, n):
    vs = ' '.join(f'if (v == E::{cpp(x["name"])}) return canon("Enum", "{x["name"]}");' for x in S.types[n]['values'])
    return f'[](const auto& v) -> std::string {{ using E = std::decay_t<decltype(v)>; {vs} return canon("Enum", "?"); }}'
def enum_build(S, n):
    vs = ' '.join(f'if (sv(j["v"]) == "{x["name"]}") {{ x = E::{cpp(x["name"])}; return; }}' for x in S.types[n]['values'])
    return f'[](auto& x, const JV& j) {{ using E = std::decay_t<decltype(x)>; {vs} }}'
def out_leaf(S, n, sub):
    if kind(S, n) == 'ENUM': return enum_dump(S, n)
    if S.composite(n):
        return '[](const auto& v) -> std::string { Members m; ' + ' '.join(f'm.add("{rn}", dumpWith(v.{cpp(rn)}, {out_leaf(S, fn, fs)}));' for rn, fn, _, fs in sub) + ' return m.done(); }'
    return 'Leaf {}'
def in_leaf(S, n):
    if kind(S, n) == 'ENUM': return enum_build(S, n)
    if kind(S, n) == 'INPUT':
        return '[](auto& x, const JV& j) { ' + ' '.join(f'buildWith(x.{cpp(f["name"])}, memberOf(j, "{f["name"]}"), {in_leaf(S, f["type"]["n"])});' for f in S.types[n]['inputs']) + ' }'
    return 'SetLeaf {}'
def out_types(S, T, fields, path=''):
    r = []
    for rn, n, m, sub in fields:
        t = f'decltype({T}::{cpp(rn)})'
        r.append(f't.add("{path}{rn}", typeText<{t}>());')
        if S.composite(n): r += out_types(S, f'Base<{t}>', sub, f'{path}{rn}.')
    return r
def in_types(S, T, fields, path=''):
    r = []
    for n, t in fields:
        d = f'decltype({T}::{cpp(n)})'
        r.append(f't.add("{path}{n}", typeText<{d}>());')
        if kind(S, t['n']) == 'INPUT': r += in_types(S, f'Base<{d}>', [(f['name'], f['type']) for f in S.types[t['n']]['inputs']], f'{path}{n}.')
    return r

def driver(S, name, prefix, ns, fields, variables):
    o = ['#include "x_client.h"', f'#include "{prefix}Client.cpp"', f'namespace N = graphql::client::{ns};', 'namespace {',
         'std::string call(const JV& j)\n{\n\tconst auto op = sv(j["op"]);\n\tif (op == "info")\n\t{\n\t\tTypes t;']
    if variables: o += ['\t\t' + x for x in in_types(S, 'N::Variables', variables)]
    o.append('\t\tauto vars = joinList(t.l);\n\t\tt.l.clear();')
    o += ['\t\t' + x for x in out_types(S, 'N::Response', fields)]
    o.append('\t\tconst auto& ast = N::GetRequestObject();')
    o.append('\t\treturn "{\\"text\\":" + bytesOf(N::GetRequestText()) + ",\\"tree\\":" + executableTree(ast) + ",\\"validated\\":" + q(ast.validated ? "1" : "0") + ",\\"vars\\":" + vars + ",\\"fields\\":" + joinList(t.l) + "}";\n\t}')
    if variables:
        o.append('\tif (op == "vars")\n\t{\n\t\tN::Variables v;')
        o += [f'\t\tbuildWith(v.{cpp(n)}, memberOf(j["v"], "{n}"), {in_leaf(S, t["n"])});' for n, t in variables]
        o.append('\t\treturn "{\\"wire\\":" + dump(N::serializeVariables(std::move(v))) + "}";\n\t}')
    o.append('\ttry\n\t{\n\t\tconst auto v = N::parseResponse(fromCanon(j["v"]));\n\t\tMembers m;')
    o += [f'\t\tm.add("{rn}", dumpWith(v.{cpp(rn)}, {out_leaf(S, n, sub)}));' for rn, n, _, sub in fields]
    o.append('\t\treturn "{\\"ok\\":\\"1\\",\\"v\\":" + m.done() + "}";\n\t}\n\tcatch (const std::exception&) { return "{\\"ok\\":\\"0\\",\\"v\\":" + canon("Null", "") + "}"; }\n}')
    o.append(f'const bool reg = [] {{ clients()["{name}"] = call; return true; }}();\n}}')
    return '\n'.join(o) + '\n'
