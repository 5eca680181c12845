"""Writes the mock implementation of a generated service: every getter reports its call and answers as the object graph of the case says."""
import re
def cpp(n):
    """The C++ name of a GraphQL name."""
    return re.sub(r'^_([A-Z])', r'\1', re.sub(r'_{2,}', '_', n))
def cap(n):
    n = cpp(n)
    return n[0].upper() + n[1:]
BUILTIN = {'Int': 'gr::IntType', 'Float': 'gr::FloatType', 'String': 'gr::StringType', 'Boolean': 'gr::BooleanType', 'ID': 'gr::IdType'}

def base(S, n):
    if n in BUILTIN: return BUILTIN[n]
    k = S.kind(n)
    if k == 'SCALAR': return 'gr::Value'
    if k == 'OBJECT': return f'std::shared_ptr<N::object::{cpp(n)}>'
    if k in ('INTERFACE', 'UNION'): return 'std::shared_ptr<gs::Object>'
    return f'N::{cpp(n)}'
def ctype(S, t, output):
    def go(i):
        nn = i < len(t['w']) and t['w'][i] == 'N'
        j = i + nn
        if j < len(t['w']): r = f'std::vector<{go(j + 1)}>'
        else:
            r = base(S, t['n'])
            if output and S.composite(t['n']): return r       # a shared_ptr may always be null
        return r if nn else f'std::optional<{r}>'
    return go(0)

def cstr(s): return '"' + s + '"'

def mock(S, ns, prefix, header, stubs=()):
    """stubs: (type, field) pairs which are left to the generated stubs."""
    o = ['#include "x_gen.h"', f'#include "{header}"', f'namespace N = graphql::{ns};']
    for t in S.s['types']:
        n = cpp(t['name'])
        if t['kind'] == 'ENUM':
            o.append(f'template <> struct Dump<N::{n}> {{ static std::string of(N::{n} v) {{ switch (v) {{ ' +
                     ' '.join(f'case N::{n}::{cpp(v["name"])}: return canon("Enum", {cstr(v["name"])});' for v in t['values']) + ' } return canon("Enum", "?"); } };')
            o.append(f'template <> struct Build<N::{n}> {{ static N::{n} from(World&, const JV& v) {{ ' +
                     ' '.join(f'if (sv(v["v"]) == {cstr(v["name"])}) return N::{n}::{cpp(v["name"])};' for v in t['values']) + ' throw std::logic_error("enum"); } };')
    done, todo = set(), [t for t in S.s['types'] if t['kind'] == 'INPUT']
    while todo:
        for t in list(todo):
            if any(f['type']['n'] in [x['name'] for x in todo if x is not t] for f in t['inputs']): continue
            n = cpp(t['name'])
            o.append(f'template <> struct Dump<N::{n}> {{ static std::string of(const N::{n}& v) {{ MapDump m; ' +
                     ' '.join(f'm.add({cstr(f["name"])}, dumpArg<{ctype(S, f["type"], False)}>(v.{cpp(f["name"])}));' for f in t['inputs']) + ' return m.done(); } };')
            todo.remove(t)
    o.append('namespace {')
    for t in S.s['types']:
        if t['kind'] != 'OBJECT': continue
        n = cpp(t['name'])
        o.append(f'struct M_{n} : N::object::{n} {{ World& w; std::string id; const JV& def;\n\tM_{n}(World& w_, std::string i, const JV& d) : w(w_), id(std::move(i)), def(d) {{}}\n\tGEN_HOOKS')
        acc = 'apply' if t['name'] == S.s['mutation'] else 'get'
        for f in t['fields']:
            if (t['name'], f['name']) in stubs: continue
            R = ctype(S, f['type'], True)
            A = [ctype(S, a['type'], False) for a in f['args']]
            o.append(f'\tgs::FieldResult<{R}> {acc}{cap(f["name"])}(gs::FieldParams&& p' + ''.join(f', {a}&& a{i}' for i, a in enumerate(A)) +
                     f') const override {{ return genCall<{R}>(w, id, def, {cstr(f["name"])}, p, {{' +
                     ', '.join(f'{{{cstr(a["name"])}, dumpArg<{A[i]}>(a{i})}}' for i, a in enumerate(f['args'])) + '}); }')
        o.append('};')
    o.append(f'const bool reg = [] {{ generated()["{ns}"] = GenService {{ [](World& w) {{\n\tWorld* pw = &w;\n\tw.schema = N::GetSchema();')
    o.append('\tw.factory = [pw](const std::string& id, const JV& d) -> std::shared_ptr<gs::Object> {\n\t\tconst auto t = str(d["type"]);')
    for t in S.s['types']:
        if t['kind'] == 'OBJECT': o.append(f'\t\tif (t == "{t["name"]}") return std::make_shared<M_{cpp(t["name"])}>(*pw, id, d);')
    o.append('\t\tthrow std::logic_error("type " + t);\n\t};')
    o.append('\tw.service = [pw](const JV& roots) -> std::shared_ptr<gs::Request> {')
    o.append('\t\tstd::map<std::string, std::shared_ptr<gs::Object>> r;\n\t\tfor (auto& x : roots.GetArray()) r[str(x["op"])] = pw->obj(str(x["o"]));')
    ops = [x for x in ('query', 'mutation', 'subscription') if S.s[x]]
    o.append(f'\t\treturn std::make_shared<N::Operations>(' + ', '.join(f'std::static_pointer_cast<N::object::{cpp(S.s[x])}>(r["{x}"])' for x in getattr(S, 'oporder', ops)) + ');')
    o.append('\t};\n} }; return true; }();\n}')
    return '\n'.join(o) + '\n'
