"""The types every service has: built-in scalars and the introspection schema (June 2018)."""
from gen import typ, argdef, fielddef, ty, EXEC_LOCS
def _f(n, t, *w, args=()): return fielddef(n, typ(t, *w), args)
_dep = [argdef('includeDeprecated', typ('Boolean'), 'false')]
LOCS = EXEC_LOCS + ['SCHEMA', 'SCALAR', 'OBJECT', 'FIELD_DEFINITION', 'ARGUMENT_DEFINITION', 'INTERFACE', 'UNION', 'ENUM', 'ENUM_VALUE', 'INPUT_OBJECT', 'INPUT_FIELD_DEFINITION']
KINDS = ['SCALAR', 'OBJECT', 'INTERFACE', 'UNION', 'ENUM', 'INPUT_OBJECT', 'LIST', 'NON_NULL']
SCALARS = [ty('SCALAR', n, desc='Built-in type') for n in ('Boolean', 'Float', 'ID', 'Int', 'String')]
META = [
    ty('ENUM', '__TypeKind', values=[{'name': v, 'dep': []} for v in KINDS]),
    ty('ENUM', '__DirectiveLocation', values=[{'name': v, 'dep': []} for v in LOCS]),
    ty('OBJECT', '__Schema', fields=[_f('types', '__Type', 'N', 'L', 'N'), _f('queryType', '__Type', 'N'), _f('mutationType', '__Type'), _f('subscriptionType', '__Type'), _f('directives', '__Directive', 'N', 'L', 'N')]),
    ty('OBJECT', '__Type', fields=[_f('kind', '__TypeKind', 'N'), _f('name', 'String'), _f('description', 'String'), _f('fields', '__Field', 'L', 'N', args=_dep),
        _f('interfaces', '__Type', 'L', 'N'), _f('possibleTypes', '__Type', 'L', 'N'), _f('enumValues', '__EnumValue', 'L', 'N', args=_dep), _f('inputFields', '__InputValue', 'L', 'N'), _f('ofType', '__Type')]),
    ty('OBJECT', '__Field', fields=[_f('name', 'String', 'N'), _f('description', 'String'), _f('args', '__InputValue', 'N', 'L', 'N'), _f('type', '__Type', 'N'), _f('isDeprecated', 'Boolean', 'N'), _f('deprecationReason', 'String')]),
    ty('OBJECT', '__InputValue', fields=[_f('name', 'String', 'N'), _f('description', 'String'), _f('type', '__Type', 'N'), _f('defaultValue', 'String')]),
    ty('OBJECT', '__EnumValue', fields=[_f('name', 'String', 'N'), _f('description', 'String'), _f('isDeprecated', 'Boolean', 'N'), _f('deprecationReason', 'String')]),
    ty('OBJECT', '__Directive', fields=[_f('name', 'String', 'N'), _f('description', 'String'), _f('locations', '__DirectiveLocation', 'N', 'L', 'N'), _f('args', '__InputValue', 'N', 'L', 'N')]),
]
