"""Content-addressed builder: an object is rebuilt only when its preprocessed text or flags change."""
import hashlib, os, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'
BASE = ['-std=c++17', '-O1', '-g1', '-DUSE_STD_FILESYSTEM', '-Wno-deprecated-declarations', '-w',
        f'-I{REPO}/include', f'-I{REPO}/PEGTL/include']
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def compile_one(src, flags):
    os.makedirs(BUILD + '/obj', exist_ok=True)
    pp = _run([CXX, *flags, '-E', '-P', src])
    if pp.returncode:
        raise BuildError(f'preprocess {src}:\n' + pp.stderr.decode(errors='replace')[-3000:])
    key = hashlib.sha256('\0'.join(flags).encode() + b'\1' + pp.stdout).hexdigest()[:32]
    obj = f'{BUILD}/obj/{key}.o'
    if not os.path.exists(obj):
        tmp = f'{obj}.{os.getpid()}.tmp.o'
        cc = _run([CXX, *flags, '-c', src, '-o', tmp])
        if cc.returncode:
            raise BuildError(f'compile {src}:\n' + cc.stderr.decode(errors='replace')[-3000:])
        os.replace(tmp, obj)
    return obj

def build(name, sources, extra=(), libs=('-lpthread',), jobs=8, objs=()):
    """sources: list of absolute paths; slow ones first.  Returns the binary path."""
    flags = BASE + list(extra)
    with ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags), sources)) + list(objs)
    key = hashlib.sha256('\0'.join(objs + list(extra) + list(libs)).encode()).hexdigest()[:16]
    os.makedirs(BUILD + '/bin', exist_ok=True)
    out = f'{BUILD}/bin/{name}-{key}'
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}.tmp'
        ld = _run([CXX, *[f for f in extra if f.startswith('-fsan')], *objs, '-o', tmp, *libs])
        if ld.returncode:
            raise BuildError('link:\n' + ld.stderr.decode(errors='replace')[-3000:])
        os.replace(tmp, out)
    return out

R = lambda *n: [f'{REPO}/src/{x}' for x in n]
_SERVICE = ['SyntaxTree.cpp', 'GraphQLService.cpp', 'IntrospectionSchema.cpp', 'Validation.cpp', 'Schema.cpp', 'Introspection.cpp',
            'GraphQLResponse.cpp', 'Base64.cpp', 'JSONResponse.cpp', 'GraphQLClient.cpp']
_GEN = ['SyntaxTree.cpp', 'SchemaLoader.cpp', 'GeneratorLoader.cpp', 'GeneratorUtil.cpp', 'GraphQLResponse.cpp', 'Base64.cpp']
_MAIN = ['SchemaGenerator.cpp', 'ClientGenerator.cpp', 'RequestLoader.cpp']
# files a refactoring may have added belong to every program
_NEW = sorted(f for f in os.listdir(f'{REPO}/src') if f.endswith('.cpp') and f not in _SERVICE + _GEN + _MAIN)
LIB = R(*_SERVICE, *_NEW)
GENLIB = R(*_GEN, *_NEW)

def harness():
    h = f'{VERIF}/harness'
    mine = sorted(os.path.join(h, f) for f in os.listdir(h) if f.endswith('.cpp') and not f.startswith('x_'))
    return build('gqlh', LIB[:1] + mine + LIB[1:], extra=ASAN)

def schemagen():
    return build('schemagen', GENLIB[:1] + R('SchemaGenerator.cpp') + GENLIB[1:], libs=('-lpthread', '-lboost_program_options'))

def clientgen():
    return build('clientgen', GENLIB[:1] + R('ClientGenerator.cpp', 'RequestLoader.cpp') + GENLIB[1:] + [f for f in LIB if f not in GENLIB],
                 libs=('-lpthread', '-lboost_program_options'))

if __name__ == '__main__':
    for f in (['harness', 'schemagen', 'clientgen'] if sys.argv[1:] == ['all'] else sys.argv[1:] or ['harness']):
        print(globals()[f]())
