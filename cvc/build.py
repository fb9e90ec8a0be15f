"""Compiles the real stubs of /repo's working tree to LLVM IR and parses them."""
import os, subprocess, tempfile, atexit, shutil, re
import ir
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
FLAGS = ['-DCAML_NAME_SPACE', '-DEXPORT=static', '-DBLAKE3_NO_SSE2', '-DBLAKE3_NO_SSE41', '-DBLAKE3_NO_AVX2',
         '-DBLAKE3_NO_AVX512', '-DBLAKE3_USE_NEON=0', '-DHAVE_GETENTROPY', '-DHAVE_ZLIB', '-maes', '-mpclmul']
INC = ['-I/usr/lib/ocaml', '-I' + SRC]
_tmp = None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='cvc.')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp
_mods = {}
def irtext(cfile, out, extra=()):
    ll = out + '.ll'; o = out + '.o.ll'
    r = subprocess.run(['clang-18', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w',
                        *FLAGS, *INC, *extra, cfile, '-o', ll], capture_output=True, text=True)
    if r.returncode: raise ir.Unsupported('clang: ' + r.stderr[:500])
    r = subprocess.run(['/usr/lib/llvm-18/bin/opt', '-S', '-passes=mem2reg,sroa', ll, '-o', o], capture_output=True, text=True)
    if r.returncode: raise ir.Unsupported('opt: ' + r.stderr[:500])
    return open(o).read()
def module(stub, extra=()):
    key = (stub, tuple(extra))
    m = _mods.get(key)
    if m is None:
        out = os.path.join(tmp(), stub + '-' + str(len(_mods)))
        m = ir.parse_module(irtext(os.path.join(SRC, stub + '.c'), out, extra))
        m.stub = stub
        _mods[key] = m
    return m
_lay = {}
def layout(stub, typ, fields, extra=()):
    """{field: (offset, size)}, total size; raises Unsupported when a field does not exist"""
    key = (stub, typ, tuple(fields), tuple(extra))
    if key in _lay: return _lay[key]
    src = f'#include <stddef.h>\n#include "{SRC}/{stub}.c"\n'
    src += f'const unsigned long vf_total = sizeof({typ});\n'
    for f in fields:
        id_ = re.sub(r'\W', '_', f)
        src += f'const unsigned long vf_o_{id_} = offsetof({typ}, {f});\nconst unsigned long vf_s_{id_} = sizeof((({typ}*)0)->{f});\n'
    p = os.path.join(tmp(), 'lay.c'); open(p, 'w').write(src)
    r = subprocess.run(['clang-18', '-S', '-emit-llvm', '-O0', '-w', *FLAGS, *INC, *extra, p, '-o', '-'], capture_output=True, text=True)
    if r.returncode: raise ir.Unsupported('layout: ' + r.stderr[:300])
    g = dict(re.findall(r'@(vf_\w+) = .*?constant i64 (\d+)', r.stdout))
    res = ({f: (int(g['vf_o_' + re.sub(r'\W', '_', f)]), int(g['vf_s_' + re.sub(r'\W', '_', f)])) for f in fields}, int(g['vf_total']))
    _lay[key] = res
    return res
