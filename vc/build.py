"""Compile harness translation units (which include /repo's current sources) to
LLVM IR with clang, for each verified configuration."""
import os, subprocess, tempfile, hashlib, shutil, atexit, sys
import llparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CONFIGS = {
    'x64': ['-m64'],
    'x64g': ['-m64', '-U__clang__'],
    'i686': ['-m32', '-msse2', '-mfpmath=sse'],
    'i686g': ['-m32', '-msse2', '-mfpmath=sse', '-U__clang__'],
}
BASE = ['clang++', '-std=c++17', '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-gline-tables-only',
        '-fno-exceptions', '-w', '-include', 'algorithm', '-I', REPO, '-I', os.path.join(VERIF, 'harness')]
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='verif-vc-')
        pid = os.getpid()

        def rm(d=_tmp):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
    return _tmp


class CompileError(Exception):
    pass


def compile_ir(src, config, defs=()):
    """src: file name under harness/ ; returns llparse.Mod"""
    path = os.path.join(VERIF, 'harness', src)
    out = os.path.join(tmpdir(), '%s-%s-%s.ll' % (src, config, hashlib.md5(repr(defs).encode()).hexdigest()[:8]))
    cmd = BASE + CONFIGS[config] + list(defs) + [path, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    text = open(out).read()
    m = llparse.Mod(text)
    m.cmd = ' '.join(cmd)
    names = [f[1:] for f in m.funcs]
    d = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    m.demangle = {'@' + n: x for n, x in zip(names, d)}
    return m


def declared(mod):
    """functions the module declares but does not define: {name: demangled}"""
    if not hasattr(mod, 'declared'):
        d = subprocess.run(['c++filt'], input='\n'.join(x[1:] for x in mod.decls), capture_output=True, text=True).stdout.split('\n')
        mod.declared = dict(zip(mod.decls, d))
    return mod.declared
