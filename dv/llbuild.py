"""Compile /repo C/C++ sources of the current working tree to LLVM IR (content-addressed cache per process only)."""
import subprocess, os, hashlib, tempfile
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CXX = ['clang++-18', '-std=gnu++20', '-Wno-everything', '-I' + REPO + '/_build/gen', '-I' + REPO, '-I' + REPO + '/_build/_cmrc/include',
       '-isystem', '/usr/lib/llvm-20/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-DFMT_SHARED', '-fPIC']
CC = ['clang-18', '-std=gnu11', '-Wno-everything']

def compile_ll(src, workdir, extra=(), lang='c++', passes='sroa,mem2reg', g=True, o1=False):
    os.makedirs(workdir, exist_ok=True)
    base = os.path.join(workdir, os.path.basename(src).replace('.', '_') + hashlib.sha1((src + ' '.join(extra)).encode()).hexdigest()[:6])
    raw, out = base + '.raw.ll', base + '.ll'
    cmd = (CXX if lang == 'c++' else CC) + list(extra) + ['-S', '-emit-llvm'] + (['-O1', '-Xclang', '-disable-llvm-passes'] if o1 else ['-O0', '-Xclang', '-disable-O0-optnone']) + (['-gline-tables-only'] if g else []) + [src, '-o', raw]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: raise RuntimeError('clang failed on %s: %s' % (src, p.stderr[-1500:]))
    if passes:
        p = subprocess.run([LLVM + '/opt', '-S', '-passes=' + passes] + (['-inline-threshold=60'] if o1 else []) + [raw, '-o', out], capture_output=True, text=True)
        if p.returncode != 0: raise RuntimeError('opt failed: ' + p.stderr[-800:])
        os.unlink(raw)
    else: out = raw
    return out
