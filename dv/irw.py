"""IR world: the real C++ classes of codon/cir compiled to LLVM IR and executed by dv/llvc.py together with a small harness.
The heap of IR objects is concrete; literals may be symbolic."""
import os, re, ctypes, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import llbuild, llparse, llvc, core
from llvc import Ptr, Exec, Hooks, Memory, mask, NOINT
from core import Unsupported
CIR = 'codon/cir/'
BASE = [CIR + x + '.cpp' for x in ('module', 'value', 'const', 'func', 'instr', 'flow', 'var', 'base', 'types/types', 'util/irtools', 'util/visitor', 'util/cloning', 'attribute')]
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
# small wrappers (iterators, smart pointers, accessors) are inlined by LLVM's inliner before execution
PASSES = 'cgscc(inline),function(sroa,early-cse,simplifycfg,simplifycfg)'
FLAGS = ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-access-control']

def compile_all(tus, tmp, harness='irh.cpp', extra=()):
    """-> list of .ll paths (harness and runtime stand-ins first); raises on compile errors of the tree"""
    srcs = [os.path.join(HARN, harness), os.path.join(HARN, 'rt.cpp')] + [os.path.join(llbuild.REPO, t) for t in tus]
    with ThreadPoolExecutor(8) as p:
        return list(p.map(lambda s: llbuild.compile_ll(s, tmp, FLAGS + list(extra), g=not s.startswith(HARN), o1=True, passes=PASSES), srcs))

def native(lls, tmp, main, out='drv', libs=True):
    """link the same IR natively with a driver"""
    objs = []
    def cc(l):
        o = l + '.o'
        p = subprocess.run(['clang++-18', '-c', '-O0', '-Wno-everything', '-fPIC', l, '-o', o], capture_output=True, text=True)
        if p.returncode: raise RuntimeError(p.stderr[-800:])
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, [l for l in lls if 'rt_cpp' not in os.path.basename(l)]))
    mo = os.path.join(tmp, out + '_main.o')
    p = subprocess.run(llbuild.CXX + ['-fno-access-control', '-O0', '-c', main, '-o', mo], capture_output=True, text=True)
    if p.returncode: raise RuntimeError(p.stderr[-1200:])
    exe = os.path.join(tmp, out)
    lib = os.path.join(llbuild.REPO, '_build')
    cmd = ['clang++-18', '-o', exe, mo] + objs + ['-L' + lib, '-lcodonc', '-lfmt', '-Wl,-rpath,' + lib, '-Wl,-rpath,/usr/lib/llvm-20/lib', '-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-lpthread', '-ldl', '-rdynamic', '-Wl,--allow-multiple-definition']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise RuntimeError(p.stderr[-1500:])
    return exe

def native_plain(srcs, tmp, main, out='drvp', opt='-O1'):
    """compile the listed sources of the tree and a driver natively (no IR detour) and link them before libcodonc"""
    objs = []
    full = [main] + [s if s.startswith('/') else os.path.join(llbuild.REPO, s) for s in srcs]
    def cc(s):
        o = os.path.join(tmp, out + '_' + re.sub(r'\W', '_', s)[-60:] + '.o')
        p = subprocess.run(llbuild.CXX + ['-fno-access-control', opt, '-g0', '-fPIC', '-Wno-everything', '-c', s, '-o', o], capture_output=True, text=True)
        if p.returncode: raise RuntimeError('native build of %s: %s' % (s, p.stderr[-1200:]))
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, full))
    exe = os.path.join(tmp, out); lib = os.path.join(llbuild.REPO, '_build')
    p = subprocess.run(['clang++-18', '-o', exe] + objs + ['-L' + lib, '-lcodonc', '-lfmt', '-Wl,-rpath,' + lib, '-Wl,-rpath,/usr/lib/llvm-20/lib', '-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-lpthread', '-ldl', '-rdynamic', '-Wl,--allow-multiple-definition'], capture_output=True, text=True)
    if p.returncode: raise RuntimeError(p.stderr[-1500:])
    return exe
# everything a whole-program run of the optimisation passes goes through
PROG = BASE + [CIR + x + '.cpp' for x in ('util/side_effect', 'util/matching', 'util/inlining', 'util/outlining', 'util/operator' , 'analyze/analysis', 'analyze/dataflow/capture', 'analyze/dataflow/cfg', 'analyze/dataflow/dominator',
        'analyze/dataflow/reaching', 'analyze/module/side_effect', 'analyze/module/global_vars', 'transform/pass', 'transform/manager', 'transform/cleanup/canonical', 'transform/cleanup/dead_code', 'transform/cleanup/global_demote',
        'transform/folding/folding', 'transform/folding/const_fold', 'transform/folding/const_prop', 'transform/rewrite', 'transform/parallel/schedule')]
PROG = [p for p in PROG if os.path.exists(os.path.join(llbuild.REPO, p))]
def native_async(*a, fn=None, **k):
    p = ThreadPoolExecutor(1); f = p.submit(fn or native, *a, **k)
    def get():
        r = f.result(); p.shutdown(); return r
    return get

_std = None
def std():
    global _std
    if _std is None: _std = ctypes.CDLL('libstdc++.so.6')
    return _std
class Pair(ctypes.Structure): _fields_ = [('a', ctypes.c_uint64), ('b', ctypes.c_uint64)]
class RP(ctypes.Structure): _fields_ = [('f', ctypes.c_float), ('n', ctypes.c_uint64)]

class World:
    def __init__(s, lls):
        with ThreadPoolExecutor(1) as p: s.mods = [llparse.Module(open(l).read()) for l in lls]
        s.index = {}
        for m in s.mods:
            for n, f in m.funcs.items():
                if not f.is_decl and 'internal' not in (f.linkage or ''): s.index.setdefault(n, f)
        for m in s.mods:
            for n, txt in m.globals.items():
                if ' alias ' in ' ' + txt:
                    mm = re.search(r'alias .*?, ptr @("(?:[^"\\]|\\.)*"|[-\w.$]+)', txt)
                    if mm and mm.group(1).strip('"') in m.funcs: s.index.setdefault(n, m.funcs[mm.group(1).strip('"')])
        s.base = None; s.skipped = []

    def exec(s, ctx, hooks=None, mem=None, **kw):
        e = WExec(s, ctx, mem=mem or Memory(s.base), hooks=hooks or base_hooks(), **kw)
        e.max_block_visits = 20000
        return e

    def boot(s, fn, ctx=None):
        """run static initialisers and fn(exec) concretely; keeps the heap as the base of later executions"""
        res = []
        t = core.Task('boot')
        def run(ctx):
            e = WExec(s, ctx, mem=Memory(), hooks=base_hooks(), ub='ignore', max_steps=40000000)
            e.max_block_visits = 200000
            for m in s.mods: e.ctors(m)
            r = fn(e); res.append((e.mem, r, e.steps))
        core.explore(t, run)
        if len(res) != 1: raise Unsupported('boot did not complete: %s' % [o.d() for o in t.obligations][:2] if hasattr(t, 'obligations') else 'boot')
        s.base = res[0][0]; s.boot_steps = res[0][2]
        return res[0][1]

class WExec(Exec):
    def __init__(s, w, ctx, **kw):
        super().__init__(w.mods, ctx, **kw); s.w = w
    def need(s, cond, what):
        # two's complement hardware: these C++ overflows do not trap, and their value is compared with the specification
        if 'signed add' in what or 'signed sub' in what or 'signed mul' in what or what.startswith('shift amount') or what.startswith('float to int'): return
        super().need(cond, what)
    def find_func(s, name):
        f = s.w.index.get(name)
        if f is not None: return f
        if s.stack:
            m = s.stack[-1][0].mod
            f = m.funcs.get(name)
            if f is not None and not f.is_decl: return f
        return super().find_func(name)
    def ctors(s, m):
        import re
        g = m.globals.get('llvm.global_ctors')
        if not g: return
        todo = []
        for n in re.findall(r'ptr @([-\w.$]+), ptr', g):
            f = m.funcs[n]
            inits = [m.funcs[x] for l in f.body_text for x in re.findall(r'call void @(__cxx_global_var_init[.\d]*)\(', l)]
            plain = all('@__cxx_global_var_init' in l or not re.search(r'(call|invoke) ', l) or '@llvm.' in l for l in f.body_text)
            if n.startswith('_GLOBAL__sub_I') and plain: todo += inits
            else: todo.append(f)
        for f in todo:
            d = (len(s.stack), s.depth)
            try: s.run(f, [])
            except (Unsupported, llvc.CxxThrow) as e: s.w.skipped.append((f.name, str(e)[:80]))
            del s.stack[d[0]:]; s.depth = d[1]
    def h(s, name, *args, rt=None):
        f = s.w.index.get(name)
        if f is None: raise Unsupported('harness function ' + name)
        return s.call(name, list(args), f.ret)
    def cstr(s, text):
        b = text.encode() + b'\0'
        o = s.mem.alloc(len(b), 'cstr'); mo = s.mem.getw(o)
        for i, c in enumerate(b): mo.cells[i] = (1, c)
        return Ptr(o, 0)

_bases = {}
def bases(ex, t):
    if t not in _bases:
        txt = next((m.globals[t] for m in ex.mods if t in m.globals and not m.globals[t].startswith('external')), None)
        if txt is None: raise Unsupported('type info ' + t)
        pr = re.findall(r'ptr @(_ZTI\w+)(?:, i64 (-?\d+))?', txt.split('{', 2)[-1])
        _bases[t] = [(b, int(f) >> 8 if f else 0) for b, f in pr]
    return _bases[t]
def base_hooks():
    hk = Hooks()
    def hashbytes(ex, a, n):
        k = a[1]
        if not isinstance(k, int): raise Unsupported('hash of symbolic length')
        bs = [ex.load_raw(ex.padd(a[0], i), 1) for i in range(k)]
        if not all(isinstance(b, int) for b in bs): raise Unsupported('hash of symbolic bytes')
        f = std()._ZSt11_Hash_bytesPKvmm; f.restype = ctypes.c_uint64; f.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_uint64]
        return f(bytes(bs), k, a[2] & mask(64))
    hk.onx('_ZSt11_Hash_bytesPKvmm', hashbytes)
    def rp(ex, p):
        import struct
        v = ex.load_raw(p, 4); fl = v.conc if isinstance(v, llvc.F) else struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0]
        return RP(fl, ex.load_raw(Ptr(p.obj, p.off + 8), 8) & mask(64))
    def need(ex, a, n):
        r = rp(ex, a[0]); f = std()._ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm
        f.restype = Pair; f.argtypes = [ctypes.POINTER(RP), ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint64]
        o = f(ctypes.byref(r), a[1], a[2], a[3])
        ex.store_raw(Ptr(a[0].obj, a[0].off + 8), 8, r.n)
        return [o.a & 0xff, o.b]
    hk.onx('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm', need)
    def nb(ex, a, n):
        if not isinstance(a[1], int): raise Unsupported('hash table of symbolic size in ' + ' < '.join(f[0].name for f in ex.stack[-4:]))
        r = rp(ex, a[0]); f = std()._ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm
        f.restype = ctypes.c_uint64; f.argtypes = [ctypes.POINTER(RP), ctypes.c_uint64]
        o = f(ctypes.byref(r), a[1]); ex.store_raw(Ptr(a[0].obj, a[0].off + 8), 8, r.n); return o
    hk.onx('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm', nb)
    def dyn(ex, a, n):
        p = a[0]
        if not isinstance(p, Ptr): return 0
        vt = ex.load_raw(p, 8); top = ex.load_raw(Ptr(vt.obj, vt.off - 16), 8); ti = ex.load_raw(Ptr(vt.obj, vt.off - 8), 8)
        name = lambda q: re.search(r'_ZTI\w+', ex.mem.get(q.obj).name).group(0)
        dst = name(a[2]); hits = []
        def walk(t, off):
            if t == dst: hits.append(off); return
            for b, o in bases(ex, t): walk(b, off + o)
        walk(name(ti), 0)
        return Ptr(p.obj, p.off + llvc.sgn(top, 64) + hits[0]) if hits else 0
    hk.onx('__dynamic_cast', dyn)
    hk.on(r'std::__detail::_Rehash_base<.*>::reserve\(', lambda ex, a, n: None)   # a hint only
    hk.on(r'std::ios_base::Init::', lambda ex, a, n: None)
    return hk
