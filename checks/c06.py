"""C06: software float conversions are correctly rounded for every bit pattern."""
import os, sys, struct, subprocess, ctypes, json
import z3
import core, llbuild, llparse, llvc
from check import T
PROP = 'C06'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification (VC generation from LLVM IR of the real C, SMT floating-point postcondition)'
SRC = llbuild.REPO + '/codon/runtime/floatlib/'
# file, function, source kind, destination kind, extra flags
FUNCS = [('extendhfsf2.c', '__extendhfsf2', 'half', 'float'), ('extendhfsf2.c', '__gnu_h2f_ieee', 'half', 'float'), ('extendsfdf2.c', '__extendsfdf2', 'float', 'double'),
         ('extendhftf2.c', '__extendhftf2', 'half', 'fp128'), ('extendsftf2.c', '__extendsftf2', 'float', 'fp128'), ('extenddftf2.c', '__extenddftf2', 'double', 'fp128'),
         ('truncdfhf2.c', '__truncdfhf2', 'double', 'half'), ('truncdfsf2.c', '__truncdfsf2', 'double', 'float'), ('truncsfhf2.c', '__truncsfhf2', 'float', 'half'), ('truncsfhf2.c', '__gnu_f2h_ieee', 'float', 'half'),
         ('truncdfbf2.c', '__truncdfbf2', 'double', 'bfloat'), ('truncsfbf2.c', '__truncsfbf2', 'float', 'bfloat'),
         ('trunctfdf2.c', '__trunctfdf2', 'fp128', 'double'), ('trunctfsf2.c', '__trunctfsf2', 'fp128', 'float'), ('trunctfhf2.c', '__trunctfhf2', 'fp128', 'half')]
# the quad routines are guarded by macros this tree's headers never define; these select the configuration they are written for
FLAGS = ['-DCRT_HAS_TF_MODE', '-DCRT_HAS_F128', '-DCRT_LDBL_128BIT', '-Dtf_float=long double', '-DCOMPILER_RT_HAS_FLOAT16', '-mlong-double-128', '-msse2', '-ffp-contract=off']
ASSUMPTIONS = ['clang -O0 lowers the C source faithfully to LLVM IR', 'long double compiled as IEEE binary128 (-mlong-double-128), the format the *tf* routines are written for',
               'the SMT-LIB FloatingPoint theory is IEEE-754; NaN payloads beyond "is a NaN" are constrained only for quiet-bit and sign']
NOTE = 'Every conversion routine is proved, for every input bit pattern, equal to the IEEE-754 round-to-nearest-even conversion; the same routines are also executed natively on sampled and edge patterns to produce failing inputs.'
TRUSTED = ['clang 18', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'z3', 'cvc5']
W = {'half': (16, 10), 'bfloat': (16, 7), 'float': (32, 23), 'double': (64, 52), 'fp128': (128, 112)}

def sgnexpmant(b, k):
    w, m = W[k]
    return z3.Extract(w - 1, w - 1, b), z3.Extract(w - 2, m, b), z3.Extract(m - 1, 0, b)

def prove_fn(task, tmp, file, fn, sk, dk, part):
    ll = LL[file]
    if isinstance(ll, Exception): raise core.Unsupported('does not compile: %s' % ll)
    m = llparse.Module(open(ll).read())
    if fn not in m.funcs or m.funcs[fn].is_decl: raise core.Unsupported('function %s not in the compiled object' % fn)
    task.functions.add('%s (%s)' % (fn, file))
    ws, ms = W[sk]; wd, md = W[dk]
    rt = {}
    def run(ctx):
        x = ctx.fresh_bv('x', ws); ctx.input('bits', x)
        xs, xe, xm = sgnexpmant(x, sk)
        ones = z3.BitVecVal(-1, ws - 1 - ms)
        # exhaustive case split on the exponent class (keeps each query small)
        conds = {'nan': z3.And(xe == ones, xm != 0), 'inf': z3.And(xe == ones, xm == 0), 'sub': xe == 0, 'nrm': z3.And(xe != 0, xe != ones)}
        ctx.assume(conds[part])
        ctx.cover('input class ' + part)
        ex = llvc.Exec(m, ctx, who=fn)
        f = m.funcs[fn]
        at = f.params[0] if hasattr(f, 'params') else None
        arg = llvc.F(sk, bits=x)
        r = ex.call(fn, [arg], None)
        if isinstance(r, llvc.F): rb = r.bits(ex)
        else: rb = r
        rb = llvc.bv(rb, wd)
        rs, re_, rm = sgnexpmant(rb, dk)
        done = z3.BitVecVal(-1, wd - 1 - md)
        ctx.cover('returns')
        if part == 'nan':
            ctx.prove(z3.And(re_ == done, rm != 0), 'NaN stays NaN')
            ctx.prove(rs == xs, 'NaN sign kept')
            return
        ctx.prove(rs == xs, 'sign kept')
        if part == 'inf':
            ctx.prove(z3.And(re_ == done, rm == 0), 'infinity stays infinity'); return
        # correctly rounded: the result equals the IEEE conversion (RNE)
        spec = z3.fpToFP(z3.RNE(), z3.fpBVToFP(x, llvc.fsort(sk)), llvc.fsort(dk))
        ctx.prove(z3.fpBVToFP(rb, llvc.fsort(dk)) == spec, 'correctly rounded (RNE)', timeout=60000)
    core.explore(task, run)

LL = {}
def setup(tmp, tier):
    for file in sorted({f[0] for f in FUNCS}):
        try: LL[file] = llbuild.compile_ll(SRC + file, tmp, FLAGS, 'c')
        except Exception as e: LL[file] = e
    return LL

def tasks(tier):
    tmp = os.environ['VERIF_TMP']
    ts = []
    for file, fn, sk, dk in FUNCS:
        for part in ('nan', 'inf', 'sub', 'nrm'):
            ts.append(T('%s[%s]' % (fn, part), prove_fn, (tmp, file, fn, sk, dk, part), timeout=300, smt_ms=60000, unit=fn))
    return ts

# ---------------------------------------------------------------- concrete execution of the real compiled code
DRV = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
typedef unsigned __int128 u128;
SRCT_DECL
int main(int argc,char**argv){ char buf[128]; while(fgets(buf,sizeof buf,stdin)){ 
  u128 v=0; for(char*p=buf;*p&&*p!='\n';p++){ int d=*p<='9'?*p-'0':*p-'a'+10; v=v*16+d; }
  SRC_T a; memcpy(&a,&v,sizeof a); DST_T r=FN(a); u128 o=0; memcpy(&o,&r,sizeof r);
  printf("%016llx%016llx\n",(unsigned long long)(o>>64),(unsigned long long)o); } return 0; }
'''
CT = {'half': '_Float16', 'bfloat': '__bf16', 'float': 'float', 'double': 'double', 'fp128': 'long double'}

def build_driver(tmp, file, fn, sk, dk):
    d = os.path.join(tmp, 'drv_' + fn); os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'd.c')
    open(src, 'w').write(DRV.replace('SRCT_DECL', 'extern %s %s(%s);' % (CT[dk], fn, CT[sk])).replace('SRC_T', CT[sk]).replace('DST_T', CT[dk]).replace('FN', fn))
    exe = os.path.join(d, 'd')
    p = subprocess.run(['clang-18', '-std=gnu11', '-w', '-O1'] + FLAGS + [src, SRC + file, '-o', exe], capture_output=True, text=True)
    if p.returncode: raise RuntimeError(p.stderr[-1500:])
    return exe

from fractions import Fraction
def decode(b, k):
    w, m = W[k]; eb = w - 1 - m; bias = (1 << (eb - 1)) - 1
    s = b >> (w - 1); e = b >> m & ((1 << eb) - 1); f = b & ((1 << m) - 1)
    if e == (1 << eb) - 1: return s, 'nan' if f else 'inf'
    if e == 0: return s, Fraction(f) * Fraction(2) ** (1 - bias - m)
    return s, Fraction(f | 1 << m) * Fraction(2) ** (e - bias - m)
def encode_rne(s, v, k):
    w, m = W[k]; eb = w - 1 - m; bias = (1 << (eb - 1)) - 1
    if v == 'inf': return s << (w - 1) | ((1 << eb) - 1) << m
    if v == 0: return s << (w - 1)
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if Fraction(2) ** e > v: e -= 1
    e = max(e, 1 - bias)
    q = v / Fraction(2) ** (e - m)
    n = q.numerator // q.denominator; r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1): n += 1
    if n >= 1 << (m + 1): n >>= 1; e += 1
    if n < 1 << m: return s << (w - 1) | n
    if e > bias: return s << (w - 1) | ((1 << eb) - 1) << m
    return s << (w - 1) | (e + bias) << m | (n - (1 << m))
def expect(b, sk, dk):
    s, v = decode(b, sk)
    if v == 'nan': return ('nan', s)
    return encode_rne(s, v, dk)
def bad(b, r, sk, dk):
    e = expect(b, sk, dk)
    if isinstance(e, tuple):
        rs, rv = decode(r, dk)
        return None if rv == 'nan' and rs == e[1] else 'NaN with sign %d' % e[1]
    return None if e == r else hex(e)

def patterns(sk, dk, rng, n):
    w, m = W[sk]; eb = w - 1 - m; wd, md = W[dk]; out = []
    if w == 16: return list(range(1 << 16))
    exps = list(range(1 << eb)) if eb <= 8 else sorted(set([0, 1, 2, (1 << eb) - 1, (1 << eb) - 2] + [(1 << (eb - 1)) - 1 + d for d in list(range(-160, 140)) + [-1022, -1023, -1024, -1074, -1075, -1076, -1050, 1023, 1024, -16494]if 0 <= (1 << (eb - 1)) - 1 + d < 1 << eb] + [rng.randrange(1 << eb) for _ in range(60)]))
    sh = max(m - md, 0)
    def mants():
        ms = {0, 1, (1 << m) - 1, 1 << (m - 1)}
        for s in {sh, sh + 1, sh + 2, sh + 5, min(m - 1, sh + 8), min(m - 1, sh + 10), m - 1, min(m-1, sh+20)}:
            if s <= 0 or s > m: continue
            hi = rng.randrange(1 << (m - s)) << s if s < m else 0
            h = 1 << (s - 1)
            for lo in (0, h, h - 1, h + 1, 1): ms |= {(hi | lo) & ((1 << m) - 1), ((hi | lo) ^ (1 << s)) & ((1 << m) - 1)}
        ms.add(rng.randrange(1 << m)); ms.add(rng.randrange(1 << m)); return ms
    for e in exps:
        for f in mants(): out.append(rng.randrange(2) << (w - 1) | e << m | f)
    return out

def run_driver(exe, pats):
    p = subprocess.run([exe], input='\n'.join('%x' % b for b in pats) + '\n', capture_output=True, text=True, timeout=120)
    return [int(x, 16) for x in p.stdout.split()]

def find(rep, tmp, file, fn, sk, dk):
    exe = build_driver(tmp, file, fn, sk, dk)
    pats = patterns(sk, dk, rep.rng, 0)
    res = run_driver(exe, pats)
    if len(res) != len(pats): rep.fail(fn + ':crash', 'driver stopped after %d inputs, at %x' % (len(res), pats[len(res)])); return
    rep.distinct = len(set(pats))
    for b, r in zip(pats, res):
        rep.case('%s(%x) = %x' % (fn, b, r))
        e = bad(b, r, sk, dk)
        if e: rep.fail('%s' % fn, '%s(%#x) returned %#x, expected %s' % (fn, b, r, e))

def finders(tier):
    tmp = os.environ['VERIF_TMP']
    return [T('exec ' + fn, find, (tmp, file, fn, sk, dk), timeout=120) for file, fn, sk, dk in FUNCS]

def replay(tn, o):
    fn = tn.split('[')[0]
    file, fn, sk, dk = [x for x in FUNCS if x[1] == fn][0]
    b = (o.get('model') or {}).get('bits')
    if not isinstance(b, int): return None
    exe = build_driver(os.environ['VERIF_TMP'], file, fn, sk, dk)
    r = run_driver(exe, [b])
    if not r: return {'key': fn, 'detail': '%s(%#x) crashes' % (fn, b)}
    e = bad(b, r[0], sk, dk)
    if e: return {'key': fn, 'detail': '%s(%#x) returned %#x, expected %s (from the verifier counterexample)' % (fn, b, r[0], e)}
