"""C19: string literal escaping and decoding round-trip; text helpers (codon/parser/common.cpp)."""
import os, re, subprocess, random
import z3
import core, llbuild, llparse, llvc, gstr
from core import PathEnd, Unsupported
from llvc import Ptr, Hooks, Exec, bv
from gstr import Strings, Cut, b64, sub, add
from check import T
PROP = 'C19'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: loop invariants and contracts of the text helpers on LLVM IR of the real C++ (strings of any length), discharged by SMT; round trip follows from the escape and unescape step contracts'
NOTE = ('escape: one iteration emits, for every byte, text that decodes to exactly that byte whatever follows. unescape: one iteration consumes a well-formed token and emits its Python value, for strings of any length. '
        'escapeFStringBraces, findStar, startswith, endswith, in, ltrim, rtrim, isdigit: postconditions for strings of any length. split, join, combine: native bounded runs. '
        'The same functions run natively on generated strings.')
ASSUMPTIONS = ['strings are shorter than 2^30 bytes', 'std::string, std::stoi, fmt::format and the find_if/all_of algorithms satisfy their standard contracts (dv/gstr.py)',
               'malformed escapes (bad \\x digits, octal above 377, unknown letters other than "keep the backslash") have no specified value; "C" locale for isspace/isdigit',
               'split, join and combine are covered by the bounded runs only']
TRUSTED = ['clang 18', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'dv/gstr.py (std::string contracts)', 'z3']
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
STATE = {}
SRC = 'codon/parser/common.cpp'
# these are the helpers under contract; everything else they call inside the unit is executed
FN = {'escape': r'codon::ast::escape\(', 'unescape': r'codon::ast::unescape\(', 'braces': r'codon::ast::escapeFStringBraces\(', 'findStar': r'codon::ast::findStar\(', 'startswith': r'codon::ast::startswith\(',
      'endswith': r'codon::ast::endswith\(', 'in': r'codon::ast::in\(%s const&, char\)' % re.escape(gstr.STR), 'ltrim': r'codon::ast::ltrim\(%s&\)$' % re.escape(gstr.STR), 'rtrim': r'codon::ast::rtrim\(%s&\)$' % re.escape(gstr.STR), 'isdigit': r'codon::ast::isdigit\('}

def setup(tmp, tier):
    STATE['tmp'] = tmp
    exe = os.path.join(tmp, 'drv'); lib = llbuild.REPO + '/_build'
    cmd = llbuild.CXX + ['-O0', '-D_GLIBCXX_ASSERTIONS', os.path.join(HARN, 'drv_str.cpp'), os.path.join(llbuild.REPO, SRC), '-o', exe, '-L' + lib, '-lcodonc', '-lfmt', '-Wl,-rpath,' + lib, '-Wl,-rpath,/usr/lib/llvm-20/lib',
           '-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-lpthread', '-ldl', '-Wl,--allow-multiple-definition']
    nat = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    STATE['m'] = llparse.Module(open(llbuild.compile_ll(os.path.join(llbuild.REPO, SRC), tmp)).read())
    _, err = nat.communicate()
    if nat.returncode: raise RuntimeError(err[-1500:])
    STATE['exe'] = exe
    return STATE

def fn(k):
    m = STATE['m']
    r = [f for f in m.funcs.values() if not f.is_decl and re.match(FN[k], m.demangled.get(f.name, f.name))]
    if len(r) != 1: raise Unsupported('function %s: %d candidates' % (k, len(r)))
    return r[0]

def quoted(c): return c == 92
# --- specification: one token of a literal body at position p, bytes read by rd(i) (i < n)
NAMED = {97: 7, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11, 34: 34, 39: 39, 92: 92}
def token(ctx, rd, left):
    """left(k): are there at least k more bytes? -> (consumed, byte) or (consumed, None) when Python gives the form no value"""
    br = ctx.branch; c = rd(0)
    if not br(c == 92): return 1, c
    if not left(2): return 1, c
    d = rd(1)
    for k, v in NAMED.items():
        if br(d == k): return 2, z3.BitVecVal(v, 8)
    def hexv(x):
        for lo, hi, base in ((48, 57, 48), (97, 102, 87), (65, 70, 55)):
            if br(z3.And(z3.UGE(x, lo), z3.ULE(x, hi))): return x - base
        return None
    if br(d == 120):
        if not left(4): return None, None
        h, l = hexv(rd(2)), hexv(rd(3))
        if h is None or l is None: return None, None
        return 4, h * 16 + l
    isoct = lambda x: z3.And(z3.UGE(x, 48), z3.ULE(x, 55))
    if br(isoct(d)):
        v = z3.ZeroExt(24, d) - 48; k = 2
        while k < 4 and left(k + 1) and br(isoct(rd(k))): v = v * 8 + (z3.ZeroExt(24, rd(k)) - 48); k += 1
        if br(z3.UGT(v, 255)): return k, None
        return k, z3.Extract(7, 0, v)
    return 1, c      # not an escape: the backslash stays, the next character is read on its own

def explore(task, run, cut=True):
    """re-run until the set of locations the loop changes is stable"""
    c = Cut()
    n = len(task.results)
    while True:
        try:
            core.explore(task, lambda ctx: run(ctx, c))
            if not c.discover: return
            c.discover = False
        except Cut.Retry:
            if len(c.mod) > 200: raise Unsupported('loop state')
        del task.results[n:]; task.covers.clear()

def sole_loop(k):
    f = fn(k); heads = llvc.loop_heads(f)
    if len(heads) != 1: raise Unsupported('%s: %d loops' % (k, len(heads)))
    (head, body), = heads.items(); return f, head, body

def build(task, k, args, window, wname):
    """functions that read a string and append to a result, one loop: window(ctx, rd, left) -> (consumed, bytes|None)"""
    f, head, body = sole_loop(k); task.functions.add('codon::ast::' + k)
    def run(ctx, cut):
        hk = Hooks(); ex = Exec(STATE['m'], ctx, hooks=hk); S = Strings(ex, hk)
        o, subj, A, N = S.symbolic('text'); res = Ptr(ex.mem.alloc(32, 'result'), 0); S.v[S.key(res)] = []
        extra, lo, hi = args(ctx, N)
        ctx.input('text', lambda m: [core.model_val(m, z3.Select(A, z3.BitVecVal(i, 64))) for i in range(0, min(40, core.model_val(m, N)))])
        def check(p0, p1, out):
            """the bytes read between p0 and p1 decode to exactly the appended ones"""
            bs = [bv(b, 8) for b in S.bytes(out)]; p = p0; i = 0
            for _ in range(4):
                if not ctx.branch(p < p1): break
                q = p
                rd = lambda j: z3.Select(A, q + j)
                n, v = window(ctx, rd, lambda j: ctx.branch(q + j <= b64(hi)))
                if n is None or v is None:
                    ctx.prove(p1 > p0, 'a form without a specified value still makes progress'); return
                for x in v:
                    ctx.prove(i < len(bs) and bs[i] == x, wname); i += 1
                p = q + n
            else: raise Unsupported('more than four tokens per iteration')
            ctx.prove(p == p1, 'exactly the characters of the token are consumed')
            ctx.prove(i == len(bs), 'nothing else is emitted')
        def step(p0, p1, out): check(p0, p1, out); ctx.prove(p1 > p0, 'the loop makes progress')
        def entry(out): ctx.prove(not out, 'the result starts empty')
        cut.attach(ex, S, f, head, body, subj, res, 0, hi, entry, step, lo=lo)
        try: ex.run(f, [res, o] + extra)
        except llvc.CxxThrow:
            if not cut.entered: ctx.prove(False, 'no exception before the loop'); return
            _, p0 = cut.position(ctx)
            n, v = window(ctx, lambda j: z3.Select(A, p0 + j), lambda j: ctx.branch(p0 + j <= b64(hi)))
            ctx.prove(n is None or v is None, 'only a malformed escape is rejected'); return
        ctx.cover('returns')
        if not cut.entered: ctx.prove(b64(hi) == b64(lo), 'returns early only when there is nothing to do'); ctx.prove(not S.get(res), 'the result is empty'); return
        live = cut.position(ctx)
        check(live[1], b64(hi), S.get(res))
    explore(task, run)

def p_unescape(task):
    def window(ctx, rd, left):
        n, v = token(ctx, rd, left); return n, None if v is None else [v]
    build(task, 'unescape', lambda ctx, N: ([], 0, N), window, 'the decoded character is the one Python assigns')
def p_braces(task):
    def args(ctx, N):
        st, ln = ctx.fresh_bv('start', 32), ctx.fresh_bv('len', 32); e = lambda x: z3.SignExt(32, x)
        ctx.assume(z3.And(st >= 0, ln >= 0, e(st) + e(ln) <= N)); return [st, ln], e(st), e(st) + e(ln)
    def window(ctx, rd, left):
        c = rd(0)
        return (1, [c, c]) if ctx.branch(z3.Or(c == 123, c == 125)) else (1, [c])
    build(task, 'braces', args, window, 'braces are doubled and nothing else changes')
def p_escape(task):
    """the appended text decodes to the byte consumed, whatever text follows"""
    f, head, body = sole_loop('escape'); task.functions.add('codon::ast::escape')
    def run(ctx, cut):
        hk = Hooks(); ex = Exec(STATE['m'], ctx, hooks=hk); S = Strings(ex, hk)
        o, subj, A, N = S.symbolic('text'); res = Ptr(ex.mem.alloc(32, 'result'), 0); S.v[S.key(res)] = []
        rest = [ctx.fresh_bv('next%d' % i, 8) for i in range(3)]; nrest = ctx.fresh_bv('nnext', 64); ctx.assume(z3.And(nrest >= 0, nrest <= 3))
        ctx.input('text', lambda m: [core.model_val(m, z3.Select(A, z3.BitVecVal(i, 64))) for i in range(0, min(40, core.model_val(m, N)))])
        g = {}
        ctx.input('byte', lambda m: core.model_val(m, z3.Select(A, g['p'])) if 'p' in g else None)
        ctx.input('following', lambda m: [core.model_val(m, x) for x in rest][:core.model_val(m, nrest)])
        def check(p0, p1, out):
            g['p'] = p0
            bs = [bv(b, 8) for b in S.bytes(out)]; p = p0; i = 0; full = bs + rest
            while i < len(bs):
                if i > 40: raise Unsupported('long output')
                j = i
                n, v = token(ctx, lambda k: full[j + k] if j + k < len(full) else z3.BitVecVal(0, 8), lambda k: True if j + k <= len(bs) else ctx.branch(b64(j + k - len(bs)) <= nrest))
                ctx.prove(n is not None and v is not None and i + n <= len(bs), 'the escaped text is a well-formed token whatever follows it')
                ctx.prove(z3.And(p < p1, v == z3.Select(A, p)), 'the escaped text decodes to the original byte')
                ctx.prove(z3.And(z3.UGE(bs[i], 32), z3.ULT(bs[i], 127)), 'the escaped text is printable ASCII')
                i += n; p = p + 1
            ctx.prove(p == p1, 'every byte is emitted')
            ctx.prove(p1 > p0, 'the loop makes progress')
        def entry(out): ctx.prove(not out, 'the result starts empty')
        cut.attach(ex, S, f, head, body, subj, res, 0, N, entry, check, lo=0)
        try: ex.run(f, [res, o])
        except llvc.CxxThrow as e: ctx.prove(False, 'no exception'); return
        ctx.cover('returns')
        if not cut.entered: ctx.prove(N == 0, 'returns early only when there is nothing to do'); return
        p0 = cut.position(ctx)[1]
        if S.get(res): check(p0, N, S.get(res))
        else: ctx.prove(p0 == N, 'every byte is emitted')
    explore(task, run)

def p_isdigit(task):
    f = fn('isdigit'); task.functions.add('codon::ast::isdigit')
    def run(ctx):
        hk = Hooks(); ex = Exec(STATE['m'], ctx, hooks=hk); S = Strings(ex, hk)
        o, so, A, N = S.symbolic('text'); j = ctx.fresh_bv('j', 64); g = {}
        def allof(ex, a, n):
            if not any(isinstance(x, Ptr) and S.v.get((x.obj, x.off)) for x in a): raise Unsupported('all_of over something else')
            fp = [x for x in a if isinstance(x, Ptr) and x.obj in ex.mem.fnptr]
            if [ex.mem.fnptr[x.obj] for x in fp] != ['isdigit']: raise Unsupported('predicate')
            b = ctx.fresh_bool('all'); w = ctx.fresh_bv('witness', 64)
            tr = lambda p: ex.call('isdigit', [z3.ZeroExt(24, z3.Select(A, p))], ('i', 32)) != 0
            if ctx.branch(b):
                if ctx.branch(z3.And(j >= 0, j < N)): ctx.assume(tr(j))
            else: ctx.assume(z3.And(w >= 0, w < N, z3.Not(tr(w)))); g['w'] = w
            return llvc.b2i(b)
        hk.on(r'_ZNKSt6ranges11__all_of_fncl', allof); hk.on(r'.*all_of_fn::operator\(\)', allof); hk.on(r'bool std::all_of<', allof)
        r = llvc.i2b(ex.run(f, [o])); r = z3.BoolVal(r) if isinstance(r, bool) else r
        dg = lambda p: z3.And(z3.UGE(z3.Select(A, p), 48), z3.ULE(z3.Select(A, p), 57))
        ctx.prove(z3.Implies(z3.And(r, j >= 0, j < N), dg(j)), 'accepted only when every character is a digit')
        w = g.get('w', z3.BitVecVal(0, 64))
        ctx.prove(z3.Or(r, z3.And(w >= 0, w < N, z3.Not(dg(w)))), 'refused only for a character that is no digit')
        ctx.cover('returns')
    core.explore(task, run)

def space(c): return z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))
def p_findstar(task):
    f, head, body = sole_loop('findStar'); task.functions.add('codon::ast::findStar')
    def run(ctx, cut):
        hk = Hooks(); ex = Exec(STATE['m'], ctx, hooks=hk); S = Strings(ex, hk)
        o, subj, A, N = S.symbolic('text')
        # the grammar hands it ASCII text: isspace of a negative char is the caller's precondition
        hk.onx('isspace', lambda ex, a, n: z3.If(z3.And(bv(a[0], 32) >= 0, space(z3.Extract(7, 0, bv(a[0], 32)))), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        rd = lambda p: z3.Select(A, p)
        def check(p0, p1, out): ctx.prove(z3.And(p1 == p0 + 1, space(rd(p0)), p0 < N), 'only blanks are passed over')
        cut.attach(ex, S, f, head, body, subj, None, 0, N, lambda out: None, check, lo=0)
        r = z3.SignExt(32, bv(ex.run(f, [o]), 32))
        if not cut.entered: raise Unsupported('loop')
        p = cut.position(ctx)[1]
        ctx.prove(z3.If(p >= N, r == N, z3.If(rd(p) == 40, r == p + 1, z3.And(r == p, z3.Not(space(rd(p)))))), 'position after an opening parenthesis, or the first non-blank')
        ctx.cover('returns')
    explore(task, run)

def p_affix(task, k):
    f = fn(k); task.functions.add('codon::ast::' + k)
    def run(ctx):
        hk = Hooks(); ex = Exec(STATE['m'], ctx, hooks=hk); S = Strings(ex, hk)
        o, so, A, N = S.symbolic('text'); p, po, P, M = S.symbolic('affix')
        # instantiate content equality with an arbitrary index
        r = b64(ex.run(f, [o, p]))
        base = z3.BitVecVal(0, 64) if k == 'startswith' else N - M
        eq = gstr.EQV(A, z3.simplify(base), P, z3.BitVecVal(0, 64), M)
        ctx.prove(z3.If(M == 0, r != 0, z3.If(z3.And(N >= M, eq), r == M, r == 0)), 'length of the affix exactly when the text has it')
        ctx.cover('returns')
    core.explore(task, run)

def p_in(task):
    f = fn('in'); task.functions.add('codon::ast::in')
    def run(ctx):
        hk = Hooks(); ex = Exec(STATE['m'], ctx, hooks=hk); S = Strings(ex, hk)
        o, so, A, N = S.symbolic('text'); c = ctx.fresh_bv('c', 8)
        r = llvc.i2b(ex.run(f, [o, c])); r = z3.BoolVal(r) if isinstance(r, bool) else r
        fs = [x for x in ctx.solver.assertions()]
        one = z3.Store(z3.Store(z3.K(gstr.A64, z3.BitVecVal(0, 8)), 0, c), 1, 0)
        ctx.prove(r == (gstr.FIND(A, z3.BitVecVal(0, 64), N, one, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) != z3.BitVecVal(llvc.mask(64), 64)), 'true exactly when the character occurs')
    core.explore(task, run)

def algo(ex, k):
    """contracts of std::find_if / all_of over the subject's bytes; the predicate is the real lambda.
    Facts about "every earlier element" are recorded for one arbitrary index and instantiated there."""
    ctx = ex.ctx
    def pred(name, p):
        """truth of the real predicate at byte address p"""
        c = ex.load_raw(p, 1)
        f = [g for n, g in STATE['m'].funcs.items() if not g.is_decl and re.match(r'codon::ast::%s\(.*\$_\d+::operator\(\)' % k, ex.dem(n))]
        if len(f) == 1: return llvc.i2b(ex.run(f[0], [Ptr(ex.mem.alloc(1, 'lambda'), 0), c]))
        raise Unsupported('%d predicates in %s' % (len(f), k))
    return pred

def p_trim(task, k):
    f = fn(k); task.functions.add('codon::ast::' + k)
    def run(ctx):
        hk = Hooks(); ex = Exec(STATE['m'], ctx, hooks=hk); S = Strings(ex, hk)
        o, so, A, N = S.symbolic('text'); pred = algo(ex, k)
        j = ctx.fresh_bv('j', 64)     # arbitrary index: facts about all skipped characters are instantiated here
        rd = lambda p: z3.Select(A, p)
        def truth(n, p):
            v = pred(n, Ptr(so, p)); return z3.BoolVal(v) if isinstance(v, bool) else v
        def fwd(ex, a, n):
            ps = [x for x in a if isinstance(x, Ptr)]
            if 'find_if_fn' in ex.dem(n):      # ranges::find_if(string &, pred)
                st = next(x for x in ps if S.key(x) in S.v) ; b, e = 0, S.one(st).n
            else:
                q = [x for x in ps if x.obj == so]; b, e = q[0].off, q[1].off
            r = ctx.fresh_bv('found', 64); ctx.assume(z3.And(b64(b) <= r, r <= b64(e)))
            if ctx.branch(r < b64(e)): ctx.assume(truth(n, r))
            if ctx.branch(z3.And(j >= b64(b), j < r)): ctx.assume(z3.Not(truth(n, j)))
            return Ptr(so, r)
        def rev(ex, a, n):
            its = [ex.load_raw(x, 8) for x in a if isinstance(x, Ptr) and isinstance(x.off, int) and 'local' in ex.mem.get(x.obj).name][-2:]
            its = [x for x in its if isinstance(x, Ptr) and x.obj == so] or None
            if not its or len(its) != 2: raise Unsupported('reverse find_if')
            hi, lo = its[0].off, its[1].off
            r = ctx.fresh_bv('found', 64); ctx.assume(z3.And(b64(lo) <= r, r <= b64(hi)))
            if ctx.branch(r > b64(lo)): ctx.assume(truth(n, r - 1))
            if ctx.branch(z3.And(j >= r, j < b64(hi))): ctx.assume(z3.Not(truth(n, j)))
            ex.store_raw(a[0], 8, Ptr(so, r))
        hk.on(r'.*find_if_fn::operator\(\)', fwd)
        hk.on(r'_ZNKSt6ranges12__find_if_fnclI', fwd)
        hk.on(r'__gnu_cxx::__normal_iterator<char.* std::find_if<', fwd)
        hk.on(r'std::reverse_iterator<.* std::find_if<std::reverse', rev)
        ex.run(f, [o])
        ps = S.get(o)
        # what is left is one contiguous part text[a:b]
        segs = [p for p in ps]
        if any(p.obj != so for p in segs): raise Unsupported('rebuilt string')
        ne = [p for p in segs if ctx.branch(b64(p.n) != 0)]
        if len(ne) > 1: ctx.prove(False, 'what is left is contiguous'); return
        a, b = (b64(ne[0].off), b64(ne[0].off) + b64(ne[0].n)) if ne else (None, None)
        if k == 'ltrim':
            if ne:
                ctx.prove(b == N, 'the end is untouched'); ctx.prove(z3.Not(space(rd(a))), 'the first character left is not blank')
                ctx.prove(z3.Implies(z3.And(j >= 0, j < a), space(rd(j))), 'only blanks are removed')
            else: ctx.prove(z3.Implies(z3.And(j >= 0, j < N), space(rd(j))), 'only blanks are removed')
        else:
            if ne:
                ctx.prove(a == 0, 'the beginning is untouched'); ctx.prove(z3.Not(space(rd(b - 1))), 'the last character left is not blank')
                ctx.prove(z3.Implies(z3.And(j >= b, j < N), space(rd(j))), 'only blanks are removed')
            else: ctx.prove(z3.Implies(z3.And(j >= 0, j < N), space(rd(j))), 'only blanks are removed')
        ctx.cover('returns')
    core.explore(task, run)

def tasks(tier):
    L = [T('unescape', p_unescape), T('isdigit', p_isdigit), T('escape', p_escape), T('escapeFStringBraces', p_braces), T('findStar', p_findstar), T('startswith', p_affix, ('startswith',)), T('endswith', p_affix, ('endswith',)), T('in(char)', p_in),
         T('ltrim', p_trim, ('ltrim',)), T('rtrim', p_trim, ('rtrim',))]
    return L

# --- native runs against a Python reference
def call(lines):
    p = subprocess.run([STATE['exe']], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=600)
    out = p.stdout.split('\n')
    if p.returncode: out = out[:len([o for o in out if o])] + ['CRASH rc=%d %s' % (p.returncode, p.stderr[-200:].replace('\n', ' '))]
    return out
HX = '0123456789abcdefABCDEF'
def decode(b):
    """reference decoder; None: no specified value"""
    out = bytearray(); i = 0; n = len(b)
    while i < n:
        c = b[i]
        if c != 92 or i + 1 >= n: out.append(c); i += 1; continue
        d = b[i + 1]
        if d in NAMED: out.append(NAMED[d]); i += 2
        elif d == 120:
            h = b[i + 2:i + 4].decode('latin1')
            if len(h) < 2 or any(x not in HX for x in h): return None
            out.append(int(h, 16)); i += 4
        elif 48 <= d <= 55:
            k = i + 1
            while k < n and k < i + 4 and 48 <= b[k] <= 55: k += 1
            v = int(b[i + 1:k], 8)
            if v > 255: return None
            out.append(v); i = k
        else: out.append(c); i += 1
    return bytes(out)
WS = b' \t\n\v\f\r'
def ref(f, a):
    if f == 'unescape': return decode(a[0])
    if f == 'roundtrip': return a[0]
    if f == 'braces': return a[0][a[1]:a[1] + a[2]].replace(b'{', b'{{').replace(b'}', b'}}')
    if f == 'findStar':
        i = 0
        while i < len(a[0]):
            if a[0][i:i + 1] == b'(': return i + 1
            if a[0][i] not in WS: return i
            i += 1
        return i
    if f == 'startswith': return len(a[1]) or 1 if a[0].startswith(a[1]) else 0
    if f == 'endswith': return len(a[1]) or 1 if a[0].endswith(a[1]) else 0
    if f == 'in': return int(a[1] in a[0])
    if f == 'inc': return int(bytes([a[1]]) in a[0])
    if f == 'ltrim': return a[0].lstrip(WS)
    if f == 'rtrim': return a[0].rstrip(WS)
    if f == 'isdigit': return int(all(48 <= c <= 57 for c in a[0]))
    if f == 'split':
        if not a[0]: return []
        p = a[0].split(bytes([a[1]]))
        return p[:-1] if not p[-1] else p
    if f == 'join': return a[0].join(a[1])
    if f == 'joinr': return a[0].join(a[3][a[1]:] if a[2] < 0 else a[3][a[1]:a[2]])
def enc(f, a):
    h = lambda b: b.hex() or '-'
    w = []
    for x in a:
        if isinstance(x, bytes): w.append(h(x))
        elif isinstance(x, int): w.append(str(x))
        else: w += [str(len(x))] + [h(y) for y in x]
    return f + ' ' + ' '.join(w)
def parse(r):
    t = r.split()
    if not t: return 'no output'
    if t[0] == 's': return bytes.fromhex('' if t[1] == '-' else t[1])
    if t[0] == 'i': return int(t[1])
    if t[0] == 'l': return [bytes.fromhex('' if x == '-' else x) for x in t[1:]]
    return r
def gen(rng, n, cap):
    def word(alpha, m): return bytes(rng.choice(alpha) for _ in range(rng.randint(0, m)))
    any_ = list(range(256)); lit = list(b'\\\\\\\\nrtabfvx0123456789"\'qAFfz ') + [0, 255, 10]; ws = list(b'   \t\n\v\f\rab(*\x00') ; br = list(b'{}{}ab\x80')
    out = []
    for i in range(256):
        for nx in (b'', b'0', b'a', b'F', b'\\', b'g', b'7x'): out.append(('roundtrip', [bytes([i]) + nx])); out.append(('unescape', [b'\\' + bytes([i]) + nx]))
    for v in range(256):
        for nx in (b'', b'0', b'7', b'8', b'a'):
            for s in ('\\%o', '\\%03o', '\\x%02x', '\\x%02X', 'z\\%o'): out.append(('unescape', [(s % v).encode() + nx]))
    for _ in range(n):
        k = rng.randrange(14); m = rng.choice((3, 6, 12, cap))
        if k in (0, 1): out.append(('unescape', [word(lit, m)]))
        elif k == 2: out.append(('roundtrip', [word(rng.choice((any_, lit)), m)]))
        elif k == 3:
            b = word(br, m); st = rng.randint(0, len(b)); out.append(('braces', [b, st, rng.randint(0, len(b) - st)]))
        elif k == 4: out.append(('findStar', [word([c for c in ws], m)]))
        elif k == 5:
            b = word(list(b'ab'), m); p = rng.choice((b[:rng.randint(0, 4)], word(list(b'ab'), 4), b, b + b'a')); out.append(('startswith', [b, p]))
        elif k == 6:
            b = word(list(b'ab'), m); p = rng.choice((b[len(b) - rng.randint(0, min(4, len(b))):], word(list(b'ab'), 4), b, b'a' + b)); out.append(('endswith', [b, p]))
        elif k == 7: out.append(('in', [word(list(b'ab'), m), word(list(b'ab'), 3)]))
        elif k == 8: out.append(('inc', [word(list(b'abc\x00'), m), rng.choice(b'abcd\x00')]))
        elif k == 9: out.append((rng.choice(('ltrim', 'rtrim')), [word(ws + [0xa0, 0x85, 0xff], m)]))
        elif k == 10: out.append(('isdigit', [word(list(b'0123456789') + ([rng.choice(b'/:a \xb2')] if rng.random() < .5 else []), m)]))
        elif k == 11: out.append(('split', [word(list(b'a,b,,\n'), m), rng.choice(b',\n')]))
        elif k == 12: out.append(('join', [word(list(b', '), 3), [word(list(b'ab'), 3) for _ in range(rng.randint(0, 5))]]))
        else:
            l = [word(list(b'ab'), 3) for _ in range(rng.randint(0, 6))]; st = rng.randint(0, len(l)); out.append(('joinr', [word(list(b', '), 3), st, rng.choice((-1, rng.randint(st, len(l)))), l]))
    return out
def native(rep, n, cap):
    cases = gen(rep.rng, n, cap)
    got = call([enc(f, a) for f, a in cases])
    for (f, a), g in zip(cases, got):
        want = ref(f, a)
        rep.case('%s(%r) -> %s' % (f, a, g[:60]))
        if want is None: continue
        r = parse(g)
        if r != want: rep.fail('%s(%s)' % (f, ', '.join(repr(x) for x in a)[:200]), 'the real function gives %r, the specification %r' % (r, want))
        if g.startswith('CRASH'): break
def finders(tier):
    return [T('native', native, (60000 if tier == 'quick' else 1500000, 40), timeout=120 if tier == 'quick' else 600)]
def replay(tn, o):
    m = o.get('model') or {}
    b = m.get('byte'); t = m.get('text')
    cases = []
    if tn == 'escape' and isinstance(b, int): cases = [('roundtrip', [bytes([b]) + bytes(x for x in (m.get('following') or []) if isinstance(x, int))])]
    elif tn == 'unescape' and isinstance(t, list): cases = [('unescape', [bytes(t)])]
    for (f, a), g in zip(cases, call([enc(f, a) for f, a in cases])):
        w = ref(f, a)
        if w is not None and parse(g) != w: return {'key': '%s(%s)' % (f, ', '.join(repr(x) for x in a)[:200]), 'detail': 'the real function gives %r, the specification %r' % (parse(g), w)}
