"""C03: compile-time evaluated operators equal their run-time value (codon/parser/visitors/typecheck/op.cpp)."""
import os, re, subprocess, random
from concurrent.futures import ThreadPoolExecutor
import z3
import core, llbuild, llparse, llvc, gstr, numspec as ns
from core import PathEnd, Unsupported
from llvc import Ptr, Hooks, Exec, bv
from gstr import Strings
from check import T
PROP = 'C03'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: postconditions of evaluateStaticUnary/evaluateStaticBinary/divMod on LLVM IR of the real C++ for all 64-bit operands, discharged by SMT; callees of the type checker by contract'
NOTE = ('For every operator the type checker evaluates at compile time, every kind of literal operand and both numerics modes: the literal produced is the run-time value for all 64-bit operand values, '
        'zero divisors are reported as an error, and no operand value traps. The real functions also run natively on generated operands.')
ASSUMPTIONS = ['contracts of the type objects (getIntStatic, getIntLiteral, ...) and of transform(N<IntExpr>(v)): a literal expression has its value as static type; exercised natively only',
               'which operators reach the two functions is decided by visit(UnaryExpr)/visit(BinaryExpr): only the short-circuiting of && and || there is run, natively', 'shift distances outside 0..63 are undefined at run time; at compile time they must only not trap',
               'the run-time operators have the values given in dv/numspec.py']
TRUSTED = ['clang 18', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'dv/gstr.py (std::string contracts)', 'z3', 'cvc5']
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
STATE = {}
SRC = 'codon/parser/visitors/typecheck/op.cpp'
TYPES = 'codon/parser/ast/types/'
BIN = ['<', '<=', '>', '>=', '==', '!=', '&&', '||', '+', '-', '*', '^', '&', '|', '>>', '<<', '//', '%']
CMP = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}
AR = {'+': '__add__', '-': '__sub__', '*': '__mul__', '^': '__xor__', '&': '__and__', '|': '__or__', '>>': '__rshift__', '<<': '__lshift__', '//': '__floordiv__', '%': '__mod__'}

def setup(tmp, tier):
    lib = llbuild.REPO + '/_build'; exe = os.path.join(tmp, 'drv'); inc = os.path.join(llbuild.REPO, SRC)
    link = ['-L' + lib, '-lcodonc', '-lfmt', '-Wl,-rpath,' + lib, '-Wl,-rpath,/usr/lib/llvm-20/lib', '-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-lpthread', '-ldl', '-Wl,--allow-multiple-definition']
    def run(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise RuntimeError(p.stderr[-1500:])
    R = lambda f: os.path.join(llbuild.REPO, f)
    with ThreadPoolExecutor(8) as ex:
        o = [ex.submit(run, llbuild.CXX + ['-O0', '-fno-access-control', '-c', s, '-o', os.path.join(tmp, '%d.o' % i)]) for i, s in enumerate([os.path.join(HARN, 'drv_static.cpp'), R(SRC)])]
        ll = list(ex.map(lambda s: llbuild.compile_ll(R(s), tmp), [SRC, TYPES + 'static.cpp', TYPES + 'type.cpp']))
        ms = [llparse.Module(open(l).read()) for l in ll]
        for x in o: x.result()
    run(['clang++-18', '-o', exe, os.path.join(tmp, '0.o'), os.path.join(tmp, '1.o')] + link)
    STATE.update(exe=exe, ms=ms, tmp=tmp)
    return STATE

def fn(pat):
    m = STATE['ms'][0]
    r = [f for f in m.funcs.values() if not f.is_decl and re.match(pat, m.demangled.get(f.name, f.name))]
    if len(r) != 1: raise Unsupported('function %s: %d candidates' % (pat, len(r)))
    return r[0]
CLS = {'int': 'IntStaticType', 'bool': 'BoolStaticType', 'str': 'StrStaticType'}

class Env:
    """symbolic execution of one call with the type checker's collaborators replaced by their contracts"""
    def __init__(s, ctx, kinds, op, py, texts=(), known=(True, True)):
        hk = Hooks(); ex = s.ex = Exec(STATE['ms'], ctx, hooks=hk); S = s.S = Strings(ex, hk); s.ctx = ctx; s.made = []; s.kindset = []
        base = ex.need
        def need(cond, what):
            # two's complement hardware: does not trap, and the value is compared with the specification
            if 'signed' in what and ('add' in what or 'sub' in what or 'mul' in what) or what.startswith('shift amount'): return
            base(cond, what)
        ex.need = need
        # the visitor, its context and the compatibility flag (reached through this->ctx->cache->pythonCompat)
        cache = ex.mem.alloc(16384, 'cache'); cm = ex.mem.getw(cache)
        for i in range(16384): cm.cells[i] = (1, py)
        ctxo = ex.mem.alloc(8192, 'ctx')
        for i in range(0, 8192, 8): ex.store_raw(Ptr(ctxo, i), 8, Ptr(cache, 0))
        s.this = Ptr(ex.mem.alloc(8192, 'visitor'), 0)
        for i in range(0, 8192, 8): ex.store_raw(Ptr(s.this.obj, i), 8, Ptr(ctxo, 0))
        # virtual calls on the visitor: transform(Expr *) in its overloads
        fp = ex.mem.alloc(1, 'virtual'); ex.mem.fnptr[fp] = 'visitor_transform'; hk.onx('visitor_transform', lambda ex, a, n: a[1])
        vt = ex.mem.alloc(2048, 'visitor_vtable')
        for i in range(0, 2048, 8): ex.store_raw(Ptr(vt, i), 8, Ptr(fp, 0))
        ex.store_raw(s.this, 8, Ptr(vt, 0))
        s.types = []; s.vals = []
        for i, k in enumerate(kinds):
            o = ex.mem.alloc(512, 'type%d' % i); ty = Ptr(o, 0)
            if known[i]: ex.store_raw(ty, 8, ex.padd(ex.glob(STATE['ms'][1], '_ZTVN5codon3ast5types%d%sE' % (len(CLS[k]), CLS[k])), 16))
            s.types.append(ty)
            v = ctx.input('operand%d' % i, ctx.fresh_bv('operand%d' % i, 64)) if k == 'int' else ctx.input('operand%d' % i, ctx.fresh_bv('operand%d' % i, 1)) if k == 'bool' else texts[i]
            s.vals.append(v)
        s.exprs = [Ptr(ex.mem.alloc(512, 'operand%d' % i), 0) for i in range(len(kinds))]
        s.expr = Ptr(ex.mem.alloc(512, 'expr'), 0); s.unb = Ptr(ex.mem.alloc(512, 'unbound'), 0); et = Ptr(ex.mem.alloc(512, 'exprtype'), 0)
        idx = lambda p, l: next((i for i, q in enumerate(l) if q == p), None)
        def typ(ex, a, n):
            i = idx(a[0], s.exprs)
            if i is not None: return s.types[i]
            if a[0] == s.expr: return et
            raise Unsupported('type of another expression')
        hk.on(r'codon::ast::Expr::getType\(\) const', typ)
        hk.on(r'codon::ast::(UnaryExpr::getExpr|BinaryExpr::getLhs)\(\) const', lambda ex, a, n: s.exprs[0])
        hk.on(r'codon::ast::BinaryExpr::getRhs\(\) const', lambda ex, a, n: s.exprs[1])
        hk.on(r'codon::ast::(Unary|Binary)Expr::getOp(\[abi:cxx11\])?\(\) const', lambda ex, a, n: S.set(a[0], [S.lit(op.encode())]))
        def lit(kind):
            def g(ex, a, n):
                j = 2 if kind == 'str' else 1
                i = idx(a[j], s.types)
                if i is None or kinds[i] != kind: ctx.prove(False, 'the literal is read with its own kind'); raise PathEnd()
                if kind == 'str': return S.set(a[0], [S.lit(s.vals[i].encode())])
                return s.vals[i] if kind == 'int' else z3.ZeroExt(7, s.vals[i]) if False else s.vals[i]
            return g
        hk.on(r'codon::ast::TypecheckVisitor::getIntLiteral\(', lit('int')); hk.on(r'codon::ast::TypecheckVisitor::getBoolLiteral\(', lit('bool')); hk.on(r'codon::ast::TypecheckVisitor::getStrLiteral(\[abi:cxx11\])?\(', lit('str'))
        def made(ex, a, n):
            d = ex.dem(n); cls = re.search(r'N<codon::ast::(\w+)', d).group(1)
            arg = re.search(r'N<codon::ast::\w+, (.*)>\(', d).group(1)
            if cls == 'StringExpr': v = bytes(S.bytes(S.get(a[1])))
            else:
                w = 8 if 'long' in arg else 1 if 'bool' in arg else 4 if 'int' in arg else None
                if w is None: raise Unsupported('literal from ' + arg)
                v = ex.load_raw(a[1], w)
                if w == 1: v = z3.ZeroExt(63, z3.Extract(0, 0, bv(v, 8)))     # bool object: 0 or 1
                elif w == 4: v = z3.SignExt(32, bv(v, 32))
                v = bv(v, 64)
            p = Ptr(ex.mem.alloc(64, 'made'), 0); s.made.append((p, cls, v)); return p
        hk.on(r'codon::ast::(IntExpr|BoolExpr|StringExpr)\* codon::ast::TypecheckVisitor::N<', made)
        hk.on(r'codon::ast::TypecheckVisitor::transform\(codon::ast::Expr\*', lambda ex, a, n: a[1])
        log = ex.mem.alloc(4096, 'logger')
        for i in range(0, 4096, 8): ex.store_raw(Ptr(log, i), 8, 0)
        hk.on(r'codon::getLogger\(', lambda ex, a, n: Ptr(log, 0))
        def stat(name):
            def g(ex, a, n):
                i = idx(a[0], s.types)
                if i is None: raise Unsupported('kind of another type')
                return a[0] if known[i] and (name is None or kinds[i] == name) else 0
            return g
        # virtual functions of the operand types when they are not yet known
        hk.on(r'codon::ast::types::Type::getStaticKind\(', lambda ex, a, n: s.kind(a[0], idx(a[0], s.types), kinds, known, ex, n))
        def err(ex, a, n): raise llvc.CxxThrow('error')
        hk.on(r'void codon::ast::E<|void codon::error::E<|codon::ast::E<|codon::error::E<', err)
        def newset(ex, a, n):
            arr, cnt = a[1], a[2]
            if not isinstance(cnt, int): raise Unsupported('set')
            ex.mem.getw(a[0].obj); s.sets[(a[0].obj, a[0].off)] = [bytes(S.bytes(S.get(Ptr(arr.obj, arr.off + 32 * i)))) for i in range(cnt)]
        s.sets = {}
        hk.on(r'std::set<%s.*::set\(std::initializer_list' % re.escape(gstr.STR), newset)
        hk.on(r'std::set<%s.*::~set\(' % re.escape(gstr.STR), lambda ex, a, n: None)
        hk.on(r'.* codon::ast::in<.*\(std::set<', lambda ex, a, n: Ptr(a[0].obj, 0) if bytes(S.bytes(S.get(a[1]))) in s.sets[(a[0].obj, a[0].off)] else 0)
        hk.on(r'codon::SrcInfo::~SrcInfo|codon::SrcObject::getSrcInfo|.*Context<.*>::getSrcInfo', lambda ex, a, n: None)
        E = re.escape(gstr.STR)
        hk.on(r'%s std::operator\+<' % E, lambda ex, a, n: S.set(a[0], S.get(a[1]) + S.get(a[2])))
    def kind(s, p, i, kinds, known, ex, n):
        order = STATE.get('kinds')
        if i is None: raise Unsupported('kind')
        return order[kinds[i]]
    def run(s, f):
        try: r = s.ex.run(f, [s.this, s.expr])
        except llvc.CxxThrow: return 'error', None
        for p, c, v in s.made:
            if isinstance(r, Ptr) and p == r: return c, v
        return ('none', None) if r == 0 else ('other', None)

def kinds_enum():
    txt = open(os.path.join(llbuild.REPO, 'codon/parser/ast/types/type.h')).read() + open(os.path.join(llbuild.REPO, 'codon/parser/ast/expr.h')).read()
    m = re.search(r'enum (?:class )?LiteralKind[^{]*\{([^}]*)\}', txt)
    if not m: 
        p = subprocess.run(['grep', '-rhA8', 'enum .*LiteralKind', os.path.join(llbuild.REPO, 'codon/parser')], capture_output=True, text=True).stdout
        m = re.search(r'LiteralKind[^{]*\{([^}]*)\}', p)
    if not m: raise Unsupported('LiteralKind')
    out = {}
    for i, e in enumerate(x.strip() for x in m.group(1).split(',') if x.strip()):
        n = e.split('=')[0].strip(); out[{'Int': 'int', 'String': 'str', 'Bool': 'bool'}.get(n, n)] = i
    return out

def want_bin(op, kinds, x, y, py):
    """-> (result class, value or None, error condition, undefined condition)"""
    if op in CMP: v, r, u = ns.apply(CMP[op], ['int', 'int'], [x, y], py); return 'BoolExpr', ns.b2i(v), ns.Fa, ns.Fa
    if op == '&&': return ('BoolExpr' if kinds == ('bool', 'bool') else 'IntExpr'), z3.If(x != 0, y, x), ns.Fa, ns.Fa
    if op == '||': return ('BoolExpr' if kinds == ('bool', 'bool') else 'IntExpr'), z3.If(x != 0, x, y), ns.Fa, ns.Fa
    v, r, u = ns.apply(AR[op], ['int', 'int'], [x, y], py)
    err = y == 0 if op in ('//', '%') else ns.Fa
    return 'IntExpr', v, err, u

def p_bin(task, op, kinds, py):
    STATE['kinds'] = kinds_enum()
    f = fn(r'codon::ast::TypecheckVisitor::evaluateStaticBinary\('); task.functions |= {'codon::ast::TypecheckVisitor::evaluateStaticBinary', 'codon::ast::divMod'}
    def run(ctx):
        e = Env(ctx, kinds, op, py)
        X, Y = [z3.ZeroExt(63, v) if k == 'bool' else v for v, k in zip(e.vals, kinds)]
        cls, v, err, und = want_bin(op, kinds, X, Y, py)
        c, got = e.run(f)
        if c == 'error': ctx.prove(err, 'an error is reported only for a zero divisor'); ctx.cover('error'); return
        if op in ('//', '%') : ctx.prove(z3.Not(err), 'a zero divisor is an error')
        if c == 'none' or c == 'other': ctx.prove(und, 'known operands are evaluated'); return
        ctx.prove(c == cls, 'kind of the literal produced')
        ctx.prove(z3.Or(und, (got != 0) == (v != 0) if cls == 'BoolExpr' else got == v), 'the compile-time value is the run-time value')
        ctx.cover('evaluated')
    core.explore(task, run)

def p_un(task, op, kind):
    STATE['kinds'] = kinds_enum()
    f = fn(r'codon::ast::TypecheckVisitor::evaluateStaticUnary\('); task.functions.add('codon::ast::TypecheckVisitor::evaluateStaticUnary')
    def run(ctx):
        text = ('' , 'a', 'xyz')[ctx.choose(3)] if kind == 'str' else None
        e = Env(ctx, (kind,), op, 0, texts=(text,))
        x = e.vals[0]; x = z3.ZeroExt(63, x) if kind == 'bool' else x
        c, got = e.run(f)
        if c not in ('IntExpr', 'BoolExpr'): ctx.prove(False, 'known operands are evaluated'); return
        if op == '!':
            v = z3.BoolVal(text == '') if kind == 'str' else x == 0
            if kind != 'str': ctx.prove(c == 'BoolExpr', 'kind of the literal produced')
            ctx.prove((got != 0) == v, 'the compile-time value is the run-time value')
            if c == 'IntExpr': ctx.prove(z3.ULE(got, 1), 'a truth value is 0 or 1')
        else:
            ctx.prove(c == 'IntExpr', 'kind of the literal produced')
            ctx.prove(got == {'-': -x, '+': x, '~': ~x}[op], 'the compile-time value is the run-time value')
        ctx.cover('evaluated')
    core.explore(task, run)

def p_str(task):
    STATE['kinds'] = kinds_enum()
    f = fn(r'codon::ast::TypecheckVisitor::evaluateStaticBinary\(')
    W = ['', 'a', 'ab', 'b', 'a\u00e9', 'aa']
    def run(ctx):
        a, b = W[ctx.choose(len(W))], W[ctx.choose(len(W))]; op = ('+', '==', '!=')[ctx.choose(3)]
        c, got = Env(ctx, ('str', 'str'), op, 0, texts=(a, b)).run(f)
        if op == '+': ctx.prove(c == 'StringExpr' and got == (a + b).encode(), 'concatenation')
        else: ctx.prove(c == 'BoolExpr', 'kind of the literal produced'); ctx.prove((got != 0) == z3.BoolVal((a == b) == (op == '==')), 'comparison')
    core.explore(task, run)

def tasks(tier):
    L = [T('-' .join(('unary', op, k)), p_un, (op, k)) for op, k in (('-', 'int'), ('+', 'int'), ('!', 'int'), ('~', 'int'), ('!', 'bool'), ('!', 'str'))]
    for op in BIN:
        for ks in (('int', 'int'), ('bool', 'bool'), ('int', 'bool'), ('bool', 'int')):
            if ks == ('bool', 'bool') and op not in CMP and op not in ('&&', '||'): continue
            if op in ('&&', '||') and ks[0] != ks[1]: continue
            for py in ((0, 1) if op in ('//', '%') else (0,)): L.append(T('binary %s %s %s py=%d' % (op, ks[0], ks[1], py), p_bin, (op, ks, py), smt_ms=20000))
    L.append(T('strings', p_str))
    return L

# --- native
def tok(v): return 'b%d' % v if isinstance(v, bool) else 'i%d' % (v & (1 << 64) - 1) if isinstance(v, int) else 's' + v.encode().hex()
def native_run(cases):
    p = subprocess.run([STATE['exe']], input=''.join('%d %s %s\n' % (py, op, ' '.join(map(tok, a))) for py, op, a in cases), capture_output=True, text=True, timeout=600)
    return p.stdout.split('\n')
def want(py, op, a):
    """None: unspecified"""
    if len(a) == 1:
        x = a[0]
        if op == '!': return 'b%d' % (not x)
        return tok({'-': -int(x), '+': int(x), '~': ~int(x)}[op])
    x, y = a
    if op == 'v&&': return tok(y if x else x)
    if op == 'v||': return tok(x if x else y)
    if isinstance(x, str): return {'+': tok(x + y), '==': 'b%d' % (x == y), '!=': 'b%d' % (x != y)}[op]
    if op in CMP: return 'b%d' % eval('%d %s %d' % (x, op, y))
    if op == '&&': return tok(y if x else x)
    if op == '||': return tok(x if x else y)
    if op in ('//', '%') and int(y) == 0: return 'error'
    try: return tok(ns.capply(AR[op], ['int', 'int'], [int(x), int(y)], py))
    except ns.Undefined: return None
EDGE = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, -10, 63, 64, 65, -63, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1]
def run_cases(rep, cases):
    for (py, op, a), g in zip(cases, native_run(cases)):
        w = want(py, op, a); rep.case('%s %s%s -> %s' % (op, a, ' (python numerics)' if py else '', g))
        bad = g.startswith('crash') or g == '' or (w is not None and g != w and not (op == '!' and isinstance(a[0], str) and g[1:] == w[1:]))
        if bad: rep.fail('%s %s%s' % (op, ', '.join(repr(x) for x in a), ' py' if py else ''), 'compile-time evaluation gives %s, the run-time value is %s' % (g or 'nothing', w))
def native(rep, n):
    cs = [(py, op, [x, y]) for py in (0, 1) for op in BIN for x in EDGE for y in EDGE]
    cs += [(0, op, [x]) for op in '-+!~' for x in EDGE] + [(0, '!', [x]) for x in (True, False, '', 'a', '0')]
    cs += [(0, op, [x, y]) for op in list(CMP) + ['&&', '||'] for x in (False, True) for y in (False, True)]
    cs += [(py, op, [x, y]) for py in (0, 1) for op in BIN if op not in ('&&', '||') for x, y in [(True, 5), (False, -3), (7, True), (-7, True), (-7, False)]]
    cs += [(0, op, [x, y]) for op in ('+', '==', '!=') for x in ('', 'a', 'ab', 'b', 'a b') for y in ('', 'a', 'ab', 'b', 'a\x00')]
    K = [0, 1, -1, 2, -5, 1 << 32, -(1 << 63), True, False, '', 'a', '0']
    cs += [(py, op, [x, y]) for py in (0, 1) for op in ('v&&', 'v||') for x in K for y in K]
    r = rep.rng
    def num(): return ns.wrap(r.choice((r.getrandbits(64), r.randint(-20, 20), r.choice(EDGE) + r.randint(-2, 2), r.getrandbits(r.randint(1, 63)) * r.choice((1, -1)))))
    for _ in range(n): cs.append((r.randint(0, 1), r.choice(BIN), [num(), num()]))
    run_cases(rep, cs)
def finders(tier): return [T('native', native, (20000 if tier == 'quick' else 400000,))]
def replay(tn, o):
    m = o.get('model') or {}
    p = tn.split()
    if p[0] == 'binary':
        try: a = [ns.wrap(m['operand%d' % i]) if k == 'int' else bool(m['operand%d' % i]) for i, k in enumerate(p[2:4])]
        except KeyError: return None
        c = (int(p[4][-1]), p[1], a)
    elif tn.startswith('unary-'):
        op, k = tn[6], tn.rsplit('-', 1)[1]
        if 'operand0' not in m: return None
        c = (0, op, [ns.wrap(m['operand0']) if k == 'int' else bool(m['operand0'])])
    else: return None
    g = native_run([c])[0]; w = want(*c)
    if g.startswith('crash') or (w is not None and g != w): return {'key': '%s %s%s' % (c[1], ', '.join(repr(x) for x in c[2]), ' py' if c[0] else ''), 'detail': 'compile-time evaluation gives %s, the run-time value is %s' % (g, w)}
