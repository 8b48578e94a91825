"""C07: exception tables are decoded exactly and the right handler is chosen (codon/runtime/exc.cpp)."""
import os, re, subprocess, struct
import z3
import core, llbuild, llparse, llvc
from core import PathEnd, Unsupported
from llvc import Ptr, Exec, Hooks, Memory, bv, simp, UNDEF
from check import T
PROP = 'C07'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: function contracts + loop invariants on LLVM IR of the real C++, discharged by SMT'
EXTRA = ['-idirafter', '/usr/lib/gcc/x86_64-linux-gnu/13/include', '-I' + llbuild.REPO + '/codon/runtime']
SRC = llbuild.REPO + '/codon/runtime/exc.cpp'
SEQCLASS = 0x6f626a0073657100
ASSUMPTIONS = ['precondition: LEB128 values are encoded in at most 10 bytes and fit 64 bits; call-site records start+length does not wrap; table length fits 32 bits; tables are shorter than 2^40 bytes',
               'precondition: parent_ids arrays are zero-terminated (what the compiler emits)',
               'the unwinder entry points (_Unwind_GetIP, _Unwind_SetGR, ...) are external and modelled as reads/writes of an abstract context',
               'clang -O0 lowers the C++ faithfully to LLVM IR']
NOTE = 'LEB128 readers, encoded-pointer reader, type matching over unbounded parent lists, action-chain walk and call-site scan are proved against contracts with loop invariants; the real functions are also executed on generated tables to produce failing inputs.'
TRUSTED = ['clang 18', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'z3', 'cvc5']
STATE = {}

def setup(tmp, tier):
    ll = llbuild.compile_ll(SRC, tmp, EXTRA)
    STATE['m'] = llparse.Module(open(ll).read()); STATE['tmp'] = tmp
    return STATE

def fn(m, pat):
    r = [f for f in m.funcs.values() if not f.is_decl and re.match(pat, m.demangled.get(f.name, f.name))]
    if len(r) != 1: raise Unsupported('function %s: %d candidates' % (pat, len(r)))
    return r[0]

def bytes_obj(ex, ctx, name, n, size=None):
    o = ex.mem.alloc(size or n, name); mo = ex.mem.getw(o); bs = []
    for i in range(n):
        b = ctx.fresh_bv(name + '_%d' % i, 8); ctx.input('byte%d' % i, b); bs.append(b)
        mo.cells[i] = (1, b)
    return o, bs

# ---- A: LEB128 readers
def p_leb(task, signed, n):
    m = STATE['m']; f = fn(m, r'read%sLEB128\(' % ('S' if signed else 'U')); task.functions.add('read%sLEB128' % ('S' if signed else 'U'))
    def run(ctx):
        ex = Exec(m, ctx, who='leb')
        o, bs = bytes_obj(ex, ctx, 'enc', n)
        for i, b in enumerate(bs): ctx.assume((b & 0x80 != 0) if i < n - 1 else (b & 0x80 == 0))
        if n == 10: ctx.assume(z3.Or(bs[9] == 0, bs[9] == 0x7f) if signed else z3.ULE(bs[9], 1))
        cell = ex.mem.alloc(8, 'cursor'); ex.store_raw(Ptr(cell, 0), 8, Ptr(o, 0))
        ctx.cover('pre')
        r = ex.run(f, [Ptr(cell, 0)])
        v = z3.BitVecVal(0, 128)
        for i, b in enumerate(bs): v = v | (z3.ZeroExt(120, b & 0x7f) << (7 * i))
        if signed and 7 * n < 128: v = z3.If(bs[-1] & 0x40 != 0, v | (z3.BitVecVal(-1, 128) << (7 * n)), v)
        ctx.cover('returns')
        ctx.prove(bv(r, 64) == z3.Extract(63, 0, v), 'decoded value')
        q = ex.load_raw(Ptr(cell, 0), 8)
        ctx.prove(isinstance(q, Ptr) and q.obj == o and q.off == n, 'cursor advanced past the value')
    core.explore(task, run)

# ---- B: getEncodingSize
SIZES = {0: 8, 2: 2, 3: 4, 4: 8, 10: 2, 11: 4, 12: 8}
def p_encsize(task):
    m = STATE['m']; f = fn(m, r'getEncodingSize\('); task.functions.add('getEncodingSize')
    for e in range(256):
        def run(ctx):
            ex = Exec(m, ctx)
            want = 0 if e == 0xff else SIZES.get(e & 15)
            try: r = ex.run(f, [e])
            except llvc.CxxThrow: r = None
            ctx.prove(r == want, 'size of encoding %#x' % e, info=e)
        core.explore(task, run)

# ---- C: readEncodedPointer
def leb_contract(ctx, ex):
    def h(s):
        def g(ex, args, name):
            p = ex.load_raw(args[0], 8)
            if isinstance(p.off, int): nm = 'leb_%s_%d' % (s, p.off)
            else: raise Unsupported('leb address')
            n = ex.ctx.fresh_bv('leblen', 64); v = z3.BitVec(nm, 64)
            ex.ctx.assume(z3.And(n >= 1, n <= 10))
            ex.gh['leb'] = (s, p, v, n)
            ex.store_raw(args[0], 8, Ptr(p.obj, simp(n + p.off)))
            return v
        return g
    return h

FMT = {0: (8, False), 2: (2, False), 3: (4, False), 4: (8, False), 10: (2, True), 11: (4, True), 12: (8, True), 1: 'u', 9: 's'}
def p_enc(task, fmt):
    m = STATE['m']; f = fn(m, r'readEncodedPointer\('); task.functions.add('readEncodedPointer')
    for app in range(0, 128, 16):
        for ind in (0, 0x80):
            e = fmt | app | ind
            def run(ctx, e=e, app=app, ind=ind):
                hk = Hooks(); ex = Exec(m, ctx, hooks=hk)
                g = leb_contract(ctx, ex)
                hk.on(r'readULEB128\(', g('u')); hk.on(r'readSLEB128\(', g('s'))
                o, bs = bytes_obj(ex, ctx, 'enc', 16, 256)
                slot = ex.mem.alloc(8, 'slot'); tgt = ctx.fresh_bv('target', 64); ex.store_raw(Ptr(slot, 0), 8, tgt)
                cell = ex.mem.alloc(8, 'cursor'); start = 4; ex.store_raw(Ptr(cell, 0), 8, Ptr(o, start))
                fm = FMT.get(fmt)
                if e == 0xff or fm is None: indok = False
                indslot = False
                if ind and e != 0xff and fm is not None and app in (0, 0x10):
                    # the encoded value designates a pointer-sized slot
                    if isinstance(fm, str): indslot = None
                    elif app == 0:
                        if fm[0] == 8:
                            ex.mem.getw(o).cells = {start: (8, Ptr(slot, 0))}; indslot = True
                        else: raise PathEnd()      # 2/4-byte absolute addresses do not exist on the 64-bit target
                    else:
                        d = z3.Extract(8 * fm[0] - 1, 0, z3.Concat(*reversed(bs[start:start + fm[0]])))
                        ctx.assume(z3.And(z3.UGE(d, 20), z3.ULE(d, 24)))
                        off = start; 
                        for k in range(20, 36): 
                            t = ctx.fresh_bv('slotbyte', 8); ex.mem.getw(o).cells[start + k] = (1, t)
                        indslot = d
                    if indslot is None: raise PathEnd()
                ctx.cover('pre %#x' % (e & 0xf0))
                try: r = ex.run(f, [Ptr(cell, 0), e]); ab = False
                except llvc.CxxThrow: ab = True
                q = ex.load_raw(Ptr(cell, 0), 8)
                if e == 0xff:
                    ctx.prove(not ab and r == 0 and q == Ptr(o, start), 'omit encoding reads nothing'); return
                if fm is None or app not in (0, 0x10):
                    ctx.prove(ab, 'unsupported encoding %#x is rejected' % e); return
                ctx.prove(not ab, 'supported encoding %#x is accepted' % e)
                if isinstance(fm, str):
                    if 'leb' not in ex.gh: ctx.prove(False, 'LEB encodings use the LEB reader'); return
                    s, p, v, n = ex.gh['leb']
                    ctx.prove(s == fm and p == Ptr(o, start), 'LEB encoding %#x reads the matching LEB' % e)
                    val = v; ctx.prove(bv(q.off, 64) == n + start, 'cursor advanced')
                else:
                    if indslot is True: val = None
                    else:
                        val = z3.Concat(*reversed(bs[start:start + fm[0]])); val = val if fm[0] == 8 else (z3.SignExt if fm[1] else z3.ZeroExt)(64 - 8 * fm[0], val)
                    ctx.prove(isinstance(q, Ptr) and q.obj == o and q.off == start + fm[0], 'cursor advanced by the size of encoding %#x' % e)
                if ind:
                    if indslot is True: ctx.prove(bv(r, 64) == tgt, 'indirect value loaded'); return
                    want = ex.load_raw(Ptr(o, simp(val + start)), 8)
                    ctx.prove(bv(r, 64) == bv(want, 64), 'pc-relative indirect value loaded'); return
                if app == 0: ctx.prove(bv(r, 64) == val, 'value of encoding %#x' % e)
                else: ctx.prove(isinstance(r, Ptr) and r.obj == o, 'pc-relative base of encoding %#x' % e) and ctx.prove(bv(r.off, 64) == val + start, 'pc-relative value of encoding %#x' % e)
            core.explore(task, run)

# ---- D: isinstance over the (unbounded) parent list
def layout_typeinfo(): return {'id': 0, 'parents': 8}
def p_isinstance(task):
    m = STATE['m']; f = fn(m, r'isinstance\('); task.functions.add('isinstance')
    heads = llvc.loop_heads(f)
    if len(heads) != 1: raise Unsupported('isinstance: %d loops' % len(heads))
    (head, body), = heads.items()
    def run(ctx):
        hk = Hooks(); ex = Exec(m, ctx, hooks=hk)
        n = ctx.fresh_bv('n', 64); ctx.assume(z3.And(n >= 0, n < 1 << 40)); ctx.input('n_parents', n)
        ids = ex.mem.alloc(None, 'parent_ids'); mo = ex.mem.getw(ids)
        mo.size = (n + 1) * 8; mo.arr = z3.Array('parents', z3.BitVecSort(64), z3.BitVecSort(8))
        idat = lambda k: z3.Concat(*[z3.Select(mo.arr, k * 8 + i) for i in reversed(range(8))])
        ctx.assume(idat(n) == 0)                         # zero terminated
        myid = ctx.fresh_bv('id', 64); typ = ctx.fresh_bv('type', 64)
        ctx.assume(typ != 0)                             # handled by the caller (0 = catch-all)
        ti = ex.mem.alloc(64, 'TypeInfo'); ex.store_raw(Ptr(ti, 0), 8, myid)
        none = ctx.branch(ctx.fresh_bool('no_parents'))
        ex.store_raw(Ptr(ti, 8), 8, 0 if none else Ptr(ids, 0))
        ob = ex.mem.alloc(16, 'obj'); ex.store_raw(Ptr(ob, 0), 8, 0); ex.store_raw(Ptr(ob, 8), 8, Ptr(ti, 0))
        k = ctx.fresh_bv('k', 64); st = {}
        def lh(ex, fr, prev, cur, visit):
            ph = [x for x in llvc.phis(f, head)]
            cand = [x for x in ph if x[2][0] == 'ptr']
            if len(cand) != 1: raise Unsupported('isinstance: loop variable not recognised')
            reg = cand[0][0]
            incoming = None
            for v, b in cand[0][3]:
                if b == prev: incoming = ex.val(fr, cand[0][2], v)
            if prev not in body:
                ctx.prove(incoming == Ptr(ids, 0), 'loop starts at the first parent')
                ctx.assume(z3.And(k >= 0, k <= n, z3.Implies(k < n, idat(k) != 0)))
                ctx.cover('loop head')
                fr.regs[(cur, reg)] = Ptr(ids, simp(k * 8))
                for x in ph:
                    if x[0] != reg: raise Unsupported('extra loop state')
            else:
                ctx.prove(isinstance(incoming, Ptr) and incoming.obj == ids, 'cursor stays in the list')
                ctx.prove(bv(incoming.off, 64) == (k + 1) * 8, 'one parent per iteration')
                ctx.prove(k + 1 <= n, 'stops at the terminator')
                ctx.prove(idat(k) != typ, 'a matching parent is never skipped')
                raise PathEnd()
            st['in'] = True
        hk.loops[(f.name, head)] = lh
        r = ex.run(f, [Ptr(ob, 0), typ])
        ctx.cover('returns')
        rb = llvc.i2b(r)
        rb = z3.BoolVal(rb) if isinstance(rb, bool) else rb
        if 'in' not in st:
            ctx.prove(z3.Implies(rb, myid == typ), 'true only for the own type (no parents walked)')
            ctx.prove(z3.Implies(z3.Not(rb), z3.And(myid != typ, z3.BoolVal(none))), 'false only without parents')
        else:
            ctx.prove(z3.Implies(rb, z3.Or(myid == typ, z3.And(k < n, idat(k) == typ))), 'true only for an ancestor')
            ctx.prove(z3.Implies(z3.Not(rb), z3.And(myid != typ, k == n)), 'false only after all ancestors were compared')
    core.explore(task, run)

# ---- contracts used by the two drivers: a table read is a function of its address (and encoding)
A64 = z3.BitVecSort(64)
LV = {s: z3.Function('leb%s_val' % s, A64, A64) for s in 'us'}; LN = {s: z3.Function('leb%s_len' % s, A64, A64) for s in 'us'}
EV = z3.Function('enc_val', A64, A64, A64); EN = z3.Function('enc_len', A64, A64, A64)
def off(p): return bv(p.off, 64)
def table_contracts(hk, obj, classes=None):
    def leb(s):
        def g(ex, args, name):
            p = ex.load_raw(args[0], 8)
            if not isinstance(p, Ptr) or p.obj != obj: raise Unsupported('LEB read outside the table')
            a = off(p); n = LN[s](a); ex.ctx.assume(z3.And(n >= 1, n <= 10))
            ex.gh.setdefault('reads', []).append((s, args[0]))
            ex.store_raw(args[0], 8, Ptr(obj, simp(a + n)))
            v = LV[s](a); ex.ctx.assume(z3.And(v < 1 << 40, v > -(1 << 40)) if s == 's' else z3.ULT(v, 1 << 40)) if ex.gh.get('leb_small', True) else None
            return v
        return g
    hk.on(r'readULEB128\(', leb('u')); hk.on(r'readSLEB128\(', leb('s'))
    def enc(ex, args, name):
        p = ex.load_raw(args[0], 8)
        if not isinstance(p, Ptr): raise Unsupported('enc read')
        e = bv(args[1], 8); e = z3.ZeroExt(56, e)
        if p.obj != obj:
            return classes(ex, p, args[1])
        a = off(p); n = EN(a, e); ex.ctx.assume(z3.And(n >= 0, n <= 10))
        ex.gh.setdefault('reads', []).append(('e', args[0]))
        ex.store_raw(args[0], 8, Ptr(obj, simp(a + n)))
        return EV(a, e)
    hk.on(r'readEncodedPointer\(', enc)

class Cut:
    """Loop cut for a cursor kept in an address-taken local: havoc every local cell pointing into the table (and integer phis);
    at the back edge each havocked cell is unchanged or equals next(cursor)."""
    def __init__(s, ex, f, obj, pos): s.ex = ex; s.f = f; s.obj = obj; s.pos = pos; s.cells = {}; s.entered = False
    def locals(s):
        out = []
        for i in list(s.ex.mem.objs):
            o = s.ex.mem.get(i)
            if o.name.startswith('local'):
                for of, (n, v) in o.cells.items():
                    if isinstance(v, Ptr) and v.obj == s.obj: out.append((i, of, v))
        return out
    def havoc(s, fr, cur):
        for i, of, v in s.locals():
            p = s.ex.ctx.fresh_bv('pos', 64); s.ex.ctx.assume(z3.And(p >= 0, p < 1 << 41))
            s.cells[(i, of)] = (v, p)
            s.ex.store_raw(Ptr(i, of), 8, Ptr(s.obj, p))
        for x in llvc.phis(s.f, cur):
            if x[2][0] == 'i':
                t = s.ex.ctx.fresh_bv('phi', x[2][1])
                if x[2][1] >= 32: s.ex.ctx.assume(z3.And(t >= 0, t < 1 << 30))
                fr.regs[(cur, x[0])] = t
            else: raise Unsupported('loop-carried pointer in a register')
        s.entered = True
    def now(s, c): return s.ex.load_raw(Ptr(*c), 8)

# ---- E: handleActionValue
def p_action(task):
    m = STATE['m']; f = fn(m, r'handleActionValue\('); task.functions.add('handleActionValue')
    heads = llvc.loop_heads(f)
    if len(heads) != 1: raise Unsupported('handleActionValue: %d loops' % len(heads))
    (head, body), = heads.items()
    excoff = exc_offset()
    def run(ctx):
        hk = Hooks(); ex = Exec(m, ctx, hooks=hk)
        tab = ex.mem.alloc(None, 'actions'); mo = ex.mem.getw(tab); mo.size = z3.BitVecVal(1 << 60, 64); mo.arr = z3.Array('acts', A64, z3.BitVecSort(8))
        cls = ex.mem.alloc(None, 'classtable')
        ent = ctx.fresh_bv('entry', 64); ctx.assume(z3.And(ent >= 0, ent < 1 << 40))
        enc = ctx.fresh_bv('ttype_encoding', 8)
        ty = ctx.fresh_bv('handler_type', 32)
        ci = ex.mem.alloc(4, 'classinfo'); ex.store_raw(Ptr(ci, 0), 4, ty)
        esz = ctx.fresh_bv('encsize', 32); ctx.assume(z3.Or(esz == 2, esz == 4, esz == 8))
        hk.on(r'getEncodingSize\(', lambda ex, a, n: (ctx.prove(bv(a[0], 8) == enc, 'size query uses the type-table encoding'), esz)[1])
        cbase = 1 << 50
        g = {}
        def classes(ex, p, e):
            if p.obj != cls: raise Unsupported('class read')
            g['class_at'] = (off(p), bv(e, 8)); return Ptr(ci, 0)
        table_contracts(hk, tab, classes)
        inst = ctx.fresh_bool('isinstance')
        excobj = ex.mem.alloc(512, 'exception'); user = ex.mem.alloc(8, 'userobj')
        ex.store_raw(Ptr(excobj, 0), 8, Ptr(user, 0))
        def isin(ex, a, n):
            ctx.prove(isinstance(a[0], Ptr) and a[0] == Ptr(user, 0), 'the thrown object is the one tested')
            ctx.prove(bv(a[1], 64) == z3.SignExt(32, ty), 'tested against the handler type')
            return llvc.b2i(inst)
        hk.on(r'isinstance\(', isin)
        hk.on(r'seq_exc_offset', lambda ex, a, n: excoff & ((1 << 64) - 1))
        hk.onx('__assert_fail', lambda ex, a, n: (_ for _ in ()).throw(PathEnd()))   # negative type offsets (filters) are outside the precondition
        res = ex.mem.alloc(8, 'result'); init = ctx.fresh_bv('res0', 64); ex.store_raw(Ptr(res, 0), 8, init)
        kind = ctx.choose(3, 'args')      # 0 normal, 1 foreign exception class, 2 null result/exception pointers
        cut = Cut(ex, f, tab, None); st = {}
        def lh(ex, fr, prev, cur, visit):
            if prev not in body:
                loc = cut.locals()
                ctx.prove(z3.Or([off(v) == ent for i, o_, v in loc]) if loc else False, 'scan starts at the action entry')
                cut.havoc(fr, cur); ctx.cover('action loop')
            else:
                c = ex.gh['reads'][0][1]; key = (c.obj, c.off)
                if key not in cut.cells: raise Unsupported('cursor')
                p = cut.cells[key][1]
                a1 = p + LN['s'](p); nxt = a1 + LV['s'](a1)
                ctx.prove(LV['s'](a1) != 0, 'chain continues only when the record names a successor')
                ctx.prove(off(cut.now(key)) == nxt, 'next record is at the encoded displacement')
                match = z3.And(LV['s'](p) > 0, z3.Or(ty == 0, inst))
                ctx.prove(z3.Not(match), 'a matching record is never passed over')
                for k2, (v0, pv) in cut.cells.items():
                    pass
                raise PathEnd()
        hk.loops[(f.name, head)] = lh
        cl = SEQCLASS if kind != 1 else ctx.fresh_bv('foreign', 64)
        if kind == 1: ctx.assume(cl != SEQCLASS)
        r = ex.run(f, [0 if kind == 2 and ctx.choose(2) else Ptr(res, 0), enc, Ptr(cls, cbase), Ptr(tab, ent), cl, Ptr(excobj, -excoff) if kind != 2 else 0])
        rb = llvc.i2b(r); rb = z3.BoolVal(rb) if isinstance(rb, bool) else rb
        ctx.cover('returns')
        rv = bv(ex.load_raw(Ptr(res, 0), 8), 64)
        if kind != 0:
            ctx.prove(z3.Not(rb), 'foreign or absent exceptions match nothing'); ctx.prove(rv == init, 'result untouched'); return
        if not cut.entered: ctx.prove(False, 'the action chain is examined'); return
        c = ex.gh['reads'][0][1]; key = (c.obj, c.off); p = cut.cells[key][1]
        a1 = p + LN['s'](p); to = LV['s'](p); nx = LV['s'](a1)
        match = z3.And(to > 0, z3.Or(ty == 0, inst))
        ctx.prove(rb == match, 'matches exactly when the record type is catch-all or an ancestor of the thrown type')
        ctx.prove(z3.Implies(rb, rv == z3.SignExt(32, ty)), 'selector is the handler type')
        ctx.prove(z3.Implies(z3.Not(rb), z3.And(nx == 0, rv == init)), 'gives up only at the end of the chain')
        if 'class_at' in g:
            ctx.prove(z3.And(g['class_at'][0] == cbase - to * z3.ZeroExt(32, esz), g['class_at'][1] == enc), 'type entry is indexed backwards from the type table end')
    core.explore(task, run)

def exc_offset():
    m = STATE['m']; f = fn(m, r'seq_exc_offset')
    t = core.Task('off'); ex = Exec(m, core.Ctx(t, []))
    r = ex.run(f, [])
    if not isinstance(r, int): raise Unsupported('seq_exc_offset not constant')
    return llvc.sgn(r, 64)

# ---- F: handleLsda
def p_lsda(task, phase):
    m = STATE['m']; f = fn(m, r'handleLsda\('); task.functions.add('handleLsda')
    heads = llvc.loop_heads(f)
    if len(heads) != 1: raise Unsupported('handleLsda: %d loops' % len(heads))
    (head, body), = heads.items()
    def run(ctx):
        hk = Hooks(); ex = Exec(m, ctx, hooks=hk)
        tab = ex.mem.alloc(None, 'lsda'); mo = ex.mem.getw(tab); mo.size = z3.BitVecVal(1 << 60, 64); mo.arr = z3.Array('lsda', A64, z3.BitVecSort(8))
        byte = lambda a: z3.Select(mo.arr, a)
        table_contracts(hk, tab)
        ip = ctx.fresh_bv('ip', 64); fs = ctx.fresh_bv('func_start', 64)
        hk.onx('_Unwind_GetIP', lambda ex, a, n: ip); hk.onx('_Unwind_GetRegionStart', lambda ex, a, n: fs)
        w = {'gr': {}, 'ip': None}
        hk.onx('_Unwind_SetGR', lambda ex, a, n: w['gr'].__setitem__(llvc.sgn(a[1], 32), a[2]))
        hk.onx('_Unwind_SetIP', lambda ex, a, n: w.__setitem__('ip', a[1]))
        AM = z3.Function('action_match', A64, z3.BoolSort()); AV = z3.Function('action_value', A64, A64)
        # header, as the LSDA format defines it
        zx = lambda b: z3.ZeroExt(56, b)
        a0 = z3.BitVecVal(0, 64); lpe = byte(a0); a1 = z3.If(lpe == 0xff, a0 + 1, a0 + 1 + EN(a0 + 1, zx(lpe)))
        tte = byte(a1); a2 = z3.If(tte == 0xff, a1 + 1, a1 + 1 + LN['u'](a1 + 1))
        clsinfo = a2 + LV['u'](a1 + 1)
        cse = byte(a2); a3 = a2 + 1 + LN['u'](a2 + 1); tlen = LV['u'](a2 + 1); ctx.assume(z3.ULT(tlen, 1 << 32)); tend = a3 + tlen
        for q in (a0 + 1, a1 + 1, a2 + 1): ctx.assume(z3.And(LN['u'](q) >= 1, LN['u'](q) <= 10, z3.ULT(LV['u'](q), 1 << 40)))
        ctx.assume(z3.And(EN(a0 + 1, zx(lpe)) >= 0, EN(a0 + 1, zx(lpe)) <= 10))
        def act(ex, a, n):
            if not isinstance(a[3], Ptr) or a[3].obj != tab: ctx.prove(False, 'action entry lies in the action table'); raise PathEnd()
            ctx.prove(bv(a[1], 8) == tte, 'type table encoding passed on')
            if isinstance(a[2], Ptr): ctx.prove(z3.Implies(tte != 0xff, off(a[2]) == clsinfo), 'type table base')
            else: ctx.prove(tte == 0xff, 'type table base only absent when omitted')
            ctx.prove(bv(a[4], 64) == cl, 'exception class passed on'); ctx.prove(a[5] == Ptr(exo, 0), 'exception object passed on')
            e = off(a[3]); ex.store_raw(a[0], 8, simp(z3.If(AM(e), AV(e), bv(ex.load_raw(a[0], 8), 64))))
            w['called'] = e
            return llvc.b2i(AM(e))
        hk.on(r'handleActionValue\(', act)
        cl = ctx.fresh_bv('exception_class', 64); exo = ex.mem.alloc(64, 'excobj'); cxo = ex.mem.alloc(64, 'context')
        actions = ctx.fresh_bv('actions', 32); ctx.assume((actions & 1 != 0) if phase else (actions & 1 == 0)); ctx.input('actions', actions)
        cut = Cut(ex, f, tab, None)
        pc = ip - 1 - fs
        def rec(p):
            E = lambda a: EV(a, zx(cse)); L = lambda a: EN(a, zx(cse))
            p1 = p + L(p); p2 = p1 + L(p1); p3 = p2 + L(p2)
            return E(p), E(p1), E(p2), LV['u'](p3), p3 + LN['u'](p3)
        def lh(ex, fr, prev, cur, visit):
            if prev not in body:
                loc = cut.locals()
                ctx.prove(z3.Or([off(v) == a3 for i, o_, v in loc]) if loc else False, 'scan starts right after the call-site table length')
                cut.havoc(fr, cur); ex.gh['reads'] = []; ctx.cover('call-site loop')
            else:
                c = ex.gh['reads'][0][1]; key = (c.obj, c.off)
                if key not in cut.cells: raise Unsupported('cursor')
                p = cut.cells[key][1]; s, l, lp, ac, nx = rec(p)
                ctx.assume(z3.BVAddNoOverflow(s, l, False))
                ctx.prove(off(cut.now(key)) == nx, 'next call-site record follows')
                ctx.prove(p < tend, 'records are only read inside the table')
                ctx.prove(z3.Not(z3.And(lp != 0, z3.ULE(s, pc), z3.ULT(pc, s + l))), 'a covering call site is never skipped')
                ctx.prove(z3.BoolVal(not w['gr'] and w['ip'] is None), 'nothing installed while scanning')
                raise PathEnd()
        hk.loops[(f.name, head)] = lh
        null = ctx.branch(ctx.fresh_bool('lsda_null'))
        r = ex.run(f, [1, 0 if null else Ptr(tab, 0), actions, cl, Ptr(exo, 0), Ptr(cxo, 0)])
        r = bv(r, 32); ctx.cover('returns')
        CONT, FOUND, INSTALL = 8, 6, 7
        if null:
            ctx.prove(r == CONT, 'no table: continue unwinding'); ctx.prove(not w['gr'] and w['ip'] is None, 'no table: nothing installed'); return
        if not cut.entered: ctx.prove(False, 'the call-site table is scanned'); return
        if not ex.gh['reads']:
            ctx.prove(z3.Or([p >= tend for v, p in cut.cells.values()]), 'stops only at the table end')
            ctx.prove(z3.And(r == CONT, z3.BoolVal(not w['gr'] and w['ip'] is None)), 'no covering call site: continue unwinding'); return
        c = ex.gh['reads'][0][1]; key = (c.obj, c.off); p = cut.cells[key][1]; s, l, lp, ac, nx = rec(p)
        ctx.assume(z3.BVAddNoOverflow(s, l, False))
        cover = z3.And(lp != 0, z3.ULE(s, pc), z3.ULT(pc, s + l))
        ctx.prove(z3.And(p < tend, cover), 'stops at a covering call site with a landing pad')
        entry = tend + ac - 1
        ctx.prove(z3.Implies(z3.And(ac != 0, cl == SEQCLASS), z3.BoolVal('called' in w)), 'the action chain of a Codon exception is consulted')
        if 'called' in w:
            ctx.prove(z3.And(ac != 0, cl == SEQCLASS), 'actions are consulted only for Codon exceptions with an action'); ctx.prove(w['called'] == entry, 'action record address')
            matched = AM(entry)
        else: matched = z3.BoolVal(False)
        if phase:
            ctx.prove(r == z3.If(matched, z3.BitVecVal(FOUND, 32), z3.BitVecVal(CONT, 32)), 'search phase: handler found exactly on a match')
            ctx.prove(not w['gr'] and w['ip'] is None, 'search phase installs nothing')
        else:
            ctx.prove(r == INSTALL, 'cleanup phase installs the landing pad')
            ok = w['ip'] is not None and set(w['gr']) == {0, 1}
            if not ctx.prove(ok, 'landing pad and both registers set'): return
            ctx.prove(bv(w['ip'], 64) == fs + lp, 'landing pad address')
            ctx.prove(w['gr'][0] == Ptr(exo, 0), 'exception object in the first register')
            ctx.prove(bv(w['gr'][1], 64) == z3.If(matched, AV(entry), z3.BitVecVal(0, 64)), 'selector: matched type, or 0 for cleanup')
    core.explore(task, run)

# ---- G: allocation, offset and entry point
def p_misc(task):
    m = STATE['m']; task.functions |= {'seq_alloc_exc', 'seq_exc_offset', 'seq_personality'}
    def run(ctx):
        hk = Hooks(); ex = Exec(m, ctx, hooks=hk)
        hk.onx('seq_alloc', lambda ex, a, n: ex.malloc(a[0], 'exc'))
        hk.ext_globals['seq_flags'] = lambda ex, i: ex.mem.getw(i).cells.__setitem__(0, (4, 0))
        user = Ptr(ex.mem.alloc(8, 'user'), 0)
        p = ex.run(fn(m, r'seq_alloc_exc'), [user])
        o = exc_offset()
        ctx.prove(isinstance(p, Ptr) and p.off + o == 0, 'exception offset leads back to the allocation')
        ctx.prove(ex.load_raw(Ptr(p.obj, 0), 8) == user, 'thrown object stored where the handler looks for it')
        ctx.prove(ex.load_raw(p, 8) == SEQCLASS, 'exception class marks Codon exceptions')
    core.explore(task, run)
    def run2(ctx):
        hk = Hooks(); ex = Exec(m, ctx, hooks=hk); got = []
        lsda = Ptr(ex.mem.alloc(8, 'lsda'), 0); c = Ptr(ex.mem.alloc(8, 'ctx'), 0); e = Ptr(ex.mem.alloc(8, 'exc'), 0)
        hk.onx('_Unwind_GetLanguageSpecificData', lambda ex, a, n: lsda if a[0] == c else 0)
        r0 = ctx.fresh_bv('r', 32)
        hk.on(r'handleLsda\(', lambda ex, a, n: (got.append(a), r0)[1])
        v, a, cl = ctx.fresh_bv('v', 32), ctx.fresh_bv('a', 32), ctx.fresh_bv('c', 64)
        r = ex.run(fn(m, r'seq_personality'), [v, a, cl, e, c])
        if not ctx.prove(len(got) == 1, 'table consulted once'): return
        g = got[0]
        ctx.prove(g[1] == lsda and g[4] == e and g[5] == c, 'pointers passed through'); ctx.prove(z3.And(bv(g[2], 32) == a, bv(g[3], 64) == cl, bv(r, 32) == r0), 'phase, class and verdict passed through')
    core.explore(task, run2)

def tasks(tier):
    ts = [T('read%sLEB128[%d bytes]' % ('SU'[1 - s], n), p_leb, (s, n), unit='leb') for s in (0, 1) for n in range(1, 11)]
    ts += [T('getEncodingSize', p_encsize)] + [T('readEncodedPointer[%#x]' % k, p_enc, (k,)) for k in range(16)]
    ts += [T('isinstance', p_isinstance), T('handleActionValue', p_action), T('handleLsda[cleanup]', p_lsda, (0,)), T('handleLsda[search]', p_lsda, (1,)), T('allocation+entry', p_misc)]
    return ts

# ---------------------------------------------------------------- concrete execution of the real code
HARNESS = r'''
#include "SRCFILE"
#include <unistd.h>
#include <sys/mman.h>
int seq_flags;
namespace llvm { extern int DisableABIBreakingChecks, EnableABIBreakingChecks; int DisableABIBreakingChecks, EnableABIBreakingChecks; }
extern "C" {
void *seq_alloc(size_t n){return malloc(n);} void *seq_alloc_atomic(size_t n){return malloc(n);} void seq_free(void*p){free(p);}
struct backtrace_state *backtrace_create_state(const char*,int,backtrace_error_callback,void*){return 0;}
int backtrace_full(struct backtrace_state*,int,backtrace_full_callback,backtrace_error_callback,void*){return 0;}
int backtrace_simple(struct backtrace_state*,int,backtrace_simple_callback,backtrace_error_callback,void*){return 0;}
static uintptr_t g_ip,g_fs,g_gr0,g_gr1,g_setip; static void*g_lsda; static int g_n;
uintptr_t _Unwind_GetIP(_Unwind_Context*){return g_ip;} uintptr_t _Unwind_GetRegionStart(_Unwind_Context*){return g_fs;}
void _Unwind_SetGR(_Unwind_Context*,int r,uintptr_t v){ if(r==0)g_gr0=v; else g_gr1=v; g_n++;} void _Unwind_SetIP(_Unwind_Context*,uintptr_t v){g_setip=v;g_n++;}
void*_Unwind_GetLanguageSpecificData(_Unwind_Context*){return g_lsda;}
}
std::string codon::runtime::getCapturedOutput(){return "";}
static int hexv(int c){return c<='9'?c-'0':c-'a'+10;}
int main(){ char*line=0; size_t cap=0; ssize_t n;
 uint8_t*buf=(uint8_t*)mmap((void*)0x200000000000ull,1<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0);
 while((n=getline(&line,&cap,stdin))>0){ char kind=line[0]; std::istringstream is(line+1); 
  if(kind=='U'||kind=='S'){ std::string h; is>>h; size_t k=h.size()/2; for(size_t i=0;i<k;i++)buf[i]=hexv(h[2*i])*16+hexv(h[2*i+1]); const uint8_t*p=buf; uintptr_t v=kind=='U'?readULEB128(&p):readSLEB128(&p); printf("%llx %ld\n",(unsigned long long)v,(long)(p-buf)); }
  else if(kind=='E'){ unsigned enc; std::string h; is>>enc>>h; size_t k=h.size()/2; for(size_t i=0;i<k;i++)buf[i]=hexv(h[2*i])*16+hexv(h[2*i+1]); const uint8_t*p=buf; uintptr_t v=readEncodedPointer(&p,enc); printf("%llx %ld\n",(unsigned long long)v,(long)(p-buf)); }
  else if(kind=='I'){ long id,ty; is>>id>>ty; std::vector<seq_int_t> ps; long x; while(is>>x)ps.push_back(x); ps.push_back(0); TypeInfo ti{}; ti.id=id; ti.parent_ids=ps.size()==1?nullptr:ps.data(); RTTIObject o{nullptr,&ti}; printf("%d 0\n",(int)isinstance(&o,ty)); }
  else if(kind=='L'){ /* lsda-hex ip fs actions class id nparents parents... ntypes types... */
   std::string h; unsigned long long ip,fs,cls; int act; long id; int np; is>>h>>std::hex>>ip>>fs>>cls>>std::dec>>act>>id>>np; std::vector<seq_int_t> ps(np); for(auto&x:ps)is>>x; ps.push_back(0);
   int nt; is>>nt; static int32_t*types=(int32_t*)(buf+(1<<19)); for(int i=0;i<nt;i++)is>>types[i];
   size_t k=h.size()/2; for(size_t i=0;i<k;i++)buf[i]=hexv(h[2*i])*16+hexv(h[2*i+1]);
   TypeInfo ti{}; ti.id=id; ti.parent_ids=np?ps.data():nullptr; RTTIObject o{nullptr,&ti};
   void*e=seq_alloc_exc(&o); ((_Unwind_Exception*)e)->exception_class=cls;
   g_ip=ip;g_fs=fs;g_gr0=g_gr1=g_setip=0;g_n=0;g_lsda=h=="-"?nullptr:buf;
   int r=seq_personality(1,(_Unwind_Action)act,cls,(_Unwind_Exception*)e,nullptr);
   printf("%d %d %llx %d %llx\n",r,g_n,(unsigned long long)g_setip,g_n?g_gr0==(uintptr_t)e:0,(unsigned long long)g_gr1); free((char*)e+seq_exc_offset()); }
  fflush(stdout);
 } return 0; }
'''
def build(tmp):
    exe = os.path.join(tmp, 'exc_drv')
    if os.path.exists(exe): return exe
    src = os.path.join(tmp, 'exc_drv.cpp'); open(src, 'w').write(HARNESS.replace('SRCFILE', SRC))
    p = subprocess.run(llbuild.CXX + EXTRA + ['-O1', '-g0', src, '-o', exe + '.t'] , capture_output=True, text=True)
    if p.returncode: raise RuntimeError(p.stderr[-1500:])
    os.replace(exe + '.t', exe); return exe

def run_lines(exe, lines):
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=200)
    return p.stdout.split('\n')[:-1], p.returncode

def uleb(v, pad=0):
    out = bytearray()
    while True:
        b = v & 0x7f; v >>= 7
        if v or pad > 0:
            out.append(b | 0x80)
            if not v and pad > 0:
                for _ in range(pad - 1): out.append(0x80)
                out.append(0); break
        else: out.append(b); break
    return bytes(out)
def sleb(v):
    out = bytearray()
    while True:
        b = v & 0x7f; v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40): out.append(b); return bytes(out)
        out.append(b | 0x80)

def find_leb(rep):
    exe = build(STATE['tmp']); r = rep.rng; L = []; W = []
    vals = [0, 1, 127, 128, 255, 16383, 16384] + [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(1, 65)] + [r.getrandbits(r.randrange(1, 65)) for _ in range(2000)]
    for v in vals: L.append('U ' + uleb(v).hex()); W.append((v, len(uleb(v))))
    sv = []
    for v in vals:
        for w in (v, -v, ~v):
            if -(1 << 63) <= w < 1 << 63: sv.append(w)
    for v in sv: L.append('S ' + sleb(v).hex()); W.append((v & (1 << 64) - 1, len(sleb(v))))
    out, rc = run_lines(exe, L)
    for l, w, o in zip(L, W, out + ['crash'] * (len(L) - len(out))):
        rep.case(l)
        if o != '%x %d' % w: rep.fail('leb' + l[0], '%s: real code returned "%s", expected "%x %d"' % ((l, o) + w)); 
    rep.distinct = len(set(L))

BASE = 0x200000000000
def find_enc(rep):
    exe = build(STATE['tmp']); r = rep.rng; L = []; W = []
    for enc in range(256):
        fm = FMT.get(enc & 15)
        if enc == 0xff: L.append('E 255 0102'); W.append((0, 0)); continue
        if fm is None or enc & 0x70 not in (0, 0x10) or enc & 0x80: continue
        for _ in range(60):
            if isinstance(fm, str):
                v = r.getrandbits(r.randrange(1, 64)) * (1 if fm == 'u' else r.choice((1, -1))); d = uleb(v) if fm == 'u' else sleb(v)
            else:
                v = r.choice([r.getrandbits(8 * fm[0]), (1 << (8 * fm[0] - 1)), (1 << 8 * fm[0]) - 1, 0, 1]); d = v.to_bytes(fm[0], 'little')
                if fm[1] and v >> (8 * fm[0] - 1): v -= 1 << 8 * fm[0]
            if enc & 0x70: v += BASE
            L.append('E %d %s' % (enc, d.hex())); W.append((v & (1 << 64) - 1, len(d)))
    for enc in (0x9b, 0x9c, 0x94, 0x93):      # pc-relative indirect
        n = FMT[enc & 15][0]
        for d in (8, 16, 24):
            t = r.getrandbits(63); body = bytearray(d + 8); body[:n] = d.to_bytes(n, 'little'); body[d:d + 8] = t.to_bytes(8, 'little')
            L.append('E %d %s' % (enc, bytes(body).hex())); W.append((t, n))
    for _ in range(1500):
        ps = [r.randrange(1, 9) for _ in range(r.randrange(0, 6))]; i = r.randrange(1, 9); t = r.randrange(1, 10)
        L.append('I %d %d %s' % (i, t, ' '.join(map(str, ps)))); W.append((int(t == i or t in ps), 0))
    out, rc = run_lines(exe, L)
    for l, w, o in zip(L, W, out + ['crash'] * (len(L) - len(out))):
        rep.case(l)
        if o != '%x %d' % w: rep.fail('enc ' + l.split()[0] + (l.split()[1] if l[0] == 'E' else ''), '%s: real code returned "%s", expected "%x %d"' % ((l, o) + w))
    rep.distinct = len(set(L))

def mk_lsda(r):
    """random well-formed table; returns line for the driver and the expected outcome"""
    ttenc = r.choice([0x00, 0x03, 0x1b, 0x1c, 0x04, 0x10, 0xff, 0x9b])
    csenc = r.choice([0x01, 0x03, 0x01, 0x04, 0x02, 0x0b, 0x0c])
    nt = r.randrange(1, 5); types = [r.choice([0, r.randrange(1, 8)]) for _ in range(nt)]
    # actions: chains
    acts = bytearray(); starts = []; chains = {}
    if ttenc == 0xff: nt_used = 0
    recs = []
    for _ in range(r.randrange(1, 6)):
        pos = len(acts)
        t = 0 if ttenc == 0xff else r.choice([0] + list(range(1, nt + 1)) * 2)
        tb = sleb(t)
        nxt = None
        if recs and r.random() < 0.7: nxt = r.choice(recs)
        dpos = pos + len(tb)
        d = 0 if nxt is None else nxt - dpos
        if nxt is not None and d == 0: nxt = None
        acts += tb + sleb(d)
        chains[pos] = (t, nxt); recs.append(pos)
    if r.random() < 0.3:
        acts = acts  # no padding
    cs = bytearray(); rows = []; cur = r.randrange(0, 5)
    big = r.random() < 0.2
    def enc(v):
        if csenc == 1: return uleb(v, 0 if r.random() < .8 else r.randrange(1, 3))
        return v.to_bytes(FMT[csenc][0], 'little')
    lim = {2: 60000, 10: 30000}.get(csenc & 15, 1 << 30)
    for _ in range(r.randrange(0, 6)):
        s = cur + r.randrange(0, 4); l = r.randrange(1, 9) * (5000000 if big and lim > 1 << 20 else 1); lp = r.choice([0, r.randrange(1, 200), r.randrange(1, 200) + (100000000 if lim > 1 << 20 else 0)]); a = r.choice([0] + [p + 1 for p in recs])
        cs += enc(s) + enc(l) + enc(lp) + uleb(a); rows.append((s, l, lp, a)); cur = s + l
    head = bytearray([r.choice([0xff, 0xff, 0x03])])
    if head[0] != 0xff: head += (1234).to_bytes(4, 'little')
    head.append(ttenc)
    esz = 0 if ttenc == 0xff else SIZES[ttenc & 15]
    tail = bytes([csenc]) + uleb(len(cs)) + bytes(cs) + bytes(acts)
    if ttenc != 0xff:
        gap = r.randrange(0, 4); tot = len(tail) + gap + nt * esz
        # large type-table offsets need multi-byte LEBs
        u = uleb(tot); start = len(head) + len(u) + len(tail) + gap
        tt = bytearray()
        # slots for indirect entries sit after the table
        for k in range(nt - 1, -1, -1):     # entry i at base - i*esz
            addr = BASE + start + len(tt); tgt = BASE + (1 << 19) + 4 * k
            if ttenc & 0x80: tgt = BASE + (1 << 18) + 8 * k
            v = tgt - (addr if ttenc & 0x70 == 0x10 else 0)
            if ttenc & 0x0f in (3,) and not 0 <= v < 1 << 32: return None
            if ttenc & 0x0f == 11 and not -(1 << 31) <= v < 1 << 31: return None
            tt += (v & (1 << 8 * esz) - 1).to_bytes(esz, 'little')
        if ttenc & 0x80: return None
        lsda = bytes(head) + u + tail + bytes(gap) + bytes(tt)
    else: lsda = bytes(head) + tail
    fs = r.choice([0x1000, 0x7f0000001000, 0]); 
    cand = [x for s, l, lp, a in rows for x in (s, s + l - 1, s + l, max(s - 1, 0), s + l // 2)] + [0, cur + 3]
    pc = r.choice(cand); ip = fs + pc + 1
    cls = SEQCLASS if r.random() < 0.85 else 0x474e5543432b2b00
    act = r.choice([1, 2, 6, 2 | 8]); idn = r.randrange(1, 8); ps = [r.randrange(1, 8) for _ in range(r.randrange(0, 3))]
    exp = (8, 0, 0, 0, 0)
    for s, l, lp, a in rows:
        if lp and s <= pc < s + l:
            m = None
            if cls == SEQCLASS and a:
                p = a - 1
                seen = 0
                while p is not None and seen < 50:
                    t, nx = chains[p]
                    if t > 0:
                        ty = types[t - 1]
                        if ty == 0 or ty == idn or ty in ps: m = ty; break
                    p = nx; seen += 1
            if act & 1: exp = (6 if m is not None else 8, 0, 0, 0, 0)
            else: exp = (7, 3, fs + lp, 1, m or 0)
            break
    line = 'L %s %x %x %x %d %d %d %s %d %s' % (lsda.hex(), ip, fs, cls, act, idn, len(ps), ' '.join(map(str, ps)), nt, ' '.join(map(str, types)))
    return line, '%d %d %x %d %x' % exp
def find_lsda(rep):
    exe = build(STATE['tmp']); L = []; W = []
    while len(L) < (20000 if rep.tier == 'quick' else 200000):
        x = mk_lsda(rep.rng)
        if x: L.append(x[0]); W.append(x[1])
    out, rc = run_lines(exe, L)
    for l, w, o in zip(L, W, out + ['crash'] * (len(L) - len(out))):
        rep.case(l + ' -> ' + o)
        if o != w:
            rep.fail('lsda', 'driver line "%s": real code returned (verdict, registers set, ip, object, selector) "%s", expected "%s"' % (l, o, w)); break
    rep.distinct = len(set(L)); rep.notes.append('outcomes: ' + str({k: sum(1 for w in W if w[0] == k) for k in '678'}))

def finders(tier):
    try: build(STATE['tmp'])
    except Exception as e: raise
    return [T('exec LEB readers', find_leb), T('exec encoded pointers', find_enc), T('exec personality on generated tables', find_lsda)]
REPLAY_HELP = 'lines are fed to a driver that includes codon/runtime/exc.cpp and calls the named function (checks/c07.py HARNESS)'
