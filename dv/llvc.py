"""LLVC: symbolic executor / VC generator for LLVM IR compiled from the real sources on this run.

Integers: Python int (unsigned) when concrete, z3 BitVec otherwise.  Pointers: Ptr(object id, offset).
Floats: F values (z3 FP term, or raw bits, or concrete).  Every C/C++ undefined-behaviour condition met on
the way (nsw overflow, division by zero, over-wide shift, out-of-range float->int, out-of-bounds access)
is an obligation (ub='prove') or is collected as a definedness condition (ub='collect').
"""
import re, struct, math
import z3
from core import PathEnd, Unsupported, PathLimit
import llparse
from llparse import parse_body, get_block, FSIZE

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj = obj; s.off = off
    def __repr__(s): return f'Ptr({s.obj},{s.off})'
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj == o.obj and not z3.is_expr(s.off) and not z3.is_expr(o.off) and s.off == o.off
    def __hash__(s): return hash((s.obj, s.off if isinstance(s.off, int) else 0))

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class CxxThrow(Exception):
    def __init__(s, what): s.what = what

SORTS = {'half': (5, 11), 'bfloat': (8, 8), 'float': (8, 24), 'double': (11, 53), 'fp128': (15, 113)}
def fsort(kind):
    if kind not in SORTS: raise Unsupported('fp kind ' + kind)
    return z3.FPSort(*SORTS[kind])
RNE = z3.RNE(); RTZ = z3.RTZ()

class F:
    """Float value of kind; exactly one primary representation."""
    __slots__ = ('kind', 'conc', '_fp', '_bits')
    def __init__(s, kind, conc=None, fp=None, bits=None):
        s.kind = kind; s.conc = conc; s._fp = fp; s._bits = bits
        if conc is None and isinstance(bits, int) and kind in ('double', 'float') and fp is None:
            x = struct.unpack('<d', struct.pack('<Q', bits))[0] if kind == 'double' else struct.unpack('<f', struct.pack('<I', bits))[0]
            if x == x: s.conc = x
    def fp(s):
        if s._fp is None:
            if s.conc is not None:
                if s.conc != s.conc: s._fp = z3.fpNaN(fsort(s.kind))
                else: s._fp = z3.FPVal(s.conc, fsort(s.kind)) if not (s.conc == 0 and math.copysign(1, s.conc) < 0) else z3.fpMinusZero(fsort(s.kind))
            else:
                b = s._bits
                w = FSIZE[s.kind] * 8
                if isinstance(b, int): b = z3.BitVecVal(b, w)
                s._fp = z3.simplify(z3.fpBVToFP(b, fsort(s.kind)))
        return s._fp
    def bits(s, ex):
        if s._bits is None:
            w = FSIZE[s.kind] * 8
            if s.conc is not None and s.conc == s.conc:
                s._bits = struct.unpack('<Q', struct.pack('<d', s.conc))[0] if s.kind == 'double' else struct.unpack('<I', struct.pack('<f', s.conc))[0]
            else:
                b = ex.ctx.fresh_bv('fbits', w)
                ex.ctx.assume(z3.fpBVToFP(b, fsort(s.kind)) == s.fp())
                s._bits = b
        return s._bits
    def __repr__(s): return f'F({s.kind},{s.conc if s.conc is not None else (s._fp if s._fp is not None else s._bits)})'

def mask(w): return (1 << w) - 1
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x
def bv(x, w):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.BitVecVal(x, w)
    return x
def simp(x):
    x = z3.simplify(x)
    if z3.is_bv_value(x): return x.as_long()
    return x
def b2i(c):
    """bool (py or z3) -> i1"""
    if isinstance(c, bool): return int(c)
    c = z3.simplify(c)
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
def i2b(x):
    if isinstance(x, (int, bool)): return bool(x & 1)
    if z3.is_bool(x): return x
    return x == z3.BitVecVal(1, x.size())

class MemObj:
    __slots__ = ('size', 'cells', 'arr', 'name', 'ghost', 'const', 'freed')
    def __init__(s, size, name=''):
        s.size = size; s.cells = {}; s.arr = None; s.name = name; s.ghost = None; s.const = False; s.freed = False
    def copy(s):
        o = MemObj(s.size, s.name); o.cells = dict(s.cells); o.arr = s.arr; o.ghost = s.ghost; o.const = s.const; o.freed = s.freed
        return o

class Memory:
    def __init__(s, base=None):
        s.base = base; s.objs = {}; s.next = base.next if base else 1
        s.globs = dict(base.globs) if base else {}
        s.fnptr = dict(base.fnptr) if base else {}
        s.readonly = False
    def alloc(s, size, name=''):
        i = s.next; s.next += 1
        s.objs[i] = MemObj(size, name); return i
    def get(s, i):
        o = s.objs.get(i)
        if o is None and s.base: o = s.base.get(i)
        if o is None: raise Unsupported('no object %s' % i)
        return o
    def getw(s, i):
        o = s.objs.get(i)
        if o is None:
            if not s.base: raise Unsupported('no object %s' % i)
            o = s.base.get(i).copy(); s.objs[i] = o
        return o

class Frame:
    __slots__ = ('f', 'regs', 'args', 'block')
    def __init__(s, f): s.f = f; s.regs = {}; s.block = None

class Exec:
    def __init__(self, modules, ctx, mem=None, hooks=None, ub='prove', max_steps=2000000, who=''):
        self.mods = modules if isinstance(modules, list) else [modules]
        self.ctx = ctx
        self.mem = mem or Memory()
        self.hooks = hooks or Hooks()
        self.ub = ub
        self.defined = []
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.stack = []
        self.executed = set()
        self.who = who
        self.max_block_visits = 400
        self.gh = {}

    # ---------------------------------------------------------------- UB
    def where(self):
        if not self.stack: return ''
        f, dbg = self.stack[-1]
        return '%s:%s' % (f.mod.demangled.get(f.name, f.name), f.mod.line_of(dbg) if dbg else '?')

    def need(self, cond, what):
        """cond must hold or behaviour is undefined."""
        if isinstance(cond, bool):
            if cond: return
        if self.ub == 'collect':
            self.defined.append(cond if not isinstance(cond, bool) else z3.BoolVal(cond)); 
            return
        if self.ub == 'ignore': return
        self.ctx.prove(cond, 'no-ub:%s' % what, where=self.where())

    # ---------------------------------------------------------------- memory
    def load(self, mod, t, p):
        t = mod.resolve(t)
        if t[0] in ('st', 'arr', 'vec'):
            out = []
            if t[0] == 'st':
                offs, _ = mod.layout(t); ts = t[1]
            else:
                es = mod.size(t[2]); offs = [i * es for i in range(t[1])]; ts = [t[2]] * t[1]
            return [self.load(mod, x, self.padd(p, o)) for x, o in zip(ts, offs)]
        n = mod.store_size(t)
        raw = self.load_raw(p, n)
        return self.from_raw(raw, t, n)

    def padd(self, p, o):
        if isinstance(p, int): return (p + o) & mask(64)
        if isinstance(p, Ptr):
            if isinstance(p.off, int) and isinstance(o, int): return Ptr(p.obj, p.off + o)
            return Ptr(p.obj, simp_s(bv(p.off, 64) + bv(o, 64)))
        if p is UNDEF: return UNDEF
        if z3.is_expr(p): return simp(p + bv(o, 64))
        raise Unsupported('padd %r' % (p,))

    def from_raw(self, raw, t, n):
        k = t[0]
        if raw is UNDEF: return UNDEF
        if k == 'i':
            w = t[1]
            if isinstance(raw, Ptr):
                return raw
            if isinstance(raw, F): raw = raw.bits(self)
            if isinstance(raw, int): return raw & mask(w)
            if raw.size() == w: return raw
            return simp(z3.Extract(w - 1, 0, raw))
        if k == 'ptr':
            return raw if not isinstance(raw, F) else raw.bits(self)
        if k == 'f':
            if isinstance(raw, F):
                if raw.kind == t[1]: return raw
                raw = raw.bits(self)
            return F(t[1], bits=raw)
        raise Unsupported('load type %r' % (t,))

    def deref(self, p, n, what):
        if not isinstance(p, Ptr):
            if p is UNDEF: raise Unsupported('deref undef')
            if isinstance(p, int):
                self.need(False, what + ' through null/invalid pointer'); raise PathEnd('null deref')
            raise Unsupported('deref of symbolic pointer %s' % what)
        return p

    def load_raw(self, p, n):
        p = self.deref(p, n, 'load')
        o = self.mem.get(p.obj)
        if o.freed: self.need(False, 'load of freed memory'); raise PathEnd()
        if o.arr is not None: return self.load_arr(o, p, n)
        if z3.is_expr(p.off):
            off = self.concretize(p.off, o, n)
            p = Ptr(p.obj, off)
        if o.size is not None and not (0 <= p.off and p.off + n <= o.size):
            self.need(False, 'load out of bounds of %s' % o.name); raise PathEnd()
        c = o.cells.get(p.off)
        if c is not None and c[0] == n: return c[1]
        return self.load_bytes(o, p.off, n)

    def concretize(self, off, o, n):
        """Symbolic offset into a concrete object: bounds obligation then case split."""
        if o.size is None: raise Unsupported('symbolic offset in unsized object')
        self.need(z3.And(z3.ULE(off, o.size - n)), 'access out of bounds of %s' % o.name)
        if o.size > 4096: raise Unsupported('symbolic offset in large object')
        for c in range(0, o.size - n + 1):
            if self.ctx.branch(off == c): return c
        raise PathEnd()

    def byte(self, o, off):
        for d in range(0, 17):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if v is UNDEF: return UNDEF
                    if isinstance(v, F): v = v.bits(self)
                    if isinstance(v, Ptr): raise Unsupported('byte of pointer')
                    if isinstance(v, int): return v >> (8 * d) & 255
                    return simp(z3.Extract(8 * d + 7, 8 * d, v)) if v.size() > 8 * d + 7 else simp(z3.Extract(7, 0, z3.LShR(z3.ZeroExt(64, v), 8 * d)))
                return UNDEF
        return UNDEF

    def load_bytes(self, o, off, n):
        bs = [self.byte(o, off + i) for i in range(n)]
        if all(b is UNDEF for b in bs): return UNDEF
        bs = [0 if b is UNDEF else b for b in bs]
        if all(isinstance(b, int) for b in bs): return int.from_bytes(bytes(bs), 'little')
        r = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0]
        return simp(r)

    def load_arr(self, o, p, n):
        off = bv(p.off, 64)
        self.bounds(o, off, n)
        bs = [z3.Select(o.arr, off + i) for i in range(n)]
        return simp(z3.Concat(*reversed(bs)) if n > 1 else bs[0])

    def bounds(self, o, off, n):
        sz = o.size if z3.is_expr(o.size) else z3.BitVecVal(o.size, 64)
        self.need(z3.And(z3.ULE(off, sz), z3.ULE(z3.BitVecVal(n, 64), sz - off)), 'access within %s' % o.name)

    def store(self, mod, t, v, p):
        t = mod.resolve(t)
        if t[0] in ('st', 'arr', 'vec'):
            if t[0] == 'st': offs, _ = mod.layout(t); ts = t[1]
            else:
                es = mod.size(t[2]); offs = [i * es for i in range(t[1])]; ts = [t[2]] * t[1]
            if v is UNDEF: v = [UNDEF] * len(ts)
            for x, o, y in zip(ts, offs, v): self.store(mod, x, y, self.padd(p, o))
            return
        n = mod.store_size(t)
        if t[0] == 'i' and t[1] < 8 * n and v is not UNDEF:
            v = v if isinstance(v, int) else (simp(z3.ZeroExt(8 * n - t[1], v)) if z3.is_bv(v) else v)
        self.store_raw(p, n, v)

    def store_raw(self, p, n, v):
        p = self.deref(p, n, 'store')
        o = self.mem.getw(p.obj)
        if o.freed: self.need(False, 'store to freed memory'); raise PathEnd()
        if o.const: self.need(False, 'store to read-only object %s' % o.name); raise PathEnd()
        if o.arr is not None:
            off = bv(p.off, 64); self.bounds(o, off, n)
            if isinstance(v, F): v = v.bits(self)
            if v is UNDEF or isinstance(v, Ptr): raise Unsupported('store of ptr/undef to array')
            v = bv(v, 8 * n)
            a = o.arr
            for i in range(n): a = z3.Store(a, off + i, z3.Extract(8 * i + 7, 8 * i, v))
            o.arr = z3.simplify(a)
            return
        if z3.is_expr(p.off): p = Ptr(p.obj, self.concretize(p.off, o, n))
        if o.size is not None and not (0 <= p.off and p.off + n <= o.size):
            self.need(False, 'store out of bounds of %s' % o.name); raise PathEnd()
        self.kill(o, p.off, n)
        o.cells[p.off] = (n, v)

    def kill(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            del o.cells[off]; return
        # overlapping cells -> split to bytes
        for d in range(-16, n):
            c = o.cells.get(off + d)
            if c is None: continue
            if d < 0 and c[0] <= -d: continue
            if d >= 0 and d + c[0] <= n: del o.cells[off + d]; continue
            bs = []
            for i in range(c[0]):
                if isinstance(c[1], Ptr): bs.append(UNDEF)
                else: bs.append(self.byte(o, off + d + i))
            del o.cells[off + d]
            for i, b in enumerate(bs):
                if not (off <= off + d + i < off + n): o.cells[off + d + i] = (1, b)

    def memcpy(self, d, s, n):
        if n == 0: return
        if not isinstance(n, int):
            raise Unsupported('memcpy of symbolic length')
        d = self.deref(d, n, 'memcpy'); s = self.deref(s, n, 'memcpy')
        so = self.mem.get(s.obj)
        do = self.mem.get(d.obj)
        if so.arr is not None or do.arr is not None or z3.is_expr(s.off) or z3.is_expr(d.off):
            vals = [self.load_raw(self.padd(s, i), 1) for i in range(n)]
            for i, v in enumerate(vals): self.store_raw(self.padd(d, i), 1, v)
            return
        if so.size is not None and not (0 <= s.off and s.off + n <= so.size): self.need(False, 'memcpy source out of bounds'); raise PathEnd()
        if do.size is not None and not (0 <= d.off and d.off + n <= do.size): self.need(False, 'memcpy destination out of bounds'); raise PathEnd()
        items = []
        i = 0
        if n <= 4096:
            while i < n:
                c = so.cells.get(s.off + i)
                if c is not None and i + c[0] <= n: items.append((i, c)); i += c[0]
                else:
                    b = self.byte(so, s.off + i)
                    items.append((i, (1, b))); i += 1
        else:
            for o, c in so.cells.items():
                if s.off <= o and o + c[0] <= s.off + n: items.append((o - s.off, c))
        do = self.mem.getw(d.obj)
        for o in [o for o in list(do.cells) if d.off - 16 < o < d.off + n]:
            c = do.cells.get(o)
            if c is None: continue
            if o >= d.off and o + c[0] <= d.off + n: del do.cells[o]
            elif o + c[0] > d.off: self.kill(do, max(o, d.off), min(o + c[0], d.off + n) - max(o, d.off))
        for i, c in items: 
            if c[1] is not UNDEF: do.cells[d.off + i] = c

    def memset(self, d, b, n):
        if n == 0: return
        if not isinstance(n, int): raise Unsupported('memset of symbolic length')
        for i in range(0, n):
            pass
        d = self.deref(d, n, 'memset')
        do = self.mem.getw(d.obj)
        if do.arr is None and isinstance(d.off, int):
            if do.size is not None and d.off + n > do.size: self.need(False, 'memset out of bounds'); raise PathEnd()
            i = 0
            while i < n:
                k = 8 if n - i >= 8 and isinstance(b, int) else 1
                self.kill(do, d.off + i, k)
                do.cells[d.off + i] = (k, b if k == 1 else int.from_bytes(bytes([b & 255]) * 8, 'little')); i += k
            return
        for i in range(n): self.store_raw(self.padd(d, i), 1, b)

    def malloc(self, n, name='heap'):
        if not isinstance(n, int): raise Unsupported('malloc of symbolic size')
        return Ptr(self.mem.alloc(n, name), 0)

    def cstring(self, p, limit=4096):
        out = bytearray()
        while True:
            b = self.load_raw(self.padd(p, len(out)), 1)
            if not isinstance(b, int): raise Unsupported('symbolic C string')
            if b == 0: return bytes(out)
            out.append(b)
            if len(out) > limit: raise Unsupported('long C string')

    # ---------------------------------------------------------------- globals & constants
    def find_func(self, name):
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and not f.is_decl: return f
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None: return f
        return None

    def glob(self, mod, name):
        key = name
        g = self.mem.globs.get((id(mod), key)) or self.mem.globs.get(key)
        if g is not None: return Ptr(g, 0)
        f = self.find_func(name)
        if f is not None:
            i = self.mem.alloc(0, 'fn ' + name); 
            self.mem.globs[key] = i; self.mem.fnptr[i] = name
            self._persist(i)
            return Ptr(i, 0)
        txt = mod.globals.get(name)
        m2 = mod
        internal = txt is not None and re.match(r'^(private|internal)\b', txt)
        if txt is None or re.match(r'^(external|extern_weak)\b', txt):
            for m in self.mods:
                t = m.globals.get(name)
                if t is not None and not re.match(r'^(external|extern_weak|private|internal)\b', t): txt = t; m2 = m; break
        if txt is None: raise Unsupported('global ' + name)
        t0 = txt
        if re.match(r'^@?alias|.*\balias\b', txt) and ' alias ' in ' ' + txt:
            mm = re.search(r'alias .*?, ptr @("(?:[^"\\]|\\.)*"|[-\w.$]+)', txt)
            return self.glob(mod, mm.group(1).strip('"'))
        mm = re.match(r'^((?:[a-z_]+(?:\([^)]*\))? )*?)(global|constant) (.*)$', txt)
        if not mm: raise Unsupported('global text ' + txt[:80])
        p = llparse.P(llparse.tokenize(re.sub(r', (comdat|align|section|no_sanitize|!).*$', '', mm.group(3))))
        t = llparse.ptype(p)
        i = self.mem.alloc(m2.size(t), '@' + name)
        self.mem.globs[(id(mod), key) if internal else key] = i
        self._persist(i)
        if not p.end() and 'external' not in mm.group(1).split():
            v = llparse.pval(p, t)
            self.store_const(m2, t, v, Ptr(i, 0))
        else:
            self.ext_global(name, i)
        if mm.group(2) == 'constant': self.mem.getw(i).const = True
        return Ptr(i, 0)

    def _persist(self, i):
        pass

    def ext_global(self, name, i):
        h = self.hooks.ext_globals.get(name)
        if h: h(self, i)

    def store_const(self, mod, t, v, p):
        t = mod.resolve(t)
        if v[0] == 'cstr':
            o = self.mem.getw(p.obj)
            for i, b in enumerate(v[1]): o.cells[p.off + i] = (1, b)
            return
        if v[0] == 'zero':
            self.memset(p, 0, mod.size(t)); return
        if v[0] == 'undef': return
        if v[0] == 'agg':
            if t[0] == 'st': offs, _ = mod.layout(t)
            else: es = mod.size(t[2]); offs = [i * es for i in range(len(v[1]))]
            for (et, ev), o in zip(v[1], offs): self.store_const(mod, et, ev, self.padd(p, o))
            return
        self.store(mod, t, self.const(mod, t, v), p)

    def const(self, mod, t, v):
        k = v[0]
        if k == 'int':
            t = mod.resolve(t)
            return v[1] & mask(t[1]) if t[0] == 'i' else v[1]
        if k == 'null': return 0
        if k == 'undef':
            return UNDEF
        if k == 'fp': return F(v[1], bits=v[2])
        if k == 'glob': return self.glob(mod, v[1])
        if k == 'zero':
            t = mod.resolve(t)
            if t[0] == 'i' or t[0] == 'ptr': return 0
            if t[0] == 'f': return F(t[1], bits=0)
            if t[0] == 'st': return [self.const(mod, x, v) for x in t[1]]
            return [self.const(mod, t[2], v) for _ in range(t[1])]
        if k == 'agg': return [self.const(mod, et, ev) for et, ev in v[1]]
        if k == 'cstr': return list(v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(mod, ('ptr',), v[3])
                return self.gep(mod, v[2], base, [(it, self.const(mod, it, iv)) for it, iv in v[4]])
            if v[1] == 'cast': return self.cast(mod, v[2], v[3], self.const(mod, v[3], v[4]), v[5], set())
            if v[1] == 'bin': return self.binop(mod, v[2], v[3], self.const(mod, v[3], v[4]), self.const(mod, v[3], v[5]), set())
            if v[1] == 'icmp': return self.icmp(mod, v[2], v[3], self.const(mod, v[3], v[4]), self.const(mod, v[3], v[5]))
        raise Unsupported('const %r' % (v,))

    # ---------------------------------------------------------------- operators
    def gep(self, mod, bt, base, idx):
        p = base
        t = bt
        for n, (it, iv) in enumerate(idx):
            iw = mod.resolve(it)[1] if it[0] == 'i' else 64
            if iv is UNDEF: raise Unsupported('gep undef index')
            if n == 0:
                sz = mod.size(t)
            else:
                t = mod.resolve(t)
                if t[0] == 'st':
                    offs, _ = mod.layout(t)
                    p = self.padd(p, offs[iv]); t = t[1][iv]; continue
                t = t[2]; sz = mod.size(t)
            if isinstance(iv, int): p = self.padd(p, sgn(iv, iw) * sz)
            else:
                x = iv if iw == 64 else z3.SignExt(64 - iw, iv)
                p = self.padd(p, simp(x * sz))
        return p

    def as_int(self, v, w):
        if v is UNDEF: raise Unsupported('undef operand')
        return v

    def binop(self, mod, op, t, a, b, fl):
        t = mod.resolve(t)
        if t[0] == 'vec':
            return [self.binop(mod, op, t[2], x, y, fl) for x, y in zip(a, b)]
        if t[0] == 'f': return self.fbin(op, t[1], a, b)
        w = t[1]
        if (a is UNDEF) != (b is UNDEF) and op in ('and', 'or') and not isinstance(a, Ptr) and not isinstance(b, Ptr):
            # undef bits merged with defined ones (sroa): an arbitrary value, so every result must be correct for it
            u = self.ctx.fresh_bv('undef', w)
            if a is UNDEF: a = u
            else: b = u
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptr_arith(op, a, b)
        ca, cb = isinstance(a, int), isinstance(b, int)
        if ca and cb:
            M = mask(w)
            if op == 'add':
                r = a + b
                if 'nsw' in fl: self.need(-(1 << w - 1) <= sgn(a, w) + sgn(b, w) < (1 << w - 1), 'signed add overflow')
                return r & M
            if op == 'sub':
                if 'nsw' in fl: self.need(-(1 << w - 1) <= sgn(a, w) - sgn(b, w) < (1 << w - 1), 'signed sub overflow')
                return (a - b) & M
            if op == 'mul':
                if 'nsw' in fl: self.need(-(1 << w - 1) <= sgn(a, w) * sgn(b, w) < (1 << w - 1), 'signed mul overflow')
                return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.need(False, 'shift amount >= width'); return self.ctx.fresh_bv('poison', w)
                if op == 'shl': return (a << b) & M
                if op == 'lshr': return a >> b
                return (sgn(a, w) >> b) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.need(False, 'division by zero')
                    if self.ub == 'collect': return self.ctx.fresh_bv('poison', w)
                    raise PathEnd()
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, w), sgn(b, w)
                if y == -1 and x == -(1 << w - 1):
                    self.need(False, 'signed division overflow')
                    if self.ub == 'collect': return self.ctx.fresh_bv('poison', w)
                    raise PathEnd()
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return q & M if op == 'sdiv' else (x - q * y) & M
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            if 'nsw' in fl: self.need(z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)), 'signed add overflow')
            return simp(A + B)
        if op == 'sub':
            if 'nsw' in fl: self.need(z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)), 'signed sub overflow')
            return simp(A - B)
        if op == 'mul':
            if 'nsw' in fl: self.need(z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)), 'signed mul overflow')
            return simp(A * B)
        if op == 'and': return simp(A & B)
        if op == 'or': return simp(A | B)
        if op == 'xor': return simp(A ^ B)
        if op in ('shl', 'lshr', 'ashr'):
            self.need(z3.ULT(B, w), 'shift amount >= width')
            return simp({'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]())
        self.need(B != 0, 'division by zero')
        if op == 'udiv': return simp(z3.UDiv(A, B))
        if op == 'urem': return simp(z3.URem(A, B))
        self.need(z3.Not(z3.And(A == (1 << w - 1), B == mask(w))), 'signed division overflow')
        if op == 'sdiv': return self.divfn(A, B) if getattr(self, 'divfn', None) else simp(A / B)
        if op == 'srem': return simp(z3.SRem(A, B))
        raise Unsupported(op)

    def ptr_arith(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj: raise Unsupported('difference of pointers to different objects')
            if isinstance(a.off, int) and isinstance(b.off, int): return (a.off - b.off) & mask(64)
            return simp(bv(a.off, 64) - bv(b.off, 64))
        if op == 'add':
            return self.padd(a, b) if isinstance(a, Ptr) else self.padd(b, a)
        if op == 'sub' and isinstance(a, Ptr): return self.padd(a, simp(-bv(b, 64)) if not isinstance(b, int) else -sgn(b, 64))
        if op == 'and' and isinstance(b, int) and isinstance(a, Ptr) and isinstance(a.off, int):
            # alignment tests/masks: objects are 16-aligned
            if b < 16: return a.off & b
            if b == mask(64) - (mask(64) ^ b) : return Ptr(a.obj, a.off & b if (mask(64) ^ b) < 16 else a.off)
        if op == 'or' and isinstance(b, int) and isinstance(a, Ptr): 
            if b == 0: return a
            if b<16 and isinstance(a.off,int): return Ptr(a.obj, a.off|b)
        if op == 'sub' and a == 0 and isinstance(b, Ptr): return self.ctx.fresh_bv('negaddr', 64)   # speculated null - p: depends on the address
        if op == 'urem' and isinstance(a, Ptr) and isinstance(a.off, int) and isinstance(b, int) and b: return ((a.obj << 12) + a.off) % b   # hash bucket of a pointer: some fixed address
        raise Unsupported('pointer arithmetic ' + op)

    def fbin(self, op, kind, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if a.conc is not None and b.conc is not None and kind == 'double':
            x, y = a.conc, b.conc
            try:
                if op == 'fadd': return F(kind, x + y)
                if op == 'fsub': return F(kind, x - y)
                if op == 'fmul': return F(kind, x * y)
                if op == 'fdiv' and y != 0: return F(kind, x / y)
            except OverflowError: pass
        X, Y = a.fp(), b.fp()
        if op == 'fadd': r = z3.fpAdd(RNE, X, Y)
        elif op == 'fsub': r = z3.fpSub(RNE, X, Y)
        elif op == 'fmul': r = z3.fpMul(RNE, X, Y)
        elif op == 'fdiv': r = z3.fpDiv(RNE, X, Y)
        elif op == 'frem':
            r = self.uf('fmod_' + kind, [a, b], kind).fp()
        else: raise Unsupported(op)
        return F(kind, fp=z3.simplify(r) if op != 'frem' else r)

    def uf(self, name, args, kind):
        """uninterpreted float function (libm / frem): same arguments, same result."""
        fn = z3.Function(name, *([fsort(a.kind) for a in args] + [fsort(kind)]))
        return F(kind, fp=fn(*[a.fp() for a in args]))

    def icmp(self, mod, pr, t, a, b):
        t = mod.resolve(t)
        if t[0] == 'vec': return [self.icmp(mod, pr, t[2], x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.pcmp(pr, a, b)
        w = 64 if t[0] == 'ptr' else t[1]
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's': a, b = sgn(a, w), sgn(b, w)
            k = pr if pr in ('eq', 'ne') else pr[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B,
             'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B)}[pr]()
        return b2i(r)

    def pcmp(self, pr, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int):
                    x, y = a.off, b.off
                    return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr if pr in ('eq', 'ne') else pr[1:]])
                A, B = bv(a.off, 64), bv(b.off, 64)
                k = pr if pr in ('eq', 'ne') else pr[1:]
                return b2i({'eq': lambda: A == B, 'ne': lambda: A != B, 'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B, 'ge': lambda: A >= B}[k]())
            if pr == 'eq': return 0
            if pr == 'ne': return 1
            x, y = a.obj, b.obj
            return int({'lt': x < y, 'le': x < y, 'gt': x > y, 'ge': x > y}[pr[1:]])
        x, y = (a, b) if isinstance(a, Ptr) else (b, a)
        if isinstance(y, int):
            if pr == 'eq': return 0
            if pr == 'ne': return 1
            return int({'ugt': a is x, 'uge': a is x, 'ult': a is not x, 'ule': a is not x}.get(pr, 0))
        raise Unsupported('pointer compare with symbolic int')

    def fcmp(self, pr, a, b):
        if pr == 'true': return 1
        if pr == 'false': return 0
        if a.conc is not None and b.conc is not None:
            x, y = a.conc, b.conc
            un = x != x or y != y
            o = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}
            if pr == 'ord': return int(not un)
            if pr == 'uno': return int(un)
            return int((not un and o[pr[1:]]) if pr[0] == 'o' else (un or o[pr[1:]]))
        X, Y = a.fp(), b.fp()
        un = z3.Or(z3.fpIsNaN(X), z3.fpIsNaN(Y))
        if pr == 'ord': return b2i(z3.Not(un))
        if pr == 'uno': return b2i(un)
        k = pr[1:]
        o = {'eq': lambda: z3.fpEQ(X, Y), 'gt': lambda: z3.fpGT(X, Y), 'ge': lambda: z3.fpGEQ(X, Y), 'lt': lambda: z3.fpLT(X, Y), 'le': lambda: z3.fpLEQ(X, Y),
             'ne': lambda: z3.Not(z3.fpEQ(X, Y))}[k]()
        return b2i(z3.And(z3.Not(un), o) if pr[0] == 'o' else z3.Or(un, o))

    def cast(self, mod, op, t, a, t2, fl):
        t = mod.resolve(t); t2 = mod.resolve(t2)
        if t[0] == 'vec' and op != 'bitcast':
            return [self.cast(mod, op, t[2], x, t2[2], fl) for x in a]
        if a is UNDEF: return UNDEF
        if op in ('zext', 'sext', 'trunc'):
            w, w2 = t[1], t2[1]
            if isinstance(a, Ptr):
                raise Unsupported('int cast of pointer')
            if isinstance(a, int):
                if op == 'sext': return sgn(a, w) & mask(w2)
                return a & mask(w2)
            if op == 'zext': return simp(z3.ZeroExt(w2 - w, a))
            if op == 'sext': return simp(z3.SignExt(w2 - w, a))
            return simp(z3.Extract(w2 - 1, 0, a))
        if op == 'ptrtoint':
            if isinstance(a, Ptr) or (t2[1] == 64): return a
            return a & mask(t2[1]) if isinstance(a, int) else simp(z3.Extract(t2[1] - 1, 0, a))
        if op == 'inttoptr': return a
        if op == 'addrspacecast': return a
        if op == 'bitcast':
            if t == t2: return a
            if t[0] == 'f' and t2[0] == 'i': return a.bits(self)
            if t[0] == 'i' and t2[0] == 'f': return F(t2[1], bits=a)
            raise Unsupported('bitcast')
        if op in ('sitofp', 'uitofp'):
            w = t[1]
            if isinstance(a, int):
                x = sgn(a, w) if op == 'sitofp' else a
                if t2[1] == 'double': return F('double', float(x))
                return F(t2[1], fp=z3.simplify(z3.fpSignedToFP(RNE, z3.BitVecVal(x, w + 1), fsort(t2[1]))))
            r = z3.fpSignedToFP(RNE, a, fsort(t2[1])) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, a, fsort(t2[1]))
            return F(t2[1], fp=r)
        if op in ('fptosi', 'fptoui'):
            w = t2[1]
            if a.conc is not None:
                x = a.conc
                if x != x or math.isinf(x): ok = False
                else:
                    x = int(x); ok = (-(1 << w - 1) <= x < (1 << w - 1)) if op == 'fptosi' else 0 <= x < (1 << w)
                if not ok:
                    self.need(False, 'float to int out of range'); return self.ctx.fresh_bv('poison', w)
                return x & mask(w)
            X = a.fp(); s = fsort(a.kind)
            lo, hi = (-(1 << w - 1), 1 << w - 1) if op == 'fptosi' else (0, 1 << w)
            r = z3.fpRoundToIntegral(RTZ, X)
            self.need(z3.And(z3.Not(z3.fpIsNaN(X)), z3.Not(z3.fpIsInf(X)), z3.fpLT(r, z3.FPVal(float(hi), s)), z3.fpGEQ(r, z3.FPVal(float(lo), s))), 'float to int out of range')
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(RTZ, X, z3.BitVecSort(w))
        if op in ('fpext', 'fptrunc'):
            if op == 'fpext' and a.conc is not None and t2[1] == 'double': return F('double', a.conc)
            return F(t2[1], fp=z3.simplify(z3.fpFPToFP(RNE, a.fp(), fsort(t2[1]))))
        raise Unsupported('cast ' + op)

    def ite(self, c, t, a, b, mod):
        if isinstance(c, int): return a if c else b
        if c is UNDEF: raise Unsupported('select on undef')
        cb = i2b(c)
        t = mod.resolve(t)
        if t[0] in ('st', 'arr', 'vec'):
            if self.ctx.branch(cb): return a
            return b
        if t[0] == 'f' and isinstance(a, F) and isinstance(b, F): return F(t[1], fp=z3.If(cb, a.fp(), b.fp()))
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is UNDEF or b is UNDEF or t[0] == 'ptr':
            return a if self.ctx.branch(cb) else b
        return simp(z3.If(cb, bv(a, t[1]), bv(b, t[1])))

    # ---------------------------------------------------------------- execution
    def val(self, fr, t, v):
        if v[0] == 'loc':
            try: return fr.regs[v[1]]
            except KeyError: raise Unsupported('undefined register %' + v[1])
        return self.const(fr.f.mod, t, v)

    def call_name(self, name, args):
        f = self.find_func(name)
        if f is None: f0 = None
        return self.call(name, args, None)

    def call(self, name, args, rt):
        hk = self.hooks.find(self, name)
        if hk is not None:
            return hk(self, args, name)
        f = self.find_func(name)
        if f is None or f.is_decl:
            r = intrinsic(self, name, args, rt)
            if r is not NOINT: return r
            raise Unsupported('external function %s' % self.dem(name))
        return self.run(f, args)

    def dem(self, name):
        for m in self.mods:
            d = m.demangled.get(name)
            if d: return d
        return name

    def run(self, f, args):
        if f.blocks is None: parse_body(f)
        self.depth += 1
        if self.depth > 400: raise Unsupported('recursion depth in ' + f.name)
        self.executed.add(f.name)
        fr = Frame(f)
        for (t, nm), a in zip(f.params, args): fr.regs[nm] = a
        self.stack.append((f, f.dbg))
        mod = f.mod
        allocas = []
        try:
            prev = None; cur = f.entry
            visits = {}
            while True:
                visits[cur] = visits.get(cur, 0) + 1
                lh = self.hooks.loop(self, f, cur)
                if lh is not None:
                    lh(self, fr, prev, cur, visits[cur])
                elif visits[cur] > self.max_block_visits: raise Unsupported('loop bound exceeded in ' + self.dem(f.name))
                blk = get_block(f, cur)
                # phis first (parallel)
                i = 0
                phis = []
                while i < len(blk) and blk[i][0][1] == 'phi':
                    ins = blk[i][0]
                    if (cur, ins[0]) in fr.regs:      # value injected by a loop hook
                        phis.append((ins[0], fr.regs.pop((cur, ins[0]))))
                    else:
                        for v, b in ins[3]:
                            if b == prev: phis.append((ins[0], self.val(fr, ins[2], v))); break
                        else: raise Unsupported('phi')
                    i += 1
                for d, v in phis: fr.regs[d] = v
                nxt = None
                while i < len(blk):
                    ins, dbg = blk[i]; i += 1
                    self.steps += 1
                    if self.steps > self.max_steps: raise Unsupported('step limit in ' + self.dem(f.name))
                    self.stack[-1] = (f, dbg or self.stack[-1][1])
                    op = ins[1]
                    if op == 'br': nxt = ins[2]; break
                    if op == 'cbr':
                        c = self.val(fr, ('i', 1), ins[2])
                        if c is UNDEF: raise Unsupported('branch on undef in ' + self.dem(f.name))
                        nxt = ins[3] if self.ctx.branch(i2b(c)) else ins[4]
                        break
                    if op == 'ret':
                        return None if ins[3] is None else self.val(fr, ins[2], ins[3])
                    if op == 'switch':
                        v = self.val(fr, ins[2], ins[3]); w = ins[2][1]
                        nxt = ins[4]
                        for cv, b in ins[5]:
                            k = cv[1] & mask(w)
                            if isinstance(v, int):
                                if v == k: nxt = b; break
                            elif self.ctx.branch(v == k): nxt = b; break
                        break
                    if op == 'invoke':
                        name, args2 = self.prep_call(fr, ins[3], ins[4])
                        r = self.call(name, args2, ins[2])
                        if ins[0] is not None: fr.regs[ins[0]] = r
                        nxt = ins[5]; break
                    if op == 'unreachable':
                        self.need(False, 'unreachable reached'); raise PathEnd('unreachable')
                    self.step(fr, mod, ins)
                if nxt is None: raise Unsupported('fallthrough in ' + f.name)
                prev, cur = cur, nxt
        finally:
            self.depth -= 1
            self.stack.pop()

    def prep_call(self, fr, cal, args):
        av = [self.val(fr, t, v) if t != ('meta',) else None for t, v in args]
        if cal[0] == 'glob':
            return cal[1], av
        if cal[0] == 'asm': return 'asm:' + cal[1], av
        p = self.val(fr, ('ptr',), cal)
        if isinstance(p, Ptr) and p.obj in self.mem.fnptr: return self.mem.fnptr[p.obj], av
        if isinstance(p, int) or p is UNDEF: self.need(False, 'call through null'); raise PathEnd()
        if isinstance(p, Ptr):
            o = self.mem.get(p.obj)
            raise Unsupported('indirect call to object %s' % o.name)
        raise Unsupported('symbolic indirect call')

    def step(self, fr, mod, ins):
        d, op = ins[0], ins[1]
        R = fr.regs
        if op == 'call':
            name, av = self.prep_call(fr, ins[3], ins[4])
            r = self.call(name, av, ins[2])
            if d is not None: R[d] = r
        elif op == 'load': R[d] = self.load(mod, ins[2], self.val(fr, ('ptr',), ins[3]))
        elif op == 'store': self.store(mod, ins[2], self.val(fr, ins[2], ins[3]), self.val(fr, ('ptr',), ins[4]))
        elif op == 'gep': R[d] = self.gep(mod, ins[2], self.val(fr, ('ptr',), ins[3]), [(t, self.val(fr, t, v)) for t, v in ins[4]])
        elif op == 'bin': R[d] = self.binop(mod, ins[2], ins[3], self.val(fr, ins[3], ins[4]), self.val(fr, ins[3], ins[5]), ins[6])
        elif op == 'icmp': R[d] = self.icmp(mod, ins[2], ins[3], self.val(fr, ins[3], ins[4]), self.val(fr, ins[3], ins[5]))
        elif op == 'fcmp':
            a, b = self.val(fr, ins[3], ins[4]), self.val(fr, ins[3], ins[5])
            R[d] = UNDEF if a is UNDEF or b is UNDEF else self.fcmp(ins[2], a, b)
        elif op == 'cast': R[d] = self.cast(mod, ins[2], ins[3], self.val(fr, ins[3], ins[4]), ins[5], ins[6])
        elif op == 'alloca':
            n = self.val(fr, ('i', 64), ins[3])
            if not isinstance(n, int): raise Unsupported('dynamic alloca')
            R[d] = Ptr(self.mem.alloc(mod.size(ins[2]) * n, 'local %' + str(d)), 0)
        elif op == 'select': R[d] = self.ite(self.val(fr, ins[2], ins[3]), ins[4], self.val(fr, ins[4], ins[5]), self.val(fr, ins[4], ins[6]), mod)
        elif op == 'fneg':
            a = self.val(fr, ins[2], ins[3])
            R[d] = UNDEF if a is UNDEF else (F(a.kind, -a.conc) if a.conc is not None else F(a.kind, fp=z3.fpNeg(a.fp())))
        elif op == 'freeze':
            v = self.val(fr, ins[2], ins[3])
            if v is UNDEF:
                t = mod.resolve(ins[2])
                v = self.ctx.fresh_bv('frz', t[1] if t[0] == 'i' else 64)
            R[d] = v
        elif op == 'extractvalue':
            v = self.val(fr, ins[2], ins[3])
            for i in ins[4]:
                if v is UNDEF: break
                v = v[i]
            R[d] = v
        elif op == 'insertvalue':
            v = self.val(fr, ins[2], ins[3]); x = self.val(fr, ins[4], ins[5])
            R[d] = self.insertv(mod, ins[2], v, x, ins[6])
        elif op == 'atomicrmw':
            p = self.val(fr, ('ptr',), ins[3]); t = ins[4]; v = self.val(fr, t, ins[5])
            old = self.load(mod, t, p)
            o = ins[2]
            if o == 'xchg': new = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'): new = self.binop(mod, o, t, old, v, set())
            elif o in ('max', 'min', 'umax', 'umin'):
                pr = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[o]
                new = self.ite(self.icmp(mod, pr, t, old, v), t, old, v, mod)
            elif o in ('fadd', 'fsub'): new = self.fbin(o, t[1], old, v)
            else: raise Unsupported('atomicrmw ' + o)
            self.store(mod, t, new, p); R[d] = old
        elif op == 'cmpxchg':
            p = self.val(fr, ('ptr',), ins[2]); t = ins[3]
            c = self.val(fr, t, ins[4]); v = self.val(fr, t, ins[5]); old = self.load(mod, t, p)
            eq = self.icmp(mod, 'eq', t, old, c)
            if self.ctx.branch(i2b(eq)): self.store(mod, t, v, p); R[d] = [old, 1]
            else: R[d] = [old, 0]
        elif op == 'nop': pass
        elif op == 'landingpad': R[d] = UNDEF
        else: raise Unsupported('instruction ' + str(ins)[:120])

    def insertv(self, mod, t, v, x, idx):
        t = mod.resolve(t)
        n = len(t[1]) if t[0] == 'st' else t[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1: v[idx[0]] = x
        else: v[idx[0]] = self.insertv(mod, t[1][idx[0]] if t[0] == 'st' else t[2], v[idx[0]], x, idx[1:])
        return v

def simp_s(x):
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return sgn(x.as_long(), x.size())
    return x

# ---------------------------------------------------------------------- hooks
class Hooks:
    def __init__(self, parent=None):
        self.exact = dict(parent.exact) if parent else {}
        self.pats = list(parent.pats) if parent else []
        self.ext_globals = dict(parent.ext_globals) if parent else {}
        self.loops = dict(parent.loops) if parent else {}
        self.cache = {}
        self.assumed = parent.assumed if parent else set()
    def on(self, pat, fn, assumed=None):
        """pat: regex matched (fullmatch at start) against the demangled name."""
        self.pats.append((re.compile(pat), fn)); self.cache = {}
        if assumed: self.assumed.add(assumed)
    def onx(self, name, fn): self.exact[name] = fn; self.cache = {}
    def find(self, ex, name):
        if name in self.cache: return self.cache[name]
        h = self.exact.get(name)
        if h is None:
            d = ex.dem(name)
            for p, fn in reversed(self.pats):
                if p.match(d): h = fn; break
        self.cache[name] = h
        return h
    def loop(self, ex, f, blk):
        if not self.loops: return None
        return self.loops.get((f.name, blk))

NOINT = object()
def i_minmax(pr):
    def g(ex, a, w):
        m = ex.mods[0]
        return ex.ite(ex.icmp(m, pr, ('i', w), a[0], a[1]), ('i', w), a[0], a[1], m)
    return g

def ctpop(x, w):
    if isinstance(x, int): return bin(x).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x)) if w > 1 else r + x
    return r
def ctlz(x, w):
    if isinstance(x, int): return w - x.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r
def cttz(x, w):
    if isinstance(x, int): return w if x == 0 else (x & -x).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
    return r

LIBM1 = {'sin', 'cos', 'tan', 'exp', 'exp2', 'log', 'log2', 'log10', 'log1p', 'expm1', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'cbrt', 'lgamma', 'tgamma', 'erf', 'erfc'}
LIBM2 = {'pow', 'atan2', 'fmod', 'hypot', 'remainder', 'ldexp_'}
def intrinsic(ex, name, args, rt):
    if name.startswith('llvm.'):
        parts = name.split('.')
        b = parts[1]
        if b in ('dbg', 'lifetime', 'assume', 'experimental', 'stackrestore', 'donothing', 'prefetch', 'va_start', 'va_end'): return None
        if b == 'stacksave': return 0
        if b in ('memcpy', 'memmove'): return ex.memcpy(args[0], args[1], args[2])
        if b == 'memset': return ex.memset(args[0], args[1], args[2])
        if b == 'expect': return args[0]
        if b == 'trap': ex.need(False, 'trap reached'); raise PathEnd()
        if b == 'objectsize': return mask(64)
        if b == 'is' and parts[2] == 'constant': return 0
        if b == 'umul' or b == 'smul' or b in ('sadd', 'uadd', 'ssub', 'usub'):
            w = int(parts[-1][1:]); A, B = bv(args[0], w), bv(args[1], w)
            ext = z3.SignExt if b[0] == 's' else z3.ZeroExt
            X, Y = ext(w + 1, A), ext(w + 1, B)
            r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[b[1:]]
            lo = z3.Extract(w - 1, 0, r)
            if parts[2] == 'with': return [simp(lo), b2i(ext(w + 1, lo) != r)]
            raise Unsupported(name)
        if b == 'ctpop': return simp_or(ctpop(args[0], int(parts[-1][1:])))
        if b == 'ctlz':
            w = int(parts[-1][1:])
            if args[1] == 1: ex.need(bv(args[0], w) != 0 if not isinstance(args[0], int) else args[0] != 0, 'ctlz of zero')
            return simp_or(ctlz(args[0], w))
        if b == 'cttz':
            w = int(parts[-1][1:])
            if args[1] == 1: ex.need(bv(args[0], w) != 0 if not isinstance(args[0], int) else args[0] != 0, 'cttz of zero')
            return simp_or(cttz(args[0], w))
        if b == 'bswap':
            w = int(parts[-1][1:]); x = bv(args[0], w)
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
        if b == 'bitreverse':
            w = int(parts[-1][1:]); x = bv(args[0], w)
            return simp(z3.Concat(*[z3.Extract(i, i, x) for i in range(w)]))
        if b in ('fshl', 'fshr'):
            w = int(parts[-1][1:]); x, y, s = (bv(a, w) for a in args)
            s = z3.URem(s, z3.BitVecVal(w, w)); c = z3.Concat(x, y)
            if b == 'fshl': return simp(z3.Extract(2 * w - 1, w, c << z3.ZeroExt(w, s)))
            return simp(z3.Extract(w - 1, 0, z3.LShR(c, z3.ZeroExt(w, s))))
        if b == 'abs':
            w = int(parts[-1][1:]); x = bv(args[0], w)
            if args[1] == 1: ex.need(x != (1 << w - 1), 'abs overflow')
            return simp(z3.If(x < 0, -x, x))
        if b in ('smax', 'smin', 'umax', 'umin'):
            pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[b]
            return i_minmax(pr)(ex, args, int(parts[-1][1:]))
        a = args
        kind = {'f64': 'double', 'f32': 'float', 'f16': 'half', 'bf16': 'bfloat', 'f128': 'fp128'}.get(parts[-1])
        if kind and all(isinstance(x, F) for x in a):
            if b == 'fabs': return F(kind, abs(a[0].conc)) if a[0].conc is not None else F(kind, fp=z3.fpAbs(a[0].fp()))
            if b == 'sqrt': return F(kind, fp=z3.fpSqrt(RNE, a[0].fp()))
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': RTZ, 'rint': RNE, 'nearbyint': RNE, 'roundeven': RNE, 'round': z3.RNA()}.get(b)
            if rm is not None: return F(kind, fp=z3.simplify(z3.fpRoundToIntegral(rm, a[0].fp())))
            if b == 'fma' or b == 'fmuladd': return F(kind, fp=z3.fpFMA(RNE, a[0].fp(), a[1].fp(), a[2].fp()))
            if b in ('minnum', 'maxnum', 'copysign'):
                if b == 'copysign':
                    X, Y = a[0].fp(), a[1].fp()
                    return F(kind, fp=z3.If(z3.fpIsNegative(Y), z3.fpNeg(z3.fpAbs(X)), z3.fpAbs(X)))
                return F(kind, fp=(z3.fpMin if b == 'minnum' else z3.fpMax)(a[0].fp(), a[1].fp()))
            if b in LIBM1 or b in LIBM2: return ex.uf(b + '_' + kind, a, kind)
        raise Unsupported('intrinsic ' + name)
    if name in ('malloc', '_Znwm', '_Znam'): return ex.malloc(args[0])
    if name in ('_ZdlPv', '_ZdlPvm', 'free', '_ZdaPv', '_ZdaPvm'): return None
    if name == 'calloc':
        p = ex.malloc(args[0] * args[1]); ex.memset(p, 0, args[0] * args[1]); return p
    if name in ('memcpy', 'memmove'): ex.memcpy(args[0], args[1], args[2]); return args[0]
    if name == 'memset': ex.memset(args[0], args[1], args[2]); return args[0]
    if name == 'strlen': return len(ex.cstring(args[0]))
    if name == 'memchr':
        if not isinstance(args[2], int) or not isinstance(args[1], int): raise Unsupported('memchr of symbolic length')
        for i in range(args[2]):
            p = ex.padd(args[0], i); x = ex.load_raw(p, 1)
            if ex.ctx.branch(x == (args[1] & 255)): return p
        return 0
    if name in ('memcmp', 'bcmp', 'strcmp', 'strncmp'):
        n = args[2] if len(args) > 2 else 1 << 20
        if not isinstance(n, int): raise Unsupported('memcmp of symbolic length')
        if name[0] != 's' and n % 8 == 0 and n:
            try: ws = [(ex.load_raw(ex.padd(args[0], i), 8), ex.load_raw(ex.padd(args[1], i), 8)) for i in range(0, n, 8)]
            except Unsupported: ws = []
            if any(isinstance(x, Ptr) or isinstance(y, Ptr) for x, y in ws):
                # arrays of pointers: only whether they are equal is determined
                for x, y in ws:
                    if isinstance(x, Ptr) or isinstance(y, Ptr):
                        if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and x.off == y.off): return 1
                    elif ex.ctx.branch(bv(x, 64) != bv(y, 64)): return 1
                return 0
        for i in range(n):
            x = ex.load_raw(ex.padd(args[0], i), 1); y = ex.load_raw(ex.padd(args[1], i), 1)
            if isinstance(x, int) and isinstance(y, int): ne = x != y
            else: ne = bv(x, 8) != bv(y, 8)
            if ex.ctx.branch(ne):
                if isinstance(x, int) and isinstance(y, int): return (x - y) & mask(32)
                return simp(z3.ZeroExt(24, bv(x, 8)) - z3.ZeroExt(24, bv(y, 8)))
            if name[0] == 's':
                if ex.ctx.branch(x == 0): return 0
        return 0
    if name in ('pow', 'fmod', 'atan2'): return ex.uf(name + '_double', args, 'double')
    if name in ('fabs',): return F('double', fp=z3.fpAbs(args[0].fp()))
    if name.startswith('_ZSt') and '__throw_' in name: raise CxxThrow(ex.dem(name))
    if name == '__cxa_throw': raise CxxThrow('exception')
    if name == '__cxa_allocate_exception': return ex.malloc(max(args[0], 64))
    if name == '__cxa_free_exception': return None
    if name == '__cxa_guard_acquire':
        v = ex.load_raw(args[0], 1)
        return 0 if v == 1 else 1
    if name == '__cxa_guard_release': ex.store_raw(args[0], 1, 1); return None
    if name == '__cxa_atexit': return 0
    if name == '__assert_fail': ex.need(False, 'assertion ' + ex.cstring(args[0]).decode()); raise PathEnd()
    if name in ('abort', 'exit', '_ZSt9terminatev'): raise CxxThrow(name)
    return NOINT

def simp_or(x): return x if isinstance(x, int) else simp(x)

def successors(f, b):
    blk = get_block(f, b)
    ins = blk[-1][0]; op = ins[1]
    if op == 'br': return [ins[2]]
    if op == 'cbr': return [ins[3], ins[4]]
    if op == 'switch': return [ins[4]] + [x for _, x in ins[5]]
    if op == 'invoke': return [ins[5]]
    return []

def loop_heads(f):
    """Targets of DFS back edges, with the blocks of each natural loop."""
    if f.blocks is None: parse_body(f)
    color = {}; heads = {}
    preds = {}
    stack = [(f.entry, iter(successors(f, f.entry)))]; color[f.entry] = 1
    back = []
    while stack:
        b, it = stack[-1]
        for s in it:
            preds.setdefault(s, set()).add(b)
            c = color.get(s, 0)
            if c == 1: back.append((b, s))
            elif c == 0:
                color[s] = 1; stack.append((s, iter(successors(f, s)))); break
        else:
            color[b] = 2; stack.pop()
    for b, h in back:
        body = heads.setdefault(h, {h}); w = [b]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w.extend(preds.get(x, ()))
    return heads

def phis(f, b):
    return [ins for ins, _ in get_block(f, b) if ins[1] == 'phi']
