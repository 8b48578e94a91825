"""Ghost std::string values and a generic loop cut, for functions that read one string of unbounded length and build another.

A std::string object is represented by a list of pieces, each a view (memory object, offset, length); the library's own
methods are replaced by their contracts over those pieces.  cut() verifies a loop from an arbitrary iteration."""
import re, z3
import core, llvc
from core import PathEnd, Unsupported
from llvc import Ptr, bv, simp
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
A64 = z3.BitVecSort(64)

class Piece:
    __slots__ = ('obj', 'off', 'n')
    def __init__(s, obj, off, n): s.obj, s.off, s.n = obj, off, n
    def __repr__(s): return 'Piece(%s,%s,%s)' % (s.obj, s.off, s.n)

def b64(x): return bv(x, 64)
def sim(x):
    if isinstance(x, int): return x
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else x
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & llvc.mask(64)
    return sim(b64(a) + b64(b))
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & llvc.mask(64)
    return sim(b64(a) - b64(b))

EQV = z3.Function('bytes_equal', z3.ArraySort(A64, z3.BitVecSort(8)), A64, z3.ArraySort(A64, z3.BitVecSort(8)), A64, A64, z3.BoolSort())
FIND = z3.Function('first_index', z3.ArraySort(A64, z3.BitVecSort(8)), A64, A64, z3.ArraySort(A64, z3.BitVecSort(8)), A64, A64, A64, A64)

class Strings:
    def __init__(s, ex, hk):
        s.ex = ex; s.ctx = ex.ctx; s.v = {}; s.log = []
        s.install(hk)
    # --- representation
    def key(s, p):
        if not isinstance(p, Ptr) or not isinstance(p.off, int): raise Unsupported('string at a symbolic address')
        return (p.obj, p.off)
    def get(s, p):
        k = s.key(p)
        if k not in s.v: raise Unsupported('string object of unknown content')
        if s.v[k] is None: raise Unsupported('string carried around the loop')
        return s.v[k]
    def set(s, p, pieces): s.v[s.key(p)] = [q for q in pieces if not (isinstance(q.n, int) and q.n == 0)]
    def new(s, name, pieces=()):
        o = s.ex.mem.alloc(32, name); p = Ptr(o, 0); s.set(p, list(pieces)); return p
    def symbolic(s, name, maxlen=1 << 30):
        """a string of arbitrary length and content -> (object, array, length)"""
        a = z3.Array(name, A64, z3.BitVecSort(8)); n = s.ctx.fresh_bv(name + '_len', 64)
        s.ctx.assume(z3.And(n >= 0, n <= maxlen))
        o = s.ex.mem.alloc(None, name); mo = s.ex.mem.getw(o); mo.size = simp(n + 1); mo.arr = z3.Store(a, n, z3.BitVecVal(0, 8))
        return s.new(name + '.obj', [Piece(o, 0, n)]), o, mo.arr, n
    def bytes_obj(s, bs):
        o = s.ex.mem.alloc(len(bs) + 1, 'bytes'); mo = s.ex.mem.getw(o)
        for i, b in enumerate(list(bs) + [0]): mo.cells[i] = (1, b)
        return o
    def lit(s, bs): return Piece(s.bytes_obj(bs), 0, len(bs))
    def length(s, ps):
        n = 0
        for p in ps: n = add(n, p.n)
        return n
    def bytes(s, ps):
        out = []
        for p in ps:
            if not isinstance(p.n, int): raise Unsupported('piece of symbolic length')
            for i in range(p.n): out.append(s.ex.load_raw(Ptr(p.obj, add(p.off, i)), 1))
        return out
    def one(s, p):
        """make the string one contiguous piece"""
        ps = s.get(p)
        if len(ps) == 1: return ps[0]
        q = Piece(s.bytes_obj(s.bytes(ps)), 0, s.length(ps))
        s.v[s.key(p)] = [q]; return q
    def arr(s, o):
        mo = s.ex.mem.get(o)
        if mo.arr is not None: return mo.arr
        a = z3.K(A64, z3.BitVecVal(0, 8))
        for of, (n, v) in mo.cells.items():
            if n != 1: raise Unsupported('byte array of wide cells')
            a = z3.Store(a, z3.BitVecVal(of, 64), bv(v, 8))
        return a
    def eq(s, x, y):
        """content equality of two pieces, as a boolean"""
        n = z3.simplify(b64(x.n) == b64(y.n))
        for a, b in ((x, y), (y, x)):
            if isinstance(a.n, int) and a.n <= 64:
                if not s.ctx.branch(n): return False
                if isinstance(b.n, int): pass
                return z3.simplify(z3.And([z3.BoolVal(True)] + [bv(s.ex.load_raw(Ptr(a.obj, add(a.off, i)), 1), 8) == bv(s.ex.load_raw(Ptr(b.obj, add(b.off, i)), 1), 8) for i in range(a.n)]))
        return z3.And(n, EQV(s.arr(x.obj), b64(x.off), s.arr(y.obj), b64(y.off), b64(x.n)))
    def substr(s, ps, pos, n):
        tot = s.length(ps)
        bad = z3.UGT(b64(pos), b64(tot))
        if s.ctx.branch(bad): raise llvc.CxxThrow('out_of_range')
        rest = sub(tot, pos)
        if isinstance(n, int) and n == llvc.mask(64): m = rest
        else: m = n if not s.ctx.branch(z3.UGT(b64(n), b64(rest))) else rest
        if isinstance(m, int) is False and isinstance(n, int) and n <= 16:   # short windows: decide the length
            for k in range(n + 1):
                if s.ctx.branch(b64(m) == k): m = k; break
            else: raise PathEnd()
        if len(ps) == 1: return [Piece(ps[0].obj, add(ps[0].off, pos), m)]
        if not isinstance(pos, int) or not isinstance(m, int): raise Unsupported('substr of a built string')
        return [s.lit(s.bytes(ps)[pos:pos + m])]
    def cstr(s, p):
        out = []
        while True:
            b = s.ex.load_raw(Ptr(p.obj, add(p.off, len(out))), 1)
            if not isinstance(b, int): raise Unsupported('C string of symbolic content')
            if b == 0: return s.lit(out)
            out.append(b)
            if len(out) > 4096: raise Unsupported('C string')
    def append(s, p, pieces):
        s.v[s.key(p)] = s.get(p) + [q for q in pieces if not (isinstance(q.n, int) and q.n == 0)]
        return p
    # --- contracts of the library
    def install(s, hk):
        E = re.escape(STR)
        def m(pat, fn): hk.on(E + '::' + pat, fn)
        st = lambda a: [Piece(q.obj, q.off, q.n) for q in s.get(a)]
        m(r'(size|length)\(\) const', lambda ex, a, n: s.length(s.get(a[0])))
        m(r'empty\(\) const', lambda ex, a, n: llvc.b2i(z3.simplify(b64(s.length(s.get(a[0]))) == 0)))
        m(r'(reserve|shrink_to_fit)\(', lambda ex, a, n: None)
        m(r'clear\(', lambda ex, a, n: s.set(a[0], []))
        m(r'~basic_string\(', lambda ex, a, n: s.v.pop(s.key(a[0]), None) and None)
        m(r'basic_string\(\)', lambda ex, a, n: s.set(a[0], []))
        m(r'basic_string\((%s const&|%s&&)\)' % (E, E), lambda ex, a, n: s.set(a[0], st(a[1])))
        m(r'basic_string(<.*>)?\(char const\*, std::allocator', lambda ex, a, n: s.set(a[0], [s.cstr(a[1])]))
        m(r'basic_string(<.*>)?\(char const\*, unsigned long, std::allocator', lambda ex, a, n: s.set(a[0], [Piece(a[1].obj, a[1].off, a[2])]))
        m(r'basic_string(<.*>)?\(unsigned long, char, std::allocator', lambda ex, a, n: s.set(a[0], [s.rep(a[1], a[2])]))
        def it(ex, a, n):
            if not isinstance(a[1], Ptr) or not isinstance(a[2], Ptr) or a[1].obj != a[2].obj: raise Unsupported('string from a range')
            s.set(a[0], [Piece(a[1].obj, a[1].off, sub(a[2].off, a[1].off))])
        m(r'basic_string<(char (const)?\*|__gnu_cxx::__normal_iterator<char)', it)
        m(r'basic_string\(%s const&, unsigned long, unsigned long\)' % E, lambda ex, a, n: s.set(a[0], s.substr(st(a[1]), a[2], a[3])))
        m(r'operator=\((%s const&|%s&&)\)' % (E, E), lambda ex, a, n: (s.set(a[0], st(a[1])), a[0])[1])
        m(r'operator=\(char const\*\)', lambda ex, a, n: (s.set(a[0], [s.cstr(a[1])]), a[0])[1])
        m(r'operator=\(char\)', lambda ex, a, n: (s.set(a[0], [s.lit([a[1]])]), a[0])[1])
        m(r'(operator\+=|append)\(%s const&\)' % E, lambda ex, a, n: s.append(a[0], st(a[1])))
        m(r'(operator\+=|append)\(char const\*\)', lambda ex, a, n: s.append(a[0], [s.cstr(a[1])]))
        m(r'(operator\+=|push_back)\(char\)', lambda ex, a, n: s.append(a[0], [s.lit([a[1]])]))
        m(r'append\(char const\*, unsigned long\)', lambda ex, a, n: s.append(a[0], [Piece(a[1].obj, a[1].off, a[2])]))
        m(r'append\(unsigned long, char\)', lambda ex, a, n: s.append(a[0], [s.rep(a[1], a[2])]))
        m(r'append\(%s const&, unsigned long, unsigned long\)' % E, lambda ex, a, n: s.append(a[0], s.substr(st(a[1]), a[2], a[3])))
        m(r'append\(std::initializer_list<char>\)', lambda ex, a, n: s.append(a[0], [Piece(a[1].obj, a[1].off, a[2])]))
        def at(ex, a, n):
            q = s.one(a[0]) if s.get(a[0]) else s.empty(a[0])
            ex.need(z3.ULE(b64(a[1]), b64(q.n)), 'string index within the string')
            return Ptr(q.obj, add(q.off, a[1]))
        m(r'operator\[\]\(', at)
        def atc(ex, a, n):
            q = s.one(a[0]) if s.get(a[0]) else s.empty(a[0])
            if s.ctx.branch(z3.UGE(b64(a[1]), b64(q.n))): raise llvc.CxxThrow('out_of_range')
            return Ptr(q.obj, add(q.off, a[1]))
        m(r'at\(', atc)
        def front(ex, a, n):
            q = s.one(a[0]) if s.get(a[0]) else s.empty(a[0]); ex.need(b64(q.n) != 0, 'front/back of a non-empty string')
            return Ptr(q.obj, q.off if '::front' in ex.dem(n) else add(q.off, sub(q.n, 1)))
        m(r'(front|back)\(', front)
        def begin(ex, a, n):
            q = s.one(a[0]) if s.get(a[0]) else s.empty(a[0]); return Ptr(q.obj, q.off)
        def end(ex, a, n):
            q = s.one(a[0]) if s.get(a[0]) else s.empty(a[0]); return Ptr(q.obj, add(q.off, q.n))
        m(r'(begin|cbegin|data|c_str)\(\)', begin); m(r'(end|cend)\(\)', end)
        m(r'rbegin\(\)', lambda ex, a, n: ex.store_raw(a[0], 8, end(ex, a[1:], n))); m(r'rend\(\)', lambda ex, a, n: ex.store_raw(a[0], 8, begin(ex, a[1:], n)))
        m(r'substr\(', lambda ex, a, n: s.set(a[0], s.substr(st(a[1]), a[2], a[3])))
        def erase(ex, a, n):
            q = s.one(a[0]) if s.get(a[0]) else s.empty(a[0]); b, e = a[1], a[2]
            ex.need(z3.And(z3.ULE(b64(q.off), b64(b.off)), z3.ULE(b64(b.off), b64(e.off)), z3.ULE(b64(e.off), b64(add(q.off, q.n)))) if b.obj == q.obj == e.obj else False, 'erased range lies in the string')
            s.log.append(('erase', sub(b.off, q.off), sub(e.off, q.off)))
            s.set(a[0], [Piece(q.obj, q.off, sub(b.off, q.off)), Piece(q.obj, e.off, sub(add(q.off, q.n), e.off))])
            return b
        m(r'erase\(__gnu_cxx::__normal_iterator<char const\*, .*>, __gnu', erase)
        def erase2(ex, a, n):
            ps = s.get(a[0]); s.v[s.key(a[0])] = s.substr(ps, 0, a[1]) + (s.substr(ps, add(a[1], a[2]), llvc.mask(64)) if not ctxge(add(a[1], a[2]), s.length(ps), a[2]) else [])
            return a[0]
        def ctxge(x, n, c): return True if isinstance(c, int) and c == llvc.mask(64) else s.ctx.branch(z3.UGE(b64(x), b64(n)))
        m(r'erase\(unsigned long, unsigned long\)', erase2)
        def resize(ex, a, n):
            ps = s.get(a[0])
            if s.ctx.branch(z3.UGT(b64(a[1]), b64(s.length(ps)))): raise Unsupported('string grown by resize')
            s.v[s.key(a[0])] = s.substr(ps, 0, a[1])
        m(r'resize\(', resize)
        m(r'pop_back\(', lambda ex, a, n: s.set(a[0], s.substr(s.get(a[0]), 0, sub(s.length(s.get(a[0])), 1))))
        def find(ex, a, n):
            q = s.one(a[0]) if s.get(a[0]) else s.empty(a[0]); d = ex.dem(n)
            nd = s.one(a[1]) if 'basic_string<char, std::char_traits<char>, std::allocator<char>> const&' in d.split('::find', 1)[1] else s.lit([a[1]]) if '(char,' in d else s.cstr(a[1])
            return FIND(s.arr(q.obj), b64(q.off), b64(q.n), s.arr(nd.obj), b64(nd.off), b64(nd.n), b64(a[2]))
        m(r'find\(', find)
        m(r'contains\(', lambda ex, a, n: llvc.b2i(z3.Not(find(ex, [a[0], a[1], 0], n.replace('contains', 'find')) == z3.BitVecVal(llvc.mask(64), 64))))
        def starts(ex, a, n): return s.fix(a, True)
        def cmp(ex, a, n):
            d = ex.dem(n)
            if '(unsigned long, unsigned long, ' in d: x = s.substr(st(a[0]), a[1], a[2]); o = a[3]
            else: x = st(a[0]); o = a[1]
            y = [s.cstr(o)] if 'char const*' in d.split('compare', 1)[1] else st(o)
            q = s.eqs(x, y); r = s.ctx.fresh_bv('compare', 32); s.ctx.assume((r == 0) == q); return r
        m(r'compare\(', cmp)
        hk.on(r'bool std::operator==<char, std::char_traits<char>, std::allocator<char>>\(', lambda ex, a, n: llvc.b2i(s.eqs(st(a[0]), [s.cstr(a[1])] if 'char const*' in ex.dem(n) else st(a[1]))))
        hk.on(r'bool std::operator!=<char, std::char_traits<char>, std::allocator<char>>\(', lambda ex, a, n: llvc.b2i(z3.Not(s.eqs(st(a[0]), [s.cstr(a[1])] if 'char const*' in ex.dem(n) else st(a[1])))))
        hk.on(r'int __gnu_cxx::__stoa<', s.stoa)
        hk.on(r'std::__cxx11::stoi\(', s.stoi)
        hk.on(r'fmt::v\d+::vformat', s.vformat)
        hk.on(r'std::(invalid_argument|out_of_range|runtime_error|logic_error)::', lambda ex, a, n: None)
        hk.onx('isspace', lambda ex, a, n: s.isspace(a[0])); hk.onx('isdigit', lambda ex, a, n: s.isdigit(a[0]))
    def empty(s, p):
        q = Piece(s.bytes_obj([]), 0, 0); return q
    def eqs(s, x, y):
        f = lambda ps: ps[0] if len(ps) == 1 else Piece(s.bytes_obj(s.bytes(ps)), 0, s.length(ps))
        r = s.eq(f(x), f(y)); return z3.BoolVal(r) if isinstance(r, bool) else r
    def rep(s, n, c):
        if not isinstance(n, int) or n > 64: raise Unsupported('string of symbolic length')
        return s.lit([c] * n)
    def isspace(s, c):
        c = bv(c, 32); s.ex.need(z3.And(c >= -1, c <= 255), 'isspace argument is an unsigned char')
        return z3.If(z3.Or(c == 32, z3.And(c >= 9, c <= 13)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    def isdigit(s, c):
        c = bv(c, 32); s.ex.need(z3.And(c >= -1, c <= 255), 'isdigit argument is an unsigned char')
        return z3.If(z3.And(c >= 48, c <= 57), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    def stoa(s, ex, a, n): raise Unsupported('stoa')
    def stoi(s, ex, a, n):
        """std::stoi(str, size_t *pos, int base): strtol on the NUL-terminated bytes"""
        bs = s.bytes(s.get(a[0])); base = a[2]
        if not isinstance(base, int) or base < 2: raise Unsupported('stoi base')
        br = s.ctx.branch; bs = [bv(b, 8) for b in bs] + [z3.BitVecVal(0, 8)]; i = 0
        while br(z3.Or(bs[i] == 32, z3.And(z3.UGE(bs[i], 9), z3.ULE(bs[i], 13)))): i += 1
        neg = False
        if br(bs[i] == 45): neg = True; i += 1
        elif br(bs[i] == 43): i += 1
        def dig(b):
            lo = z3.And(z3.UGE(b, 48), z3.ULT(b, 48 + min(base, 10)))
            if br(lo): return z3.ZeroExt(24, b) - 48
            for q in (97, 65):
                if base > 10 and br(z3.And(z3.UGE(b, q), z3.ULT(b, q + base - 10))): return z3.ZeroExt(24, b) - (q - 10)
            return None
        if base == 16 and i + 2 < len(bs) and br(z3.And(bs[i] == 48, z3.Or(bs[i + 1] == 120, bs[i + 1] == 88))):
            save = len(s.ctx.decisions)
            if dig(bs[i + 2]) is not None: i += 2
        v = z3.BitVecVal(0, 32); k = i
        while k < len(bs):
            d = dig(bs[k])
            if d is None: break
            v = v * base + d; k += 1
            if k - i > 7: raise Unsupported('stoi of a long string')
        if k == i: raise llvc.CxxThrow('invalid_argument')
        if isinstance(a[1], Ptr): ex.store_raw(a[1], 8, k)
        return simp(-v if neg else v)
    def vformat(s, ex, a, n):
        """fmt::vformat(sret, fmt data, fmt size, desc, values): {} and {:[0][w][xXod]} of integers and chars"""
        f = bytes(s.bytes([Piece(a[1].obj, a[1].off, a[2])])); desc = a[3]; vals = a[4]; out = []; k = 0; i = 0
        br = s.ctx.branch
        if not isinstance(desc, int): raise Unsupported('format arguments')
        while i < len(f):
            c = f[i:i + 1]
            if c in b'{}' and f[i + 1:i + 2] == c: out.append(c[0]); i += 2; continue
            if c != b'{': out.append(c[0]); i += 1; continue
            j = f.index(b'}', i); spec = f[i + 1:j].decode(); i = j + 1
            m = re.fullmatch(r'(?::(0?)(\d*)([xXod]?))?', spec)
            if not m: raise Unsupported('format specification {%s}' % spec)
            z, w, t = (m.groups() if spec else ('', '', ''))
            ty = desc >> (4 * k) & 15; v = ex.load_raw(Ptr(vals.obj, add(vals.off, 16 * k)), 1 if ty == 8 else 4); k += 1
            if ty not in (1, 2): raise Unsupported('format argument of type %d' % ty)   # int, unsigned
            v = bv(v, 32); base = {'x': 16, 'X': 16, 'o': 8}.get(t, 10)
            if ty == 1 and br(v < 0): raise Unsupported('negative number formatted')
            if not s.ctx.task or s.ctx.possible(z3.UGT(v, 255)): raise Unsupported('number above 255 formatted')
            nd = 1
            while br(z3.UGE(v, base ** nd)): nd += 1
            for d in range(nd - 1, -1, -1):
                q = z3.URem(z3.UDiv(v, z3.BitVecVal(base ** d, 32)), z3.BitVecVal(base, 32)) if base == 10 else z3.LShR(v, d * (4 if base == 16 else 3)) & (base - 1)
                if d == nd - 1: out += [48 if z else 32] * max(0, int(w or 0) - nd)
                out.append(z3.simplify(z3.Extract(7, 0, z3.If(q < 10, q + 48, q + ((65 if t == 'X' else 97) - 10)))))
        s.set(a[0], [s.lit(out)])

# ---- loops
class Cut:
    """Verification of a loop from an arbitrary iteration.
    The set of locations the body changes is found by retrying; each is havocked at the head.  The loop must be driven by
    one position (an integer or a pointer into the subject): at the back edge step(pos0, pos1, appended) is called."""
    class Retry(BaseException): pass
    def __init__(s): s.mod = set(); s.discover = True
    def attach(s, ex, S, f, head, body, subj, out, base, n, entry, step, lo=0, maxpos=1 << 31):
        """subj: object of the subject string; out: string being built (or None)"""
        s.ex, s.S, s.out = ex, S, out; s.fresh = {}; s.entered = False; s.subj = subj
        def state(fr, cur, prev):
            st = {}
            for x in llvc.phis(f, cur):
                for v, b in x[3]:
                    if b == prev: st[('phi', x[0], x[2])] = ex.val(fr, x[2], v)
            for i in list(ex.mem.objs):
                o = ex.mem.get(i)
                if i == subj or not o.name.startswith('local'): continue
                for of, (k, v) in o.cells.items(): st[('mem', i, of, k)] = v
            for k, ps in S.v.items():
                if out is None or k != S.key(out): st[('str',) + k] = tuple((p.obj, str(p.off), str(p.n)) for p in ps) if ps is not None else None
            return st
        def same(a, b):
            if a is b: return True
            if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and same(a.off, b.off)
            if isinstance(a, int) and isinstance(b, int): return a == b
            if isinstance(a, tuple) or isinstance(b, tuple): return a == b
            if (z3.is_expr(a) or isinstance(a, int)) and (z3.is_expr(b) or isinstance(b, int)):
                w = a.size() if z3.is_expr(a) else b.size()
                try: return z3.is_true(z3.simplify(bv(a, w) == bv(b, w)))
                except Exception: return False
            return False
        def lh(ex, fr, prev, cur, visit):
            ctx = ex.ctx
            if prev not in body:
                if s.entered: raise Unsupported('loop entered twice')
                s.entered = True; st = state(fr, cur, prev); s.init = st; s.vars = []
                entry(S.get(out) if out is not None else [])
                for k, v in st.items():
                    if k not in s.mod: continue
                    nv = s.havoc(ctx, v, k)
                    if k[0] == 'phi': fr.regs[(cur, k[1])] = nv
                    elif k[0] == 'mem': ex.mem.getw(k[1]).cells[k[2]] = (k[3], nv)
                    else: S.v[k[1:]] = None
                    s.fresh[k] = nv
                s.assume_range(ctx)
                for x in llvc.phis(f, cur):
                    k = ('phi', x[0], x[2])
                    if k not in s.mod: fr.regs[(cur, x[0])] = st[k]
                if out is not None: S.v[S.key(out)] = []
                s.pc0 = len(ctx.pc); ctx.cover('loop iteration')
            else:
                st = state(fr, cur, prev); new = set()
                for k in s.init:
                    if k not in s.mod and not same(st.get(k), s.init[k]): new.add(k)
                if new: s.mod |= new; raise Cut.Retry()
                if s.discover: raise PathEnd()
                k, p0 = s.position(ctx); p1 = s.pos(st[k])
                ctx.prove(s.pos0(s.init[k], k) == b64(s.lo), 'the loop starts at the first character')
                ctx.prove(z3.And(p1 >= b64(s.lo), p1 <= b64(s.n)), 'the position stays within the string')
                step(p0, p1, S.get(out) if out is not None else [])
                ctx.cover('loop iteration completed')
                raise PathEnd()
        ex.hooks.loops[(f.name, head)] = lh
        s.lo, s.n, s.maxpos = lo, n, maxpos
    def pos0(s, v, k):
        if isinstance(v, int): return z3.BitVecVal(llvc.sgn(v, k[2][1] if k[0] == 'phi' else 8 * k[3]), 64)
        return s.pos(v)
    def pos(s, v):
        if isinstance(v, Ptr): return b64(v.off)
        if isinstance(v, int): raise Unsupported('position')
        return v if v.size() == 64 else z3.SignExt(64 - v.size(), v)
    def havoc(s, ctx, v, k):
        if isinstance(v, Ptr) and v.obj == s.subj:
            p = ctx.fresh_bv('pos', 64); q = Ptr(s.subj, p)
        elif isinstance(v, int) and k[0] == 'phi' and k[2][0] == 'i' or isinstance(v, int) and k[0] == 'mem' and k[3] in (4, 8) or z3.is_bv(v) and v.size() >= 32:
            w = k[2][1] if k[0] == 'phi' else 8 * k[3]
            if w < 32: return ctx.fresh_bv('dead', w)
            p = q = ctx.fresh_bv('pos', w)
        elif z3.is_bv(v): return ctx.fresh_bv('dead', v.size())
        else: return llvc.UNDEF
        s.vars.append((k, p)); return q
    def position(s, ctx):
        if s.discover: raise PathEnd()
        used = set()
        def walk(t, seen=set()):
            st = [t]
            seen = set()
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: used.add(x.decl().name())
                st += x.children()
        for c in ctx.pc[s.pc0:]: walk(c)
        for q in (s.S.get(s.out) if s.out is not None else []):
            for x in (q.off, q.n):
                if z3.is_expr(x): walk(x)
            mo = s.ex.mem.get(q.obj)
            if q.obj == s.subj: continue
            for of, (k, v) in mo.cells.items():
                if z3.is_expr(v): walk(v)
        live = [(k, p) for k, p in s.vars if p.decl().name() in used]
        if len(live) != 1: raise Unsupported('%d loop-carried positions' % len(live))
        return live[0][0], s.pos(live[0][1])
    def assume_range(s, ctx):
        """invariant lo <= position <= n (checked by the caller at entry and back edges); only ever tightens live positions"""
        for k, p in s.vars:
            q = s.pos(p) if z3.is_expr(p) else p
            ctx.assume(z3.And(q >= b64(s.lo), q <= b64(s.n)))
