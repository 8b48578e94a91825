"""Parser for textual LLVM IR (clang/LLVM 18 opaque pointers). Functions are parsed lazily."""
import re, struct, subprocess

# ---------------------------------------------------------------- types
# ('i',n) ('ptr',) ('void',) ('f',kind) ('arr',n,t) ('st',(t..),packed) ('nm',name) ('vec',n,t) ('label',) ('meta',) ('fn',)
FK = {'half', 'bfloat', 'float', 'double', 'fp128', 'x86_fp80'}
FSIZE = {'half': 2, 'bfloat': 2, 'float': 4, 'double': 8, 'fp128': 16, 'x86_fp80': 16}

TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<md>!(?:[-\w.$]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<id>[A-Za-z_$][-\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|^])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m: raise SyntaxError('tok: ' + s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws': out.append((k, m.group()))
        pos = m.end()
    return out

def cstr(tok):
    """c"..." or "..." -> bytes"""
    body = tok[tok.index('"') + 1:-1]
    out = bytearray(); i = 0
    while i < len(body):
        if body[i] == '\\':
            if body[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(body[i + 1:i + 3], 16)); i += 3
        else:
            out.extend(body[i].encode('latin-1')); i += 1
    return bytes(out)

class P:
    """Token cursor."""
    def __init__(s, toks): s.t = toks; s.i = 0
    def peek(s, k=0): return s.t[s.i + k][1] if s.i + k < len(s.t) else None
    def kind(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s): v = s.t[s.i][1]; s.i += 1; return v
    def eat(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v: s.i += 1; return True
        return False
    def need(s, v):
        if not s.eat(v): raise SyntaxError(f'expected {v} got {s.t[s.i:s.i+8]}')
    def end(s): return s.i >= len(s.t)

def ptype(p):
    k, v = p.t[p.i]
    p.i += 1
    if k == 'id':
        if v[0] == 'i' and v[1:].isdigit(): t = ('i', int(v[1:]))
        elif v == 'ptr':
            t = ('ptr',)
            if p.peek() == 'addrspace':
                p.i += 4
        elif v == 'void': t = ('void',)
        elif v in FK: t = ('f', v)
        elif v == 'label': t = ('label',)
        elif v == 'metadata': t = ('meta',)
        elif v == 'token': t = ('token',)
        elif v == 'opaque': t = ('st', (), False)
        else: raise SyntaxError('type ' + v)
    elif k == 'local': t = ('nm', v[1:].strip('"'))
    elif v == '[':
        n = int(p.next()); p.need('x'); e = ptype(p); p.need(']'); t = ('arr', n, e)
    elif v == '{':
        ts = []
        if not p.eat('}'):
            while True:
                ts.append(ptype(p))
                if p.eat('}'): break
                p.need(',')
        t = ('st', tuple(ts), False)
    elif v == '<':
        if p.peek() == '{':
            p.next(); ts = []
            if not p.eat('}'):
                while True:
                    ts.append(ptype(p))
                    if p.eat('}'): break
                    p.need(',')
            p.need('>'); t = ('st', tuple(ts), True)
        else:
            n = int(p.next()); p.need('x'); e = ptype(p); p.need('>'); t = ('vec', n, e)
    else: raise SyntaxError(f'type {k} {v} {p.t[p.i-3:p.i+6]}')
    # function type: T (args)
    while p.peek() == '(' and k != 'x':
        # only valid in call types / declarations; caller handles via pfntype
        break
    if p.peek() == '*':
        while p.eat('*'): t = ('ptr',)
    return t

PARAM_ATTRS = {'dead_on_unwind', 'writable', 'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
               'returned', 'immarg', 'inreg', 'nofree', 'swiftself', 'nest', 'allocptr', 'allocalign', 'noext', 'inalloca', 'captures'}
def skip_attrs(p):
    byval = None
    while True:
        v = p.peek()
        if v in PARAM_ATTRS:
            p.next()
            if p.peek() == '(':   # e.g. captures(none)
                skip_paren(p)
        elif v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated', 'range', 'nofpclass', 'memory', 'initializes'):
            p.next()
            if v == 'align' and p.kind() == 'num': p.next(); continue
            skip_paren(p)
        else: break

def skip_paren(p):
    p.need('('); d = 1
    while d:
        x = p.next()
        if x == '(': d += 1
        elif x == ')': d -= 1

# ---------------------------------------------------------------- values
# ('loc',name) ('glob',name) ('int',n) ('fp',kind,bits) ('null',) ('undef',) ('zero',) ('cstr',bytes) ('agg',[ (t,v) ]) ('ce',op,...)
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint', 'nneg', 'samesign', 'nusw'}

def fpconst(kind, tok):
    """-> bits"""
    if tok.startswith('0x'):
        c = tok[2]
        if c == 'H' or c == 'R': return int(tok[3:], 16)
        if c == 'L':
            h = tok[3:]
            return (int(h[16:], 16) << 64) | int(h[:16], 16)
        if c == 'K': return int(tok[3:], 16)
        d = int(tok[2:], 16)
    else:
        d = struct.unpack('<Q', struct.pack('<d', float(tok)))[0]
    if kind == 'double': return d
    x = struct.unpack('<d', struct.pack('<Q', d))[0]
    if kind == 'float':
        if x != x: return 0x7fc00000 | ((d >> 32) & 0x80000000)
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if kind == 'half': return struct.unpack('<H', struct.pack('<e', x))[0]
    raise SyntaxError('fp const ' + kind + tok)

def pval(p, t):
    k, v = p.t[p.i]
    if k == 'local': p.i += 1; return ('loc', v[1:].strip('"'))
    if k == 'glob': p.i += 1; return ('glob', v[1:].strip('"'))
    if k == 'num':
        p.i += 1
        if t[0] == 'f': return ('fp', t[1], fpconst(t[1], v))
        return ('int', int(v))
    if k == 'str':
        p.i += 1; return ('cstr', cstr(v))
    if k == 'md':   # metadata operand
        p.i += 1
        if p.peek() == '(': skip_paren(p)
        elif p.peek() == '{':
            d = 0
            while True:
                x = p.next()
                if x == '{': d += 1
                if x == '}':
                    d -= 1
                    if d == 0: break
        return ('undef',)
    if k == 'id':
        p.i += 1
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'null' or v == 'none': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'c' : raise SyntaxError('c')
        if v == 'getelementptr':
            inb = False
            while p.peek() in FLAGS or p.peek() == 'inrange':
                p.next()
                if p.peek() == '(' and p.peek(1) != None and p.t[p.i-1][1]=='inrange': skip_paren(p)
            p.need('('); bt = ptype(p); p.need(',')
            pt = ptype(p); base = pval(p, pt); idx = []
            while p.eat(','):
                while p.peek() == 'inrange':
                    p.next()
                    if p.peek() == '(': skip_paren(p)
                it = ptype(p); idx.append((it, pval(p, it)))
            p.need(')')
            return ('ce', 'gep', bt, base, idx)
        if v in CASTS:
            while p.peek() in FLAGS: p.next()
            p.need('('); ft = ptype(p); x = pval(p, ft); p.need('to'); tt = ptype(p); p.need(')')
            return ('ce', 'cast', v, ft, x, tt)
        if v in BINOPS:
            while p.peek() in FLAGS: p.next()
            p.need('('); ft = ptype(p); x = pval(p, ft); p.need(','); t2 = ptype(p); y = pval(p, t2); p.need(')')
            return ('ce', 'bin', v, ft, x, y)
        if v in ('icmp',):
            pr = p.next(); p.need('('); ft = ptype(p); x = pval(p, ft); p.need(','); t2 = ptype(p); y = pval(p, t2); p.need(')')
            return ('ce', 'icmp', pr, ft, x, y)
        if v == 'select':
            p.need('('); ct = ptype(p); c = pval(p, ct); p.need(','); t1 = ptype(p); a = pval(p, t1); p.need(','); t2 = ptype(p); b = pval(p, t2); p.need(')')
            return ('ce', 'select', c, t1, a, b)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return pval(p, t)
        if v == 'asm':
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
            a = p.next(); p.need(','); b = p.next()
            return ('asm', a, b)
        if v == 'splat':
            p.need('('); et = ptype(p); x = pval(p, et); p.need(')'); return ('agg', [(et, x)] * t[1])
        raise SyntaxError('value ' + v)
    if v in '{[<':
        p.i += 1
        if v == '<' and p.peek() == '{': p.i += 1; close = '}'
        else: close = {'{': '}', '[': ']', '<': '>'}[v]
        el = []
        if not p.eat(close):
            while True:
                et = ptype(p); el.append((et, pval(p, et)))
                if p.eat(close): break
                p.need(',')
        if v == '<' and close == '}': p.need('>')
        return ('agg', el)
    raise SyntaxError(f'value {k} {v}')

class Func:
    __slots__ = ('name', 'ret', 'params', 'vararg', 'body_text', 'blocks', 'entry', 'is_decl', 'linkage', 'mod', 'dbg')
    def __init__(s): s.blocks = None

CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc'}
def pheader(line):
    """Parse 'define ... @name(params) ...' / 'declare'."""
    f = Func()
    f.is_decl = line.startswith('declare')
    if f.is_decl and line.startswith('declare !'): line = re.sub(r'^declare (![\w.]+ !\d+ )+', 'declare ', line)
    at = line.index('@')
    # find function name: first @ followed by name and '('
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', line)
    f.name = m.group(1).strip('"')
    pre = line[:m.start()]
    toks = tokenize(pre)
    # return type = parse from first type-like token after keywords
    p = P(toks); p.next()
    f.linkage = ''
    while True:
        v = p.peek()
        if v in ('linkonce_odr', 'weak_odr', 'internal', 'private', 'weak', 'linkonce', 'available_externally', 'external', 'extern_weak'):
            f.linkage = v; p.next(); continue
        if v in ('dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr') or v in CCONV: p.next(); continue
        if v in PARAM_ATTRS or v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'): skip_attrs(p); continue
        break
    f.ret = ptype(p)
    rest = line[m.end() - 1:]
    # find matching paren textually
    d = 0; i = 0; inq = False
    while True:
        c = rest[i]
        if c == '"': inq = not inq
        if not inq:
            if c == '(': d += 1
            elif c == ')':
                d -= 1
                if d == 0: break
        i += 1
    p = P(tokenize(rest[1:i]))
    f.params = []; f.vararg = False
    n = 0
    while not p.end():
        if p.eat('...'): f.vararg = True; continue
        t = ptype(p); skip_attrs(p)
        if p.kind() == 'local': nm = p.next()[1:].strip('"')
        else: nm = str(n)
        if nm.isdigit(): pass
        f.params.append((t, nm)); n += 1
        p.eat(',')
    m = re.search(r'!dbg !(\d+)', rest[i:])
    f.dbg = int(m.group(1)) if m else None
    return f

def pcallee(p):
    """after 'call'/'invoke' keyword flags: attrs, rettype, [fnty], callee(args) -> (rett, callee, args)"""
    while p.peek() in FLAGS or p.peek() in CCONV or p.peek() in PARAM_ATTRS or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
        if p.peek() in FLAGS or p.peek() in CCONV: p.next()
        else: skip_attrs(p)
    rt = ptype(p)
    if p.peek() == '(' :   # explicit fn type
        skip_paren(p)
    cal = pval(p, ('ptr',))
    p.need('(')
    args = []
    if not p.eat(')'):
        while True:
            t = ptype(p); skip_attrs(p)
            if t == ('meta',):
                # metadata arg: skip until , or ) at depth 0
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x in '([{': d += 1
                    if x in ')]}': d -= 1
                args.append((t, ('undef',)))
            else: args.append((t, pval(p, t)))
            if p.eat(')'): break
            p.need(',')
    return rt, cal, args

def pinstr(line):
    """-> tuple instruction (dst, op, ...) + dbg id"""
    m = re.search(r',? !dbg !(\d+)', line)
    dbg = int(m.group(1)) if m else None
    if m: line = line[:m.start()]
    # strip trailing metadata attachments
    line = re.sub(r'(, ![a-zA-Z_.\d]+ !\d+)+\s*$', '', line)
    line = re.sub(r'(, ![a-zA-Z_.]+ !\{\})+\s*$', '', line)
    p = P(tokenize(line))
    dst = None
    if p.kind() == 'local' and p.peek(1) == '=':
        dst = p.next()[1:].strip('"'); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BINOPS:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = ptype(p); a = pval(p, t); p.need(','); b = pval(p, t)
        return (dst, 'bin', op, t, a, b, fl), dbg
    if op in CASTS:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = ptype(p); a = pval(p, t); p.need('to'); t2 = ptype(p)
        return (dst, 'cast', op, t, a, t2, fl), dbg
    if op == 'alloca':
        while p.peek() in ('inalloca', 'swifterror'): p.next()
        t = ptype(p); cnt = ('int', 1)
        if p.eat(','):
            if p.peek() != 'align':
                ct = ptype(p); cnt = pval(p, ct)
        return (dst, 'alloca', t, cnt), dbg
    if op == 'load':
        while p.peek() in ('atomic', 'volatile'): p.next()
        t = ptype(p); p.need(','); pt = ptype(p); a = pval(p, pt)
        return (dst, 'load', t, a), dbg
    if op == 'store':
        while p.peek() in ('atomic', 'volatile'): p.next()
        t = ptype(p); v = pval(p, t); p.need(','); pt = ptype(p); a = pval(p, pt)
        return (dst, 'store', t, v, a), dbg
    if op == 'getelementptr':
        while p.peek() in FLAGS: p.next()
        bt = ptype(p); p.need(','); pt = ptype(p); base = pval(p, pt); idx = []
        while p.eat(','):
            it = ptype(p); idx.append((it, pval(p, it)))
        return (dst, 'gep', bt, base, idx), dbg
    if op == 'icmp':
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = ptype(p); a = pval(p, t); p.need(','); b = pval(p, t)
        return (dst, 'icmp', pr, t, a, b), dbg
    if op == 'fcmp':
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = ptype(p); a = pval(p, t); p.need(','); b = pval(p, t)
        return (dst, 'fcmp', pr, t, a, b), dbg
    if op == 'fneg':
        while p.peek() in FLAGS: p.next()
        t = ptype(p); a = pval(p, t)
        return (dst, 'fneg', t, a), dbg
    if op in ('freeze',):
        t = ptype(p); a = pval(p, t); return (dst, 'freeze', t, a), dbg
    if op == 'call':
        rt, cal, args = pcallee(p)
        return (dst, 'call', rt, cal, args), dbg
    if op == 'invoke':
        rt, cal, args = pcallee(p)
        while p.peek() != 'to':
            x = p.next()
            if x == '[':
                while p.next() != ']': pass
        p.need('to'); p.need('label'); n = p.next()[1:].strip('"'); p.need('unwind'); p.need('label'); u = p.next()[1:].strip('"')
        return (dst, 'invoke', rt, cal, args, n, u), dbg
    if op == 'ret':
        t = ptype(p)
        return (None, 'ret', t, None if t == ('void',) else pval(p, t)), dbg
    if op == 'br':
        if p.eat('label'): return (None, 'br', p.next()[1:].strip('"')), dbg
        t = ptype(p); c = pval(p, t); p.need(','); p.need('label'); a = p.next()[1:].strip('"'); p.need(','); p.need('label'); b = p.next()[1:].strip('"')
        return (None, 'cbr', c, a, b), dbg
    if op == 'switch':
        t = ptype(p); v = pval(p, t); p.need(','); p.need('label'); d = p.next()[1:].strip('"'); p.need('[')
        cases = []
        while not p.eat(']'):
            ct = ptype(p); cv = pval(p, ct); p.need(','); p.need('label'); cases.append((cv, p.next()[1:].strip('"')))
        return (None, 'switch', t, v, d, cases), dbg
    if op == 'phi':
        while p.peek() in FLAGS: p.next()
        t = ptype(p); inc = []
        while True:
            p.need('['); v = pval(p, t); p.need(','); b = p.next()[1:].strip('"'); p.need(']'); inc.append((v, b))
            if not p.eat(','): break
        return (dst, 'phi', t, inc), dbg
    if op == 'select':
        while p.peek() in FLAGS: p.next()
        ct = ptype(p); c = pval(p, ct); p.need(','); t = ptype(p); a = pval(p, t); p.need(','); t2 = ptype(p); b = pval(p, t2)
        return (dst, 'select', ct, c, t, a, b), dbg
    if op == 'extractvalue':
        t = ptype(p); a = pval(p, t); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return (dst, 'extractvalue', t, a, idx), dbg
    if op == 'insertvalue':
        t = ptype(p); a = pval(p, t); p.need(','); t2 = ptype(p); b = pval(p, t2); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return (dst, 'insertvalue', t, a, t2, b, idx), dbg
    if op == 'landingpad': return (dst, 'landingpad', line), dbg
    if op == 'resume': return (None, 'resume'), dbg
    if op == 'unreachable': return (None, 'unreachable'), dbg
    if op == 'fence': return (None, 'nop'), dbg
    if op == 'atomicrmw':
        while p.peek() in ('volatile',): p.next()
        o = p.next(); pt = ptype(p); a = pval(p, pt); p.need(','); t = ptype(p); v = pval(p, t)
        return (dst, 'atomicrmw', o, a, t, v), dbg
    if op == 'cmpxchg':
        while p.peek() in ('volatile', 'weak'): p.next()
        pt = ptype(p); a = pval(p, pt); p.need(','); t = ptype(p); c = pval(p, t); p.need(','); t2 = ptype(p); v = pval(p, t2)
        return (dst, 'cmpxchg', a, t, c, v), dbg
    return (dst, 'unsupported', line), dbg

def parse_body(f):
    """f.body_text: list of lines -> blocks dict name -> [(instr, dbg)]"""
    blocks = {}; order = []
    # numbering of unnamed entry block
    n_unnamed = sum(1 for _, nm in f.params if nm.isdigit())
    cur = str(n_unnamed)
    ins = []
    first = True
    i = 0
    L = f.body_text
    while i < len(L):
        s = L[i].strip()
        i += 1
        if not s or s.startswith(';'): continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', s)
        if m and not L[i - 1].startswith(' '):
            nm = m.group(1).strip('"')
            if first and not ins: cur = nm; first = False; continue
            blocks[cur] = ins; order.append(cur)
            cur = nm; ins = []; first = False
            continue
        first = False
        if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
            while True:
                s += ' ' + L[i].strip(); i += 1
                if L[i - 1].strip().startswith(']'): break
        elif re.search(r'\b(invoke)\b', s):
            while i < len(L) and L[i].strip().startswith('to label'):
                s += ' ' + L[i].strip(); i += 1
        elif 'landingpad' in s:
            while i < len(L) and re.match(r'\s+(cleanup|catch|filter)', L[i]):
                s += ' ' + L[i].strip(); i += 1
        ins.append(s)
    blocks[cur] = ins; order.append(cur)
    f.entry = order[0]
    f.blocks = blocks   # text; parsed per block lazily

class Module:
    def __init__(self, text):
        self.funcs = {}; self.globals = {}; self.types = {}; self.md_text = {}
        self.demangled = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                f = pheader(l); j = i + 1
                while lines[j] != '}': j += 1
                f.body_text = lines[i + 1:j]; f.mod = self
                self.funcs[f.name] = f
                i = j + 1; continue
            if l.startswith('declare'):
                f = pheader(l); f.mod = self
                self.funcs.setdefault(f.name, f)
            elif l.startswith('%'):
                m = re.match(r'^%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', l)
                if m: self.types[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
                if m: self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('!') and ' = ' in l:
                m = re.match(r'^!(\d+) = (.*)$', l)
                if m: self.md_text[int(m.group(1))] = m.group(2)
            i += 1
        names = list(self.funcs)
        if names:
            out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            for a, b in zip(names, out): self.demangled[a] = b
        self._parsed_types = {}

    def line_of(self, dbg):
        t = self.md_text.get(dbg, '')
        m = re.search(r'line: (\d+)', t)
        return int(m.group(1)) if m else None

    def by_demangled(self, pat):
        r = re.compile(pat)
        return [n for n, d in self.demangled.items() if r.search(d)]

    # ---- layout
    def resolve(self, t):
        while t[0] == 'nm':
            r = self._parsed_types.get(t[1])
            if r is None:
                txt = self.types.get(t[1])
                if txt is None: raise SyntaxError('type %' + t[1])
                r = ptype(P(tokenize(txt))); self._parsed_types[t[1]] = r
            t = r
        return t
    def _memo(self, kind, t, fn):
        c = self.__dict__.setdefault('_memos', {})
        k = (kind, id(t)); r = c.get(k)
        if r is not None and r[0] is t: return r[1]
        v = fn(t); c[k] = (t, v)
        return v
    def align(self, t):
        k = t[0]
        if k == 'ptr': return 8
        if k == 'i' or k == 'f': return self._align(t)
        return self._memo('a', t, self._align)
    def size(self, t):
        k = t[0]
        if k == 'ptr': return 8
        if k == 'i' or k == 'f': return self._size(t)
        return self._memo('s', t, self._size)
    def layout(self, t): return self._memo('l', t, self._layout)
    def _align(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'i':
            n = t[1]
            b = 1
            while b * 8 < n: b *= 2
            return min(b, 16)
        if k == 'ptr': return 8
        if k == 'f': return FSIZE[t[1]]
        if k == 'arr': return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'st': return 1 if t[2] or not t[1] else max(self.align(x) for x in t[1])
        raise SyntaxError('align %r' % (t,))
    def _size(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8; a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr': return 8
        if k == 'f': return FSIZE[t[1]]
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'st':
            return self.layout(t)[1]
        raise SyntaxError('size %r' % (t,))
    def store_size(self, t):
        t = self.resolve(t)
        if t[0] == 'i': return (t[1] + 7) // 8
        return self.size(t)
    def _layout(self, t):
        """struct -> (offsets, size)"""
        o = 0; offs = []
        al = 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o); o += self.size(x)
        o = (o + al - 1) // al * al
        return offs, o

def get_block(f, name):
    b = f.blocks[name]
    if b and isinstance(b[0], str):
        b = [pinstr(s) for s in b]
        f.blocks[name] = b
    return b
