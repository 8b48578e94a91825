"""Mechanical extraction of functions and classes from Codon (.codon) library text.

What extraction drops: type annotations (kept aside for overload dispatch), @-attributes other than
@llvm/@overload/@property/@staticmethod/@tuple, docstrings, comments.  Everything that executes is kept:
the body text is handed to Python's parser unchanged except for int-literal suffixes.
"""
import re, ast, textwrap, os

class Fn:
    __slots__ = ('name', 'cls', 'decos', 'params', 'ret', 'body', 'line', 'path', 'llvm', 'nested', 'tparams')
    def __repr__(s): return '<%s%s:%d>' % (s.cls + '.' if s.cls else '', s.name, s.line)
    @property
    def qual(s): return (s.cls + '.' if s.cls else '') + s.name

class Cls:
    def __init__(s, name, decos, bases, line):
        s.name = name; s.decos = decos; s.bases = bases; s.line = line; s.fields = []; s.methods = []; s.extend = any('extend' in d for d in decos); s.tuple = any(d.startswith('tuple') for d in decos)
        s.assigns = []

def strip_comment(l):
    """remove trailing comment respecting quotes"""
    if '#' not in l: return l
    q = None; i = 0
    while i < len(l):
        c = l[i]
        if q:
            if c == '\\': i += 2; continue
            if c == q: q = None
        elif c in '"\'': q = c
        elif c == '#': return l[:i].rstrip()
        i += 1
    return l

def split_top(s, sep=','):
    out = []; d = 0; cur = ''; q = None; i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\': cur += s[i + 1]; i += 1
            elif c == q: q = None
        elif c in '"\'': q = c; cur += c
        elif c in '([{': d += 1; cur += c
        elif c in ')]}': d -= 1; cur += c
        elif c == sep and d == 0: out.append(cur); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

def indent_of(l): return len(l) - len(l.lstrip(' '))

class Source:
    def __init__(self, path, text=None):
        self.path = path
        self.text = text if text is not None else open(path).read()
        self.lines = self.text.split('\n')
        self.funcs = []     # top-level Fn
        self.classes = []   # Cls in order (extends separately)
        self.assigns = []   # (name, expr text) top-level constants
        self.imports = []
        self.scan(0, len(self.lines), 0, None)

    def body_range(self, i, end, ind):
        """lines of the block starting at i with indent > ind; returns index past the block"""
        j = i
        last = i
        tq = None
        while j < end:
            l = self.lines[j]
            if tq:
                if tq in l: tq = None
                last = j + 1; j += 1; continue
            s = l.strip()
            if s and not s.startswith('#') and indent_of(l) <= ind: break
            if s and not (s.startswith('#') and indent_of(l) <= ind):
                last = j + 1
                for q in ('"""', "'''"):
                    if s.count(q) % 2 == 1: tq = q; break
            j += 1
        return last

    def header(self, i):
        """join physical lines of a def/class header until ':' at depth 0"""
        s = ''
        j = i
        while True:
            s += strip_comment(self.lines[j]) + ' '
            d = 0; q = None
            for k, c in enumerate(s):
                if q:
                    if c == q: q = None
                elif c in '"\'': q = c
                elif c in '([{': d += 1
                elif c in ')]}': d -= 1
                elif c == ':' and d == 0:
                    return s[:k].strip(), s[k + 1:].strip(), j + 1
            j += 1

    def scan(self, i, end, ind, cls):
        decos = []
        while i < end:
            l = self.lines[i]; s = l.strip()
            if not s or s.startswith('#'): i += 1; continue
            if indent_of(l) != ind: i += 1; continue
            if s.startswith('"""') or s.startswith("'''"):
                q = s[:3]
                if s.count(q) >= 2: i += 1; continue
                i += 1
                while q not in self.lines[i]: i += 1
                i += 1; continue
            if s.startswith('@'):
                decos.append(strip_comment(s[1:]).strip()); i += 1; continue
            if re.match(r'(async )?def\b', s):
                h, rest, j = self.header(i)
                e = self.body_range(j, end, ind)
                f = self.mkfn(h, rest, j, e, decos, cls, i + 1)
                if f:
                    (cls.methods if cls else self.funcs).append(f)
                decos = []; i = max(e, j); continue
            if s.startswith('class '):
                h, rest, j = self.header(i)
                m = re.match(r'class\s+([\w.]+)\s*(\[[^\]]*\])?\s*(\((.*)\))?', h)
                e = self.body_range(j, end, ind)
                c = Cls(m.group(1), decos, m.group(4), i + 1)
                decos = []
                self.classes.append(c)
                k = j
                while k < e and not self.lines[k].strip(): k += 1
                if k < e and not rest: self.scan(k, e, indent_of(self.lines[k]), c)
                i = max(e, j); continue
            decos = []
            if cls is not None:
                m = re.match(r'(\w+)\s*:\s*([^=]+?)\s*(?:=\s*(.+))?$', strip_comment(s))
                if m and m.group(1) not in ('if', 'else', 'while', 'for', 'with', 'pass'):
                    if not m.group(2).strip().startswith('type'): cls.fields.append((m.group(1), m.group(2).strip(), m.group(3)))
                else:
                    m = re.match(r'(\w+)\s*=\s*(.+)$', strip_comment(s))
                    if m: cls.assigns.append((m.group(1), m.group(2)))
                i += 1; continue
            m = re.match(r'(\w+)\s*(?::\s*[^=]+)?=\s*(.+)$', strip_comment(s))
            if m and ind == 0:
                # join continuation
                t = strip_comment(l).strip(); j = i + 1
                while (t.count('(') + t.count('[') + t.count('{')) > (t.count(')') + t.count(']') + t.count('}')) and j < end:
                    t += ' ' + strip_comment(self.lines[j]).strip(); j += 1
                mm = re.match(r'(\w+)\s*(?::\s*[^=]+)?=\s*(.+)$', t, re.S)
                if mm: self.assigns.append((mm.group(1), mm.group(2), i + 1))
                i = j; continue
            if s.startswith(('from ', 'import ')): self.imports.append(s)
            if ind == 0 and re.match(r'(if|else|elif|while|for|try|with|except|finally)\b', s):
                # static conditionals at top level: scan both bodies
                h, rest, j = self.header(i)
                e = self.body_range(j, end, ind)
                k = j
                while k < e and not self.lines[k].strip(): k += 1
                if k < e and not rest:
                    self.scan_static(h, k, e, cls)
                i = max(e, j); continue
            i += 1

    def scan_static(self, h, k, e, cls):
        n0 = len(self.funcs)
        self.scan(k, e, indent_of(self.lines[k]), cls)

    def mkfn(self, h, rest, j, e, decos, cls, line):
        m = re.match(r'(?:async )?def\s+([\w.`]+)\s*(\[[^\]]*\])?\s*\(', h)
        if not m: return None
        f = Fn(); f.name = m.group(1); f.cls = cls.name if cls else None; f.decos = list(decos); f.path = self.path; f.line = line
        k = m.end() - 1; d = 0
        for p in range(k, len(h)):
            if h[p] in '([{': d += 1
            elif h[p] in ')]}':
                d -= 1
                if d == 0: break
        ptxt = h[k + 1:p]
        r = h[p + 1:].strip()
        f.ret = r[2:].strip() if r.startswith('->') else None
        f.params = []; f.tparams = []
        for a in split_top(ptxt):
            if a in ('/', '*'): continue
            mm = re.match(r'(\*{0,2}\w+)\s*(?::\s*(.*))?$', a, re.S)
            nm = None; ty = None; df = None
            # name [: type] [= default]
            m1 = re.match(r'(\*{0,2}\w+)\s*', a)
            nm = m1.group(1); rest2 = a[m1.end():]
            parts = split_top_eq(rest2)
            if parts[0].startswith(':'): ty = parts[0][1:].strip()
            df = parts[1]
            if ty and (ty == 'type' or re.match(r'(Literal\[)', ty) and False): f.tparams.append(nm); continue
            f.params.append((nm, ty, df))
        f.llvm = 'llvm' in decos
        if rest and not f.llvm: f.body = rest
        elif rest and f.llvm: f.body = rest
        else:
            f.body = textwrap.dedent('\n'.join(self.lines[j:e]))
        return f

    def fn(self, qual, nth=-1):
        c = self.fns(qual)
        if not c: raise KeyError(qual + ' in ' + self.path)
        return c[nth]

    def fns(self, qual):
        if '.' in qual:
            cn, fn = qual.split('.', 1)
            return [m for c in self.classes if c.name == cn for m in c.methods if m.name == fn]
        return [f for f in self.funcs if f.name == qual]

def split_top_eq(s):
    d = 0
    for i, c in enumerate(s):
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif c == '=' and d == 0 and s[i + 1:i + 2] != '=' and s[i - 1:i] not in ('!', '<', '>', '='):
            return s[:i].strip(), s[i + 1:].strip()
    return s.strip(), None

NESTED = []
def lift_llvm(body):
    """Replace nested '@llvm def f(..)' by a stub calling the raw IR; the IR text is kept verbatim in NESTED."""
    if '@llvm' not in body: return body
    L = body.split('\n'); out = []; i = 0
    while i < len(L):
        if L[i].strip() == '@llvm' or (L[i].strip().startswith('@') and any(L[k].strip() == '@llvm' for k in range(i, min(i + 4, len(L))) if all(L[q].strip().startswith('@') for q in range(i, k)))):
            ind = indent_of(L[i])
            while L[i].strip().startswith('@'): i += 1
            src = Source.__new__(Source); src.path = ''; src.lines = L; src.text = ''; src.funcs = []; src.classes = []; src.assigns = []; src.imports = []
            h, rest, j = src.header(i)
            e = src.body_range(j, len(L), ind)
            f = src.mkfn(h, rest, j, e, ['llvm'], None, 0)
            allp = [a for a in split_top(h[h.index('(') + 1:h.rindex(')') if '->' not in h else h.rindex(')', 0, h.rindex('->'))])]
            names = [re.match(r'\w+', a).group() for a in allp]
            f.params = [(n, (a.split(':', 1)[1].strip() if ':' in a else None), None) for n, a in zip(names, allp)]
            NESTED.append(f)
            out.append(' ' * ind + 'def %s(%s): return __llvm_nested__(%d, %s)' % (f.name, ', '.join(names), len(NESTED) - 1, ''.join(n + ', ' for n in names)))
            i = max(e, j); continue
        out.append(L[i]); i += 1
    return '\n'.join(out)

SUF = re.compile(r'(?<![\w."\'])((?:0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*))(u\d*|i\d+)(?![\w"\'])')
def fix_syntax(txt):
    """int suffixes, C imports"""
    def s(m):
        sf = m.group(2)
        n = int(sf[1:]) if len(sf) > 1 else 64
        return '__%s__(%s,%d)' % ('UINT' if sf[0] == 'u' else 'SINT', m.group(1), n)
    txt = lift_llvm(txt)
    if re.search(r'\d(u|i\d)', txt): txt = SUF.sub(s, txt)
    txt = re.sub(r'^(\s*)from C import .*$', r'\1pass', txt, flags=re.M)
    return txt
