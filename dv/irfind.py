"""Concrete differential runs of the native IR driver (harness/drv_ir.cpp): expression trees before and after a complete pass,
evaluated with dv/numspec.py under many environments."""
import os, random, struct, subprocess, math
import numspec as ns, irexpr
from numspec import Raises, Undefined
EI = [0, 1, -1, 2, -2, 3, 7, -7, 10, 62, 63, 64, 65, 100, -64, 255, 1 << 31, -(1 << 31), (1 << 32) + 1, (1 << 53) + 1, (1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 0x123456789abcdef, 3037000500]
EF = [0.0, -0.0, 1.0, -1.0, 0.5, -1.5, 2.5, 3.0, -7.0, 1e16, 9007199254740993.0, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, math.inf, -math.inf, math.nan, 9223372036854775807.0, -9223372036854775808.0, 0.1, 3.14159]
EB = [False, True]
EDGE = {'int': EI, 'float': EF, 'bool': EB}
TY = {t: i for i, t in enumerate(irexpr.TYPES)}
KEYS = [(k[0], k[1], k[4]) for k in irexpr.method_keys()]
KIDX = {k: i for i, k in enumerate(KEYS)}
RET = {(k[0], k[1], k[4]): k[2] for k in irexpr.method_keys()}

def header(pure=True):
    out = []
    for n, ts, r, at, m in irexpr.method_keys():
        p = 8 if pure and all(t in ns.SORT for t in ts) else 0
        out.append('M%d %s %d %d %d %d' % (TY[ts[0]] if m else -1, n, TY[r], TY[ts[0]], TY[ts[1]] if len(ts) > 1 else -1, at | p))
    return out
def tok(tr):
    k = tr[0]
    if k == 'const':
        if tr[1] == 'int': return 'I %d' % tr[2]
        if tr[1] == 'float': return 'F %d' % ns.fbits(tr[2])
        if tr[1] == 'bool': return 'B %d' % tr[2]
    if k == 'var': return 'V %d %d' % (TY[tr[1]], tr[2])
    if k == 'opq': return 'O %d %d' % (TY[tr[1]], tr[2])
    return 'P %d %d %s' % (KIDX[tr[1]], len(tr[2]), ' '.join(tok(x) for x in tr[2]))
def parse(s):
    t = s.split(); p = [0]
    def nx(): p[0] += 1; return t[p[0] - 1]
    def go():
        k = nx()
        if k == 'I': return ('const', 'int', int(nx()))
        if k == 'F': return ('const', 'float', struct.unpack('<d', struct.pack('<Q', int(nx())))[0])
        if k == 'B': return ('const', 'bool', nx() == '1')
        if k == 'V': a = int(nx()); return ('var', irexpr.TYPES[a], int(nx()))
        if k == 'O': a = int(nx()); return ('opq', irexpr.TYPES[a], int(nx()))
        if k == 'P': j, n = int(nx()), int(nx()); return ('op', KEYS[j], [go() for _ in range(n)])
        raise ValueError(s)
    r = go()
    if p[0] != len(t): raise ValueError(s)
    return r
def typ(tr): return tr[1] if tr[0] != 'op' else RET[tr[1]]
def show(tr):
    if tr[0] == 'const': return repr(tr[2])
    if tr[0] == 'var': return '%s%d' % (tr[1], tr[2])
    if tr[0] == 'opq': return 'f_%s%d()' % (tr[1], tr[2])
    return '%s%s(%s)' % ('' if tr[1][2] else 'fn ', tr[1][0].strip('_'), ', '.join(show(x) for x in tr[2]))

class Env:
    def __init__(s, rng, py): s.rng = rng; s.py = py; s.v = {}
    def val(s, key, t):
        if key not in s.v: s.v[key] = s.rng.choice(EDGE[t]) if t in EDGE and s.rng.random() < .7 else s.rand(t, key)
        return s.v[key]
    def rand(s, t, key):
        if t == 'int': return ns.wrap(s.rng.getrandbits(64)) if s.rng.random() < .4 else s.rng.randrange(-20, 20)
        if t == 'float': return s.rng.uniform(-10, 10) if s.rng.random() < .5 else struct.unpack('<d', struct.pack('<Q', s.rng.getrandbits(64)))[0]
        if t == 'bool': return s.rng.random() < .5
        return ('val', key)
    def run(s, tr):
        """-> (events, outcome)"""
        ev = []; cnt = {}
        def go(x):
            if x[0] == 'const': return x[2]
            if x[0] == 'var': return s.val(x[:3], x[1])
            if x[0] == 'opq':
                i = cnt.get(x, 0); cnt[x] = i + 1; ev.append(('call',) + x[1:3])
                return s.val(x[:3] + (i,), x[1])
            xs = [go(y) for y in x[2]]; n, ts, m = x[1]
            if m and all(t in ns.SORT for t in ts): return ns.capply(n, list(ts), xs, s.py)
            ev.append(('op', x[1], tuple(map(norm, xs))))
            r = RET[x[1]]
            return s.val(('res', str(ev[-1])), r) if r in EDGE else ('res', x[1], tuple(map(norm, xs)))
        try: return ev, ('value', norm(go(tr)))
        except Raises: return ev, ('raises',)
def norm(v):
    if isinstance(v, float): return ('nan',) if v != v else ('f', ns.fbits(v))
    return (type(v).__name__, v)

def compare(tr, new, py, seed, nenv, lax=False):
    """None if equal on every environment tried, else a description"""
    if typ(tr) != typ(new): return 'type %s became %s' % (typ(tr), typ(new))
    for k in range(nenv):
        e = Env(random.Random('%s/%d' % (seed, k)), py)
        try: a = e.run(tr)
        except Undefined: continue
        try: b = e.run(new)
        except Undefined:
            if lax: continue
            b = ('undefined',)
        if lax: a, b = [([x for x in q[0] if x[0] == 'call'], q[1]) for q in (a, b)]     # the other operators are pure
        if a != b: return 'with %s: before %s, after %s' % ({'%s%d' % (q[1], q[2]) if q[0] != 'res' else 'res %s' % q[1]: v for q, v in e.v.items()}, a, b)
    return None
def has_vars(tr): return tr[0] in ('var', 'opq') or (tr[0] == 'op' and (not tr[1][2] or any(t not in ns.SORT for t in tr[1][1]) or any(has_vars(x) for x in tr[2])))

def run(rep, exe, cases, tag, kind='folding', nenv=12):
    """cases: [(pass, tree)]"""
    tmp = os.environ.get('VERIF_TMP', '/tmp'); fi, fo = ['%s/%s.%s' % (tmp, tag.replace('/', '_').replace(' ', '_'), x) for x in ('in', 'out')]
    open(fi, 'w').write('\n'.join(header() + ['%d %s' % (p, tok(t)) for p, t in cases]) + '\n')
    subprocess.run([exe, fi, fo], timeout=600, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = open(fo).read().split('\n')[:-1]; os.unlink(fi); os.unlink(fo)
    if len(out) != len(cases): raise RuntimeError('driver answered %d of %d cases' % (len(out), len(cases)))
    for (p, t), o in zip(cases, out):
        py = p == 1; nm = {0: 'C numerics', 1: 'Python numerics', 2: 'canonicalisation'}[p]
        key = '%s:%s:%s' % (kind, 'py' if py else 'c', show(t))
        if o[0] in 'CT': bad = 'the pass died (%s)' % o
        elif o[0] == 'X': bad = 'result cannot be read back: ' + o
        else:
            new = parse(o)
            bad = None
            for pm in ((py,) if p < 2 else (False, True)):
                bad = bad or (compare(t, new, pm, key, nenv if has_vars(t) or has_vars(new) else 1, p == 2) if new != t else None)
            if bad: bad = '%s became %s: %s' % (show(t), show(new), bad)
        rep.check(not bad, key, '%s (%s): %s' % (show(t), nm, bad))

# ---- generators
def const(rng, t): return ('const', t, rng.choice(EDGE[t]) if rng.random() < .8 else Env(rng, 0).rand(t, 0))
BYRET = {}
for _k in KEYS:
    if _k[2] and all(t in ns.SORT for t in _k[1]): BYRET.setdefault(RET[_k], []).append(_k)
def gen(rng, t, d, pv=.25, po=.12, small=False):
    """random tree of type t"""
    if rng.random() < .04 and d:
        ks = [k for k in KEYS if not k[2] and RET[k] == t]
        if ks:
            k = rng.choice(ks); return ('op', k, [gen(rng, x, d - 1, pv, po, small) for x in k[1]])
    if d == 0 or rng.random() < .15:
        r = rng.random()
        if r < pv: return ('var', t, rng.randrange(3))
        if r < pv + po: return ('opq', t, rng.randrange(3))
        return const(rng, t) if not small or t != 'int' else ('const', 'int', rng.choice([0, 1, -1, 2, 3, 5, 64, -3]))
    k = rng.choice(BYRET[t])
    return ('op', k, [gen(rng, x, d - 1, pv, po, small) for x in k[1]])
