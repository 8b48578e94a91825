"""Obligation core: path exploration by re-execution, SMT discharge, evidence.

A *task* is a Python harness that symbolically executes real code (LLVM IR compiled from
/repo on this run, or Codon library text extracted from /repo on this run) under a contract.
Symbolic branches ask Ctx.branch(); both feasible sides are explored by re-running the task with
the recorded decision prefix.  Ctx.prove(goal, name) is a proof obligation: path condition |- goal.
"""
import os, sys, time, json, traceback, subprocess, tempfile, hashlib
import z3

class PathEnd(BaseException):
    """This path is finished (infeasible, or loop body re-established its invariant)."""

class Unsupported(BaseException):
    """Construct outside the verifier's reach: function falls back to its bounded stand-in."""

class PathLimit(BaseException):
    pass

def is_conc(x):
    return isinstance(x, (bool, int, float))

def model_val(m, t):
    v = m.eval(t, model_completion=True)
    return val_of(v)

def val_of(v):
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_int_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_fp_value(v):
        try:
            return str(v)
        except Exception:
            return repr(v)
    return str(v)

CVC5 = '/opt/veriftools/pyvenv/bin/cvc5'
def _find_cvc5():
    import shutil
    return shutil.which('cvc5')
CVC5 = _find_cvc5()

class Result:
    """One obligation's outcome."""
    __slots__ = ('name', 'status', 'model', 'solver', 'time', 'where', 'info', 'goal')
    def __init__(s, name, status, model=None, solver='', t=0.0, where='', info=None, goal=''):
        s.name, s.status, s.model, s.solver, s.time, s.where, s.info, s.goal = name, status, model, solver, t, where, info, goal
    def d(s):
        return {k: getattr(s, k) for k in s.__slots__}

class Task:
    """Holds everything one task accumulates over all its paths."""
    def __init__(self, name, timeout_ms=10000, max_paths=20000, deadline=None, use_cvc5=True):
        self.name = name
        self.results = []
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.paths = 0
        self.covers = {}
        self.assumed = set()
        self.deadline = deadline
        self.use_cvc5 = use_cvc5
        self.solver_time = 0.0
        self.memo = {}
        self.fail_limit = 40
        self.failed_at = None
        self.functions = set()

class Ctx:
    def __init__(self, task, decisions):
        self.task = task
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', min(task.timeout_ms, 4000))
        self.names = {}
        self.inputs = []      # (label, z3 term) reported from models
        self.extra = {}       # free use by front ends
        self.trace = []

    # fresh names are deterministic per path so that prefixes replay
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f'{base}!{n}'

    def fresh_bv(self, base, w): return z3.BitVec(self.fresh_name(base), w)
    def fresh_int(self, base): return z3.Int(self.fresh_name(base))
    def fresh_bool(self, base): return z3.Bool(self.fresh_name(base))

    def input(self, label, term):
        self.inputs.append((label, term)); return term

    def add(self, c):
        self.pc.append(c); self.solver.add(c)

    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise PathEnd('assume false')
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd('assume false')
        self.add(c)

    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.task.solver_time += time.time() - t0
        return r

    def feasible(self):
        return self._check() != z3.unsat

    def possible(self, cond):
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        return not z3.is_false(c) and self._check(c) != z3.unsat

    def branch(self, cond):
        if isinstance(cond, (bool, int)): return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]; self.pos += 1
            if d in (2, 3):   # forced: other side was infeasible, condition implied
                d = (d == 2)
                self.add(cond if d else z3.Not(cond))
                return d
            self.add(cond if d else z3.Not(cond))
            return bool(d)
        if self.task.deadline and time.time() > self.task.deadline:
            raise PathLimit('time budget of task exhausted')
        ncond = z3.Not(cond)
        key = None
        st = self._check(cond)
        sf = self._check(ncond) if st != z3.unsat else z3.sat
        if st == z3.unsat:
            self.decisions.append(3); self.pos += 1; self.add(ncond)
            return False
        if sf == z3.unsat:
            self.decisions.append(2); self.pos += 1; self.add(cond)
            return True
        self.alts.append(self.decisions[:self.pos] + [0])
        self.decisions.append(1); self.pos += 1; self.add(cond)
        return True

    def choose(self, n, what='choice'):
        """Demonic choice among n alternatives (explores all)."""
        for i in range(n - 1):
            b = self.fresh_bool('ch_' + what)
            if self.branch(b): return i
        return n - 1

    def prove(self, goal, name, where='', info=None, timeout=None):
        """Proof obligation. Returns True if discharged."""
        task = self.task
        if self.pos < len(self.decisions):
            # inside the replayed prefix: already proved when the prefix was first run
            if not isinstance(goal, bool):
                g = z3.simplify(goal)
                if not (z3.is_true(g) or z3.is_false(g)): self.add(g)
                if z3.is_false(g): raise PathEnd('failed before')
            elif not goal: raise PathEnd('failed before')
            return True
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            task.results.append(Result(name, 'proved', None, 'simplifier', time.time() - t0, where)); return True
        status, model, solver = self._discharge(g, timeout)
        dt = time.time() - t0
        task.solver_time += dt
        if status == 'proved':
            task.results.append(Result(name, 'proved', None, solver, dt, where))
            self.add(g)
            return True
        mod = None
        if model is not None:
            mod = {}
            for lab, t in self.inputs:
                try: mod[lab] = t(model) if callable(t) and not z3.is_expr(t) else model_val(model, t)
                except Exception as e: mod[lab] = 'err:' + str(e)
        task.results.append(Result(name, status, mod, solver, dt, where, info, str(g)[:2000]))
        # the outcome of the check is decided; keep looking only briefly for further failures
        task.timeout_ms = min(task.timeout_ms, 4000)
        if not task.failed_at: task.failed_at = time.time()
        if task.deadline: task.deadline = min(task.deadline, task.failed_at + 30)
        if sum(1 for r in task.results if r.status != 'proved') > task.fail_limit:
            raise PathLimit('too many failures')
        if z3.is_false(g): raise PathEnd('failed')
        self.add(g)
        if self._check() == z3.unsat: raise PathEnd('failed')
        return False

    def _discharge(self, g, timeout=None):
        task = self.task
        tmo = timeout or task.timeout_ms
        s = self.solver
        s.push()
        s.add(z3.Not(g))
        s.set('timeout', min(tmo, 3000))
        r = s.check()
        model = s.model() if r == z3.sat else None
        s.pop()
        s.set('timeout', min(task.timeout_ms, 4000))
        if r == z3.unsat: return 'proved', None, 'z3'
        if r == z3.sat: return 'failed', model, 'z3'
        # second attempt: fresh solvers on the whole problem
        goals = self.pc + [z3.Not(g)]
        s2 = z3.Solver(); s2.set('timeout', tmo)
        s2.add(*goals)
        r = s2.check()
        if r == z3.unsat: return 'proved', None, 'z3'
        if r == z3.sat: return 'failed', s2.model(), 'z3'
        if CVC5 and task.use_cvc5:
            r = run_cvc5(s2.sexpr(), tmo)
            if r == 'unsat': return 'proved', None, 'cvc5'
            if r == 'sat': return 'unknown', None, 'cvc5(sat)'
        return 'unknown', None, 'z3+cvc5'

    def cover(self, name):
        """Reachability marker: the path reaching this point is feasible."""
        c = self.task.covers
        if c.get(name) is True: return
        if self.pos < len(self.decisions): return
        c[name] = (self._check() != z3.unsat) or c.get(name, False)

def run_cvc5(sexpr, tmo):
    txt = '(set-logic ALL)\n' + sexpr + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt); fn = f.name
    try:
        p = subprocess.run([CVC5, '--tlimit=%d' % tmo, fn], capture_output=True, text=True, timeout=tmo / 1000 + 10)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return o
    except Exception:
        return 'unknown'
    finally:
        os.unlink(fn)

def explore(task, fn):
    """Run fn(ctx) over all paths."""
    stack = [[]]
    while stack:
        dec = stack.pop()
        task.paths += 1
        if task.paths > task.max_paths:
            raise PathLimit('path limit')
        if task.deadline and time.time() > task.deadline:
            raise PathLimit('time budget of task exhausted')
        ctx = Ctx(task, dec)
        try:
            fn(ctx)
        except PathEnd:
            pass
        stack.extend(ctx.alts)
    return task
