"""Check driver: runs proof tasks and concrete finders in parallel processes, decides the outcome, writes evidence.

A property module (checks/cNN.py) provides
    PROP, LEVEL, TECHNIQUE
    tasks(tier)   -> list of T(name, fn, args, timeout)      proof tasks; fn(task, *args) uses core.explore
    finders(tier) -> list of T(name, fn, args, timeout)      concrete executions of the real code; fn(rep, *args)
    replay(result)-> None | dict                             optional: run a failed obligation's model on the real code
"""
import os, sys, time, json, traceback, tempfile, shutil, signal, random, re
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import core

class T:
    def __init__(s, name, fn, args=(), timeout=240, smt_ms=10000, max_paths=20000, unit=''):
        s.name, s.fn, s.args, s.timeout, s.smt_ms, s.max_paths, s.unit = name, fn, args, timeout, smt_ms, max_paths, unit

class Rep:
    """Report of a finder: counts what it ran, keeps the first failing inputs."""
    def __init__(s, name, seed, tier):
        s.name = name; s.n = 0; s.distinct = 0; s.fails = []; s.samples = []; s.rng = random.Random(seed); s.seed = seed; s.tier = tier; s.notes = []; s.unsupported = []
        s.t0 = time.time(); s.budget = 1e9
    def case(s, sample=None):
        s.n += 1
        if sample is not None and len(s.samples) < 3: s.samples.append(str(sample)[:300])
    def fail(s, key, detail):
        """key: stable identification of the failing input / call site (used for known findings)"""
        if len(s.fails) < 60 and not any(f['key'] == key for f in s.fails): s.fails.append({'key': key, 'detail': str(detail)[:4000], 'finder': s.name})
    def check(s, ok, key, detail):
        s.case(key)
        if not ok: s.fail(key, detail)
    def over(s): return time.time() - s.t0 > s.budget

def _child(kind, t, q, seed, tier):
    os.setpgrp() if False else None
    try:
        import resource
        lim = 9 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception: pass
    sys.setrecursionlimit(20000)
    t0 = time.time()
    if kind == 'proof':
        task = core.Task(t.name, timeout_ms=t.smt_ms, max_paths=t.max_paths, deadline=t0 + t.timeout)
        st, err = 'ok', None
        try:
            t.fn(task, *t.args)
        except core.PathLimit as e: st, err = 'incomplete', 'PathLimit: %s' % e
        except core.Unsupported as e: st, err = 'unsupported', str(e)[:600]
        except core.PathEnd as e: st, err = 'unsupported', 'PathEnd escaped: %s' % e
        except BaseException as e:
            st, err = 'error', traceback.format_exc()[-1800:]
        res = []
        for r in task.results:
            d = r.d(); res.append(d)
        q.put({'task': t.name, 'unit': t.unit, 'status': st, 'err': err, 'results': res, 'covers': task.covers, 'paths': task.paths, 'solver_time': task.solver_time,
               'functions': sorted(task.functions), 'assumed': sorted(task.assumed), 'wall': time.time() - t0})
    else:
        rep = Rep(t.name, seed, tier); rep.budget = t.timeout * 0.8
        st, err = 'ok', None
        try: t.fn(rep, *t.args)
        except core.Unsupported as e: st, err = 'unsupported', str(e)[:600]
        except BaseException as e: st, err = 'error', traceback.format_exc()[-1800:]
        q.put({'task': t.name, 'status': st, 'err': err, 'n': rep.n, 'distinct': rep.distinct, 'fails': rep.fails, 'samples': rep.samples, 'notes': rep.notes, 'unsupported': rep.unsupported, 'wall': time.time() - t0})

def run_all(jobs, nproc, seed, tier, deadline, log, kf=()):
    """jobs: list of (kind, T). Returns list of result dicts (timeouts become status 'timeout')."""
    ctx = mp.get_context('fork')
    pend = list(jobs)[::-1]; live = []; out = []
    while pend or live:
        while pend and len(live) < nproc and time.time() < deadline:
            kind, t = pend.pop()
            q = ctx.SimpleQueue()
            r, w = ctx.Pipe(False)
            class PQ:
                def __init__(s, w): s.w = w
                def put(s, x): s.w.send(x)
            p = ctx.Process(target=_child, args=(kind, t, PQ(w), seed, tier))
            p.start(); w.close()
            live.append((p, r, kind, t, time.time()))
        if time.time() >= deadline and pend:
            for kind, t in pend: out.append({'task': t.name, 'unit': t.unit, 'status': 'timeout', 'err': 'not started: overall budget', 'kind': kind})
            pend = []
        nl = []
        for e in live:
            p, r, kind, t, t0 = e
            got = None
            if r.poll(0):
                try: got = r.recv()
                except EOFError: got = {'task': t.name, 'unit': t.unit, 'status': 'error', 'err': 'child died (exit %s)' % p.exitcode}
            elif not p.is_alive():
                if r.poll(0.2):
                    try: got = r.recv()
                    except EOFError: pass
                got = got or {'task': t.name, 'unit': t.unit, 'status': 'error', 'err': 'child died (exit %s)' % p.exitcode}
            elif time.time() - t0 > t.timeout + 45 or time.time() > deadline + 20:
                p.kill(); got = {'task': t.name, 'unit': t.unit, 'status': 'timeout', 'err': 'killed after %ds' % (time.time() - t0)}
            if got is None: nl.append(e)
            else:
                got['kind'] = kind
                out.append(got); p.join(5); r.close()
                # a failing input on the real code decides the outcome: finish what is running, briefly
                if any(f['key'] not in kf for f in got.get('fails', [])): deadline = min(deadline, time.time() + 45)
                if log: print('  [%s] %s: %s %.1fs %s' % (kind, got['task'], got['status'], got.get('wall', 0), (got.get('err') or '')[:1500 if os.environ.get('VERBOSE') else 160].replace('\n', ' | ')), flush=True)
        live = nl
        if live: time.sleep(0.02)
    return out

def known_findings(prop):
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = {}
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            d = json.loads(l)
            if d.get('property') == prop: out[d['key']] = d.get('what', d['key'])
    return out

def main(mod, argv=None):
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv and '--thorough' in argv: tier = 'thorough'
    log = bool(argv and '-v' in argv)
    only = [a[2:] for a in (argv or []) if a.startswith('-k')]
    t0 = time.time()
    prop = mod.PROP
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.environ['VERIF_TMP'] = tmp
    code = 2
    try:
        code = _main(mod, prop, tier, seed, log, only, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return code

def _main(mod, prop, tier, seed, log, only, t0, tmp):
    budget = getattr(mod, 'BUDGET', {'quick': 600, 'thorough': 3000})[tier]
    setup_err = None
    jobs = []
    state = None
    try:
        if hasattr(mod, 'setup'): state = mod.setup(tmp, tier)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        setup_err = traceback.format_exc()[-3000:]
        if log: print(setup_err)
    pj = []
    def gen(what, fn):
        nonlocal setup_err
        try: return fn()
        except (Exception, core.Unsupported, core.PathLimit, core.PathEnd) as e:
            setup_err = (setup_err or '') + '\n%s: %s' % (what, traceback.format_exc()[-2000:])
            if log: print(setup_err)
            return []
    pj = [('proof', t) for t in gen('tasks', lambda: mod.tasks(tier))] if not (setup_err and state is None and hasattr(mod, 'setup')) else []
    fj = [('find', t) for t in gen('finders', lambda: mod.finders(tier))]
    jobs = fj[:2] + pj + fj[2:] if not getattr(mod, 'FINDERS_FIRST', False) else fj + pj
    if only: jobs = [j for j in jobs if any(o in j[1].name for o in only)]
    kf = known_findings(prop)
    res = run_all(jobs, int(os.environ.get('VERIF_JOBS', '8')), seed, tier, t0 + budget, log, kf)
    proofs = [r for r in res if r['kind'] == 'proof']; finds = [r for r in res if r['kind'] == 'find']
    viol = []      # (key, detail, has_input, extra)
    nobl = ndis = 0; solvers = {}; stime = 0.0; funcs = set(); assumed = set(); bounded = []; undis = []
    for r in proofs:
        stime += r.get('solver_time', 0); funcs |= set(r.get('functions', [])); assumed |= set(r.get('assumed', []))
        for o in r.get('results', []):
            nobl += 1
            if o['status'] == 'proved': ndis += 1; solvers[o['solver']] = solvers.get(o['solver'], 0) + 1
            else: undis.append((r['task'], o))
        if r['status'] != 'ok': bounded.append((r['task'], r['status'], r.get('err')))
        else:
            dead = [c for c, v in r.get('covers', {}).items() if not v]
            if r.get('results') == [] : bounded.append((r['task'], 'vacuous', 'no obligations generated'))
            if dead: bounded.append((r['task'], 'vacuous', 'unreachable cover points: %s' % dead))
    if setup_err: bounded.append(('setup', 'error', setup_err[-1500:]))
    # concrete failures first
    ncases = sum(r.get('n', 0) for r in finds)
    for r in finds:
        for f in r.get('fails', []): viol.append((f['key'], f['detail'], True, {'finder': r['task']}))
        if r['status'] != 'ok': bounded.append(('finder ' + r['task'], r['status'], r.get('err')))
    # failed obligations: replay the model on the real code
    replayed = 0
    seen = set()
    rp = getattr(mod, 'replay', None)
    for tn, o in undis:
        k = (tn, o['name'])
        if k in seen: continue
        seen.add(k)
        hit = None
        if rp and replayed < 40 and o.get('status') == 'failed':
            replayed += 1
            try: hit = rp(tn, o)
            except BaseException as e:
                if log: print('replay error', traceback.format_exc()[-800:])
        if hit: viol.append((hit['key'], hit['detail'], True, {'task': tn, 'obligation': o}))
        elif o['status'] == 'failed' or getattr(mod, 'UNKNOWN_IS_ALARM', True):
            viol.append(('obligation:%s:%s' % (tn, o['name']), 'obligation %s of %s not discharged (%s by %s) at %s\ngoal: %s\nmodel: %s' % (o['name'], tn, o['status'], o['solver'], o['where'], o.get('goal'), o.get('model')), False, {'task': tn, 'obligation': o}))
    newv = [v for v in viol if v[0] not in kf]
    hits = {}
    for v in viol:
        if v[0] in kf: hits[v[0]] = kf[v[0]]
    # a listed finding explains a failed obligation only if its entry names that obligation
    for k in hits: print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]))
    conc = [v for v in newv if v[2]]; nfi = [v for v in newv if not v[2]]
    code = 0
    if newv:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        v = (conc or nfi)[0]
        path = os.path.join(rd, '%s.json' % prop)
        json.dump({'property': prop, 'failing': [{'key': x[0], 'detail': x[1], 'concrete_input': x[2], 'extra': x[3]} for x in (conc + nfi)[:20]],
                   'how_to_replay': getattr(mod, 'REPLAY_HELP', 'run the check again: it re-executes the real code on the listed input')}, open(path, 'w'), indent=1, default=str)
        print('%s: %s' % (v[0], v[1][:600].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v[2] else ' no-failing-input-found'))
        code = 1
    wall = time.time() - t0
    tasks_ok = [r['task'] for r in proofs if r['status'] == 'ok' and all(o['status'] == 'proved' for o in r['results'])]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'wall_s': round(wall, 2), 'violations': len(newv),
          'assumptions': sorted(assumed | set(getattr(mod, 'ASSUMPTIONS', []))),
          'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt run.py %s' % prop, 'trusted_base': list(getattr(mod, 'TRUSTED', [])),
                       'backends': solvers, 'solver_time_s': round(stime, 2), 'proof_tasks': len(proofs), 'proof_tasks_fully_discharged': len(tasks_ok),
                       'proved_units': sorted(tasks_ok)[:400],
                       'functions_under_contract': sorted(funcs)[:600], 'paths': sum(r.get('paths', 0) for r in proofs),
                       'bounded_or_undecided_units': [{'unit': a, 'status': b, 'why': str(c)[:300]} for a, b, c in bounded],
                       'evaluations': ncases, 'rule': getattr(mod, 'FINDER_RULE', 'bounded concrete execution of the real code against the specification (stand-in and counterexample search; never counted as proved)'),
                       'distinct_nontrivial': sum(r.get('distinct', 0) or r.get('n', 0) for r in finds), 'samples': [s for r in finds for s in r.get('samples', [])][:12],
                       'finders': {r['task']: {'cases': r.get('n', 0), 'status': r['status'], 'notes': r.get('notes', [])[:10]} for r in finds},
                       'known_findings_seen': sorted(hits)}}
    if mod.LEVEL == 'other' or True: ev['coverage']['explanation'] = getattr(mod, 'EXPLANATION', '')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged in %d proof tasks (%d fully), %d bounded/undecided units, %d concrete cases, %.1fs' % (prop, ndis, nobl, len(proofs), len(tasks_ok), len(bounded), ncases, wall))
    if code == 0 and not only and not nobl and not ncases: code = 2; print('%s: nothing could be checked: %s' % (prop, (setup_err or '')[-600:]))
    if log:
        for b in bounded: print('   bounded:', b[0], b[1], str(b[2])[:300].replace('\n', ' | '))
    return code
