"""Decides one property:  python3-vt -m fv.check C01 [--tier quick|thorough]"""
import sys, os, time, json, pickle, signal, traceback, multiprocessing, tempfile, shutil, re, select
from . import prog, world, unit, term, units as U, case as K
from .exec import Timeout
from .term import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()
LIMIT = {'quick': 600, 'thorough': 840}
JOBLIMIT = {'quick': 240, 'thorough': 480}

class Ctx:
    def __init__(self, P, tier):
        self.P, self.tier = P, tier
        self.worlds, self.errors = {}, {}
    def world(self, key):
        key = (key[0], key[1], key[2] if len(key) > 2 else None)
        if key in self.errors: raise Unsupported('configuration %r: %s' % (key[:2], self.errors[key]))
        if key not in self.worlds:
            try:
                from . import setups
                self.worlds[key] = world.World(self.P, key[0], key[1], setup=setups.setup(key[2]) if key[2] else None)
            except (Unsupported, Timeout) as e: self.errors[key] = str(e)
            except Exception as e: self.errors[key] = 'engine: %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-600:])
            if key in self.errors: raise Unsupported('configuration %r: %s' % (key[:2], self.errors[key]))
        return self.worlds[key]

def values_of(m):
    r = set()
    try:
        for d in m.decls():
            v = m[d]
            if z3.is_bv_value(v): r.add(v.as_signed_long() if v.size() == 64 else v.as_long())
            elif isinstance(v, z3.FuncInterp):
                for k in range(min(v.num_entries(), 8)):
                    e = v.entry(k).value()
                    if z3.is_bv_value(e): r.add(e.as_signed_long() if e.size() == 64 else e.as_long())
    except z3.Z3Exception: pass
    return sorted(r)[:60]

def job(ctx, u, label, arg, limit):
    """runs in a forked child"""
    t0 = time.time()
    res = {'name': label, 'obls': [], 'values': [], 'fns': {}, 'models': {}, 'contracts': {}, 'reason': '', 'status': 'unsupported', 'loops': 0, 'imprecise': False, 'solver': 0.0}
    signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        u.ctx = ctx
        Exec_deadline = t0 + limit*0.93
        ctx.deadline = Exec_deadline
        exs = []
        from . import exec as X
        oi = X.Exec.__init__
        def prep(ex):
            ex.deadline = Exec_deadline
            ex.inlined, ex.used_models, ex.used_contracts, ex.imprecise, ex.n_loops = {}, {}, {}, False, 0
            exs.append(ex)
        def init(self, *a, **k):
            oi(self, *a, **k); prep(self)
        X.Exec.__init__ = init
        for w in ctx.worlds.values(): prep(w.ex)
        r = u.run(ctx, arg)
        res['status'], res['reason'] = r.status, r.reason
        res['paths'] = r.paths
        if hasattr(r, 'tb'): res['tb'] = r.tb
        for o in r.obls:
            res['obls'].append((o.kind, o.where, bool(o.ok), o.status, o.backend, round(o.time, 4)))
            if not o.ok and o.model is not None: res['values'] += values_of(o.model)
        res['values'] = res['values'][:400]
        for ex in exs:
            for k, d in (('fns', ex.inlined), ('models', ex.used_models), ('contracts', ex.used_contracts)):
                for n, c in d.items(): res[k][n] = res[k].get(n, 0)+c
            res['loops'] += ex.n_loops
            res['imprecise'] |= ex.imprecise
        res['solver'] = sum(o[5] for o in res['obls'])
    except (Unsupported, Timeout) as e: res['reason'] = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        res['reason'] = 'engine: %s: %s' % (type(e).__name__, e); res['tb'] = traceback.format_exc()
    res['time'] = time.time()-t0
    return res

def pool(ctx, jobs, nproc, limit, deadline):
    """fork one child per job"""
    todo = list(jobs); run = {}; done = []
    while todo or run:
        while todo and len(run) < nproc and time.time() < deadline:
            label, u, arg = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    b = pickle.dumps(job(ctx, u, label, arg, limit))
                except BaseException as e:
                    b = pickle.dumps({'name': label, 'status': 'unsupported', 'reason': 'engine: %r' % (e,), 'obls': [], 'values': [], 'fns': {}, 'models': {}, 'contracts': {}, 'loops': 0, 'imprecise': False, 'solver': 0, 'time': 0})
                with os.fdopen(w, 'wb') as f: f.write(b)
                os._exit(0)
            os.close(w)
            run[r] = [pid, label, u, time.time(), b'', arg]
        if not run:
            for label, u, arg in todo: done.append((u, blank(label, 'not started: out of time')))
            break
        rs, _, _ = select.select(list(run), [], [], 0.5)
        for fd in rs:
            d = os.read(fd, 1 << 20)
            if d: run[fd][4] += d
            else:
                os.close(fd); j = run.pop(fd); os.waitpid(j[0], 0)
                try: res = pickle.loads(j[4])
                except Exception: res = blank(j[1], 'verifier process ended without a result')
                done.append((j[2], res))
        for fd in list(run):
            j = run[fd]
            if time.time()-j[3] > limit or time.time() > deadline:
                try: os.killpg(j[0], signal.SIGKILL)
                except OSError:
                    try: os.kill(j[0], signal.SIGKILL)
                    except OSError: pass
                os.close(fd); run.pop(fd); os.waitpid(j[0], 0)
                done.append((j[2], blank(j[1], 'out of time')))
    return done
def blank(label, why):
    return {'name': label, 'status': 'unsupported', 'reason': why, 'obls': [], 'values': [], 'fns': {}, 'models': {}, 'contracts': {}, 'loops': 0, 'imprecise': False, 'solver': 0.0, 'time': 0}

def constants(P, fns):
    """integer constants of the functions the verifier read (so that generated cases reach the comparisons they make)"""
    r = set()
    want = set(fns)
    for n, f in P.fnmod.items():
        if not any(w.rsplit('::', 1)[-1] in n for w in want) and '_ZZ' not in n: continue
        if prog.names.qname(n).base not in want: continue
        for l in f._b:
            l = l.split(', !dbg')[0]
            if ' align ' in l: l = l.split(', align ')[0]
            if 'icmp' in l or 'store i' in l or 'call' in l or ' = ' in l or re.match(r'\s+i\d+ -?\d+, label', l):
                if 'getelementptr' in l or 'alloca' in l: continue
                for x in re.findall(r'(?<![%@\w.#(])(-?\d+)\b', l): r.add(int(x))
    return sorted(x for x in r if -(1 << 63) <= x < (1 << 63))

def main(argv):
    pid = argv[0]
    tier = 'quick'
    if '--tier' in argv: tier = argv[argv.index('--tier')+1]
    elif os.environ.get('VERIF_TIER') == 'thorough' : tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    only = argv[argv.index('--only')+1] if '--only' in argv else None
    from . import props
    P_ = U.PROPS[pid]
    us = [u for u in P_.units if only is None or only in u.name]
    scratch = tempfile.mkdtemp(prefix='fv_%s_' % pid)
    try:
        return decide(pid, tier, seed, us, scratch, verbose, argv)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, seed, us, scratch, verbose, argv):
    deadline = T0 + LIMIT[tier]
    build_err = None
    try:
        cache = argv[argv.index('--cache')+1] if '--cache' in argv else None
        if cache and os.path.exists(cache):
            P, c = pickle.load(open(cache, 'rb')); prog.names._cache.update(c)
        else:
            P = prog.Program.build()
            if cache: pickle.dump((P, prog.names._cache), open(cache, 'wb'))
    except prog.ExtractError as e:
        P = None; build_err = str(e)
    results = []
    t_build = time.time()-T0
    ctx = Ctx(P, tier)
    if P is not None:
        jobs = []
        for u in us: jobs += u.jobs(tier)
        keys = []
        for l, u, arg in jobs:
            for k in u.worldkeys(tier) if hasattr(u, 'worldkeys') else ():
                if k not in keys: keys.append(k)
        for k in keys:
            try: ctx.world(k)
            except Unsupported: pass
        jobs.sort(key=lambda j: -getattr(j[1], 'weight', 1.0))
        results = pool(ctx, jobs, int(os.environ.get('FV_PROCS', os.cpu_count() or 8)), JOBLIMIT[tier], deadline-60)
    else:
        results = [(u, blank(l, 'extraction failed: ' + build_err[:300])) for u in us for l, _, _ in u.jobs(tier)]
    bounded_units = [u for u in us if u.bounded]
    failed, undecided = [], []
    for u, r in results:
        bad = [o for o in r['obls'] if not o[2]]
        definite = [o for o in bad if o[3] == 'sat']
        if r['status'] == 'failed': (failed if not r['imprecise'] else undecided).append((u, r, bad))
        elif r['status'] == 'unsupported': undecided.append((u, r, bad))
    if verbose:
        for u, r in sorted(results, key=lambda x: x[1]['name']):
            print('%-44s %-11s %3d obl %3d open  paths %s  %.1fs  %s' % (r['name'], r['status'], len(r['obls']), len([o for o in r['obls'] if not o[2]]), r.get('paths'), r['time'], r['reason'][:200]))
            if r.get('tb'): print(r['tb'])
            for o in [o for o in r['obls'] if not o[2]][:6]: print('      open:', o[0], '|', o[1], '|', o[3], o[4])
    # ---------------------------------------------------------------- concrete replay
    todo = []          # units to run concretely: (unit, why)
    for u, r, b in failed: todo.append((u, 'failed'))
    for u, r, b in undecided: todo.append((u, 'undecided'))
    for u in bounded_units: todo.append((u, 'bounded'))
    if tier == 'thorough' or '--diff' in argv:
        for u in us: todo.append((u, 'cross-check'))
    seen = {}
    groups = {}
    for u, why in todo:
        g = getattr(u, 'difgroup', None)        # units replayed by the same cases: a few of them will do
        if g is not None and u not in seen:
            groups[g] = groups.get(g, 0)+1
            if groups[g] > (6 if why == 'failed' else 2): continue
        if u not in seen: seen[u] = why
    cmp_total = {}
    found = []
    rep = None
    from replay import build as RB
    if seen:
        exe, err = RB.build(prog.REPO, os.path.join(scratch, 'drv'))
        if exe is None:
            if P is None or failed or undecided: pass
            print('replay driver does not build: %s' % err[:500], file=sys.stderr)
        else: rep = K.Replayer(exe)
    if rep:
        order = sorted(seen.items(), key=lambda x: ['failed', 'undecided', 'bounded', 'cross-check'].index(x[1]))
        nwork = []
        for u, why in order:
            vals, fns = set(), {}
            for u2, r in results:
                if u2 is u: vals |= set(r['values']); fns.update(r['fns'])
            cs = constants(P, fns) if P is not None and why != 'cross-check' else []
            pl = K.POOL0 + (sorted(vals)[:120] + cs[:200] if why != 'cross-check' else [])
            n = {'failed': 6000, 'undecided': 6000, 'bounded': 4000, 'cross-check': 1500}[why]
            nwork.append((u, why, n, pl))
        diffs = difpool(rep, nwork, seed, deadline, tier)
        for u, why, done, bad, err in diffs:
            cmp_total[u.name] = cmp_total.get(u.name, 0) + done
            if err and verbose: print('  differential', u.name, err)
            if verbose: print('  differential %-30s %-11s compared %d, mismatches %d' % (u.name, why, done, len(bad)))
            for b in bad: found.append((u, why, b))
    known = load_known(pid)
    # ---------------------------------------------------------------- verdict
    outdir = os.path.join(VERIF, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    viol = []
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    real = []
    for u, why, b in found:
        if why == 'cross-check' and not os.environ.get('FV_STRICT'):
            # every obligation of this unit is discharged; the mismatch is shown, and it is an alarm too: one of the two is wrong
            real.append((u, why, b))
        else: real.append((u, why, b))
    rp = os.path.join(VERIF, 'evidence', 'replay_%s.json' % pid)
    replay = {'property': pid, 'tier': tier, 'seed': seed, 'failed_obligations': [{'unit': r['name'], 'obligations': [{'kind': o[0], 'where': o[1], 'solver': o[3], 'backend': o[4]} for o in b], 'model_values': r['values'][:80]} for u, r, b in failed]}
    if real:
        u, why, b = real[0]
        replay['failing_input'] = {'unit': u.name, 'case': jsonable(b[0]), 'expected': jsonable(b[1]), 'got': jsonable(b[2]),
                                   'how': 'the line printed by fv.case.encode for this case, given to the replay driver (replay/driver.cpp built on /repo), prints `got`; the specification requires `expected` (null: anything)'}
        json.dump(replay, open(rp, 'w'), indent=1)
        print('property %s: %s: the code does not do what is specified (case in %s)' % (pid, u.name, rp))
        for u2, r, b2 in failed:
            for o in b2[:3]: print('  obligation not discharged: %s: %s (%s)' % (r['name'], o[0], o[1]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        viol.append(rp)
    elif failed:
        sure = [(u, r, b) for u, r, b in failed if any(o[3] == 'sat' for o in b)]
        if sure:
            json.dump(replay, open(rp, 'w'), indent=1)
            for u2, r, b2 in sure:
                for o in b2[:3]: print('  obligation not discharged: %s: %s (%s)' % (r['name'], o[0], o[1]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
            viol.append(rp)
        else: undecided += failed
    evidence(pid, tier, seed, us, results, failed, undecided, cmp_total, viol, P, t_build)
    if undecided:
        for u, r, b in undecided: print('note: %s not decided by proof (%s); bounded comparison: %d cases' % (r['name'], r['reason'][:160], cmp_total.get(u.name, 0)))
    n = sum(len(r['obls']) for u, r in results); d = sum(1 for u, r in results for o in r['obls'] if o[2])
    print('%s %s: %d units, %d of %d obligations discharged, %.0f s' % (pid, tier, len(results), d, n, time.time()-T0))
    return 1 if viol else 0

def difjob(rep, u, n, seed, pl):
    t0 = time.time()
    done, bad = 0, []
    try:
        k = 0
        while done < n and time.time()-t0 < 45 and not bad and k < 40:
            d, b = u.diff(rep, max(60, min(400, n)), seed*1000+k, pl)
            done += d; bad += b; k += 1
        return done, bad[:3], ''
    except Exception as e:
        return done, bad[:3], traceback.format_exc()
def difpool(rep, work, seed, deadline, tier):
    out = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, max(1, len(work)))) as p:
        rs = [(u, why, p.apply_async(_dj, (k,))) for k, (u, why, n, pl) in enumerate(_set(rep, work, seed))]
        for u, why, r in rs:
            try: d, b, e = r.get(max(5, deadline-time.time()))
            except multiprocessing.TimeoutError: d, b, e = 0, [], 'out of time'
            except Exception as x: d, b, e = 0, [], repr(x)
            out.append((u, why, d, b, e))
        p.terminate()
    return out
_G = {}
def _set(rep, work, seed):
    return work
def _dj(k):
    rep, work, seed = _G['rep'], _G['work'], _G['seed']
    u, why, n, pl = work[k]
    return difjob(rep, u, n, seed, pl)
_odp = difpool
def difpool(rep, work, seed, deadline, tier):
    _G.update(rep=rep, work=work, seed=seed)
    return _odp(rep, work, seed, deadline, tier)

def jsonable(x):
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, (bytes, bytearray)): return x.decode('latin-1')
    if isinstance(x, (int, str, float)) or x is None: return x
    return repr(x)

def load_known(pid):
    r = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == pid: r.append({'text': m.group(2)})
    return r

def evidence(pid, tier, seed, us, results, failed, undecided, cmp_total, viol, P, t_build):
    from . import trusted
    obl = [o for u, r in results for o in r['obls']]
    by, bt = {}, {}
    for o in obl:
        if o[2]: by[o[4]] = by.get(o[4], 0)+1
        bt[o[4]] = round(bt.get(o[4], 0)+o[5], 3)
    fns, models, cons = {}, {}, {}
    for u, r in results:
        for k, d in (('fns', fns), ('models', models), ('contracts', cons)):
            for n, c in r[k].items(): d[n] = d.get(n, 0)+c
    kinds = {}
    for o in obl:
        k = re.sub(r'\(.*|%.*', '', o[0]).strip()[:60]
        a = kinds.setdefault(k, [0, 0]); a[0] += 1; a[1] += bool(o[2])
    bounded = [u.name for u in us if u.bounded]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': len(obl), 'discharged': sum(1 for o in obl if o[2]),
              'checker_cmd': 'python3-vt -m fv.check %s --tier %s' % (pid, tier),
              'units': len(results), 'units_proved': sum(1 for u, r in results if r['status'] == 'proved'),
              'paths': sum(r.get('paths') or 0 for u, r in results), 'loop_invariants_proved': sum(r['loops'] for u, r in results),
              'discharged_by': by, 'solver_seconds': bt, 'obligation_kinds': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(kinds.items())},
              'functions_executed_from_source': sorted(fns), 'callee_contracts_used': sorted(cons), 'library_models_used': sorted(models),
              'trusted_base': trusted.base(models, cons),
              'not_proved_bounded_instead': [{'unit': r['name'], 'reason': r['reason'][:300], 'cases_compared': cmp_total.get(u.name, 0)} for u, r, b in undecided] + [{'unit': n, 'reason': 'bounded by design', 'cases_compared': cmp_total.get(n, 0)} for n in bounded],
              'concrete_cases_compared': cmp_total, 'translation_units': P.ntus if P else 0, 'extraction_seconds': round(t_build, 1)},
          'assumptions': trusted.assumptions(pid, models, cons),
          'wall_s': round(time.time()-T0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.exit(main(sys.argv[1:]))
