"""
sx.run -- run one property's harness: explore every path symbolically, replay counterexamples, write evidence.
"""
import sys, os, json, time, signal, subprocess, hashlib, resource, traceback, threading
import multiprocessing as mp
from multiprocessing.connection import wait
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sx import env
REPO = os.environ.get('SX_REPO', '/repo')
PLAINPY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NWORK = int(os.environ.get('SX_JOBS', '0')) or max(1, min(8, os.cpu_count() or 1))


class Hang(BaseException): pass


def workerMain(conn, cases, pathLimit, deadline, sampleEvery):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, 'w')
    import gc
    from sx.core import E, SxControl, SxInfeasible, SxBudget, SxViolationStop, Stats
    from sx.ctx import SymCtx, model_inputs, concretise
    E.newSolver()
    E.deadline = deadline
    def onAlarm(*a):
        signal.setitimer(signal.ITIMER_REAL, 0.5)   # keep raising until the path is out
        raise Hang()
    signal.signal(signal.SIGALRM, onAlarm)
    nsample = {}
    while True:
        msg = conn.recv()
        if msg is None: break
        ci, prefixes, sl = msg
        name, fn, params = cases[ci][:3]
        opts = cases[ci][3] if len(cases[ci]) > 3 else {}
        E.maxDecisions = opts.get('max_decisions', 3000)
        stack = list(prefixes)
        E.stats = Stats()
        viol = []; samples = []; reached = {}; aborts = []
        E.functions.clear()
        t0 = time.time()
        while stack and time.time() - t0 < sl:
            prefix = stack.pop()
            ctx = SymCtx()
            E.begin(prefix)
            E.stats.paths += 1
            err = None
            signal.setitimer(signal.ITIMER_REAL, pathLimit)
            try:
                try:
                    fn(ctx, **params)
                    k = nsample[ci] = nsample.get(ci, 0) + 1
                    if E.nchecks and (k <= 3 or k % sampleEvery == 0):
                        m = E.getModel()
                        samples.append((model_inputs(m), [(l, concretise(v, m)) for l, v in E.observed]))
                except SxViolationStop: pass
                except SxInfeasible: E.stats.paths -= 1
                except SxBudget as e:
                    E.stats.aborted += 1; err = str(e)
                    if err == 'decisions':
                        try: viol.append(('no answer (does not terminate)', model_inputs(E.getModel()), None))
                        except SxControl: pass
                except Hang:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    E.stats.aborted += 1; err = 'path time limit'
                    E.newSolver()
                    try:
                        E.levels = []; E.levelTerms = []
                        # rebuild the path condition to get a model
                        E2 = list(E.trail)
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        viol.append(('no answer (does not terminate)', replayModel(E, fn, params, E2), None))
                    except BaseException: pass
                except Exception as e:
                    E.reached_exc = True
                    lab = 'uncaught ' + type(e).__name__
                    tb = traceback.format_exc()[-1200:]
                    if E.pos >= len(E.prefix):
                        try: viol.append((lab, model_inputs(E.getModel()), None, tb))
                        except SxControl: E.stats.aborted += 1
            except Hang:
                E.stats.aborted += 1; err = 'path time limit'
                E.newSolver()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if err == 'deadline':
                stack.append(prefix); E.end(); aborts.append(err); break
            if err: aborts.append(err)
            for v in E.violations: viol.append(v)
            for l, n in ctx.reached.items(): reached[l] = reached.get(l, 0) + n
            stack.extend(E.pending)
            E.end()
            if len(viol) > 40: break
        conn.send((ci, stack, E.stats.asdict(), viol, samples, reached, sorted(E.functions), aborts, time.time() - t0))

def replayModel(E, fn, params, trail):
    """Inputs of a path that hung: re-run it with its own decisions, stop when they run out."""
    from sx.core import SxBudget
    from sx.ctx import SymCtx, model_inputs
    E.begin(trail)
    E.maxDecisions = len(trail)
    def onA(*a): raise SxBudget('hang')
    old = signal.signal(signal.SIGALRM, onA)
    signal.setitimer(signal.ITIMER_REAL, 5)
    try:
        fn(SymCtx(), **params)
    except SxBudget: pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return model_inputs(E.getModel())


class ReplayServer:
    def __init__(self, harness, tier):
        self.args = [PLAINPY, os.path.join(VERIF, 'sx', 'replay.py'), 'serve', harness, tier]
        self.p = None
    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd='/')
        l = self.p.stdout.readline()
        if l.strip() != 'READY':
            self.stop()
            raise RuntimeError('replay server did not start')
    def run(self, case, inputs):
        for attempt in (1, 2):
            if self.p is None or self.p.poll() is not None: self.start()
            try:
                self.p.stdin.write(json.dumps({'case': case, 'inputs': inputs}) + '\n'); self.p.stdin.flush()
                l = self.p.stdout.readline()
            except BrokenPipeError: l = ''
            if l: return json.loads(l)
            self.stop()
        return {'status': 'dead', 'label': None, 'observed': []}
    def stop(self):
        if self.p is not None:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
        self.p = None


def loadKnown():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p))['findings']


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('harness')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--stats', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    tstart = time.time()
    home = env.prepare()
    import atexit
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    # load the real code, instrumented
    from sx import instr
    instr.install({'BibleOrgSys': REPO, 'harness': VERIF})
    import importlib
    out = os.fdopen(os.dup(1), 'w')
    if not os.environ.get('SX_DEBUG'):
        sys.stdout = open(os.devnull, 'w')
    try:
        mod = importlib.import_module('harness.' + a.harness)
        mod.setup()
    except Exception as e:
        return brokenImport(a, out, tstart, e)
    pid = mod.PROPERTY
    cases = [c for c in mod.cases(a.tier) if not a.only or a.only in c[0]]
    budget = a.budget or getattr(mod, 'BUDGET', {}).get(a.tier) or (150 if a.tier == 'quick' else 780)
    tload = time.time() - tstart
    deadline = time.time() + budget
    pathLimit = getattr(mod, 'PATH_LIMIT', 25)
    sampleEvery = getattr(mod, 'SAMPLE_EVERY', 200)
    workers = []
    for i in range(NWORK):
        pc, cc = mp.Pipe()
        p = mp.Process(target=workerMain, args=(cc, cases, pathLimit, deadline, sampleEvery), daemon=True)
        p.start(); cc.close()
        workers.append([p, pc, None])
    todo = [[ci, [[]]] for ci in range(len(cases))]
    todo.reverse()
    S = {ci: dict(paths=0, decisions=0, queries=0, solver_s=0.0, unknown=0, forced=0, checks=0, check_queries=0, infeasible=0, aborted=0, realised=0, cpu_s=0.0) for ci in range(len(cases))}
    reached = {ci: {} for ci in range(len(cases))}
    aborts = {ci: {} for ci in range(len(cases))}
    functions = set(); samples = []; confirmed = []; unconfirmed = {}; knownHits = {}; unrepro = []
    known = {k['id']: k for k in loadKnown() if k['property'] == pid and not k.get('fixed')}
    rs = ReplayServer(a.harness, a.tier)
    seenLabel = {}
    replays = 0
    def dispatch():
        for w in workers:
            if w[2] is None and todo:
                ci, pf = todo.pop()
                idle = sum(1 for x in workers if x[2] is None)
                if len(pf) > 1 and len(todo) < NWORK:
                    h = len(pf) // 2
                    todo.append([ci, pf[:h]]); pf = pf[h:]
                sl = 0.25 if len(todo) < 2 * NWORK else 2.0
                w[2] = ci
                w[1].send((ci, pf, sl))
    timedout = False
    while True:
        if time.time() > deadline + 3: timedout = True; break
        if time.time() < deadline: dispatch()
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            if todo: timedout = True
            break
        ready = wait([w[1] for w in busy], timeout=1)
        for w in busy:
            if w[1] not in ready: continue
            try: msg = w[1].recv()
            except EOFError:
                # worker died (memory?): its prefixes are lost -> incomplete
                aborts[w[2]]['worker died'] = aborts[w[2]].get('worker died', 0) + 1
                pc, cc = mp.Pipe()
                p = mp.Process(target=workerMain, args=(cc, cases, pathLimit, deadline, sampleEvery), daemon=True)
                p.start(); cc.close()
                w[0], w[1], w[2] = p, pc, None
                continue
            ci, rest, st, viol, smp, rch, fns, ab, dt = msg
            w[2] = None
            for k, v in st.items(): S[ci][k] += v
            S[ci]['cpu_s'] += dt
            functions.update(fns)
            for l, n in rch.items(): reached[ci][l] = reached[ci].get(l, 0) + n
            for x in ab: aborts[ci][x] = aborts[ci].get(x, 0) + 1
            samples += [(ci,) + x for x in smp]
            if rest: todo.append([ci, rest])
            for v in viol:
                label, inputs, kid = v[:3]
                key = (ci, label, kid)
                if kid in known and key in seenLabel: continue
                n = seenLabel.get(key, 0)
                if n >= 6: continue
                seenLabel[key] = n + 1
                r = rs.run(cases[ci][0], inputs); replays += 1
                if os.environ.get('SX_DEBUG'): out.write('candidate %s %s %s -> %s\n%s\n' % (cases[ci][0], label, inputs, {k: r[k] for k in r if k != 'observed'}, v[3] if len(v) > 3 else '')); out.flush()
                if r['status'] == 'violation':
                    lab2 = r['label']
                    if kid in known: knownHits[kid] = (cases[ci][0], lab2, inputs)
                    else: confirmed.append((ci, lab2, inputs))
                else:
                    unrepro.append({'case': cases[ci][0], 'label': label, 'inputs': inputs, 'replay': r['status'], 'trace': v[3][-300:] if len(v) > 3 else None})
        if confirmed and not a.keep_going: break
    complete = not timedout and not todo and not confirmed
    for w in workers:
        w[0].kill()
    # cross-validation of sampled paths against the uninstrumented code
    maxval = 150 if a.tier == 'quick' else 600
    byCase = {}
    for s in samples: byCase.setdefault(s[0], []).append(s)
    picked = []
    per = max(2, maxval // max(1, len(byCase)))
    for ci, l in byCase.items():
        step = max(1, len(l) // per)
        picked += l[::step][:per]
    validated = 0; diverged = []
    tval = time.time()
    if not confirmed:
        for ci, inputs, obs in picked:
            if time.time() - tval > (40 if a.tier == 'quick' else 90): break
            r = rs.run(cases[ci][0], inputs)
            if r['status'] == 'violation' :
                # the symbolic run found nothing here: report what the real code does (it is a real failing run)
                confirmed.append((ci, r['label'], inputs)); break
            exp = json.loads(json.dumps(obs)); got = r['observed']
            if r['status'] != 'ok' or [list(x) for x in exp] != [list(x) for x in got]:
                diverged.append({'case': cases[ci][0], 'inputs': inputs, 'status': r['status'], 'symbolic': exp, 'real': got})
            else: validated += 1
    rs.stop()
    vac = [cases[ci][0] for ci in range(len(cases)) if not reached[ci] and not confirmed]
    tot = {k: sum(S[ci][k] for ci in S) for k in next(iter(S.values()))} if S else {}
    lines = []
    for kid, (cn, lab, inputs) in sorted(knownHits.items()):
        lines.append('KNOWN-FINDING: property=%s %s: %s' % (pid, kid, known[kid]['what']))
    vio = []
    if confirmed:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        seen = set()
        for ci, lab, inputs in confirmed:
            if (ci, lab) in seen: continue
            seen.add((ci, lab))
            rp = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (pid, len(vio)))
            json.dump({'property': pid, 'harness': a.harness, 'tier': a.tier, 'case': cases[ci][0], 'label': lab, 'inputs': inputs}, open(rp, 'w'), indent=1)
            vio.append({'case': cases[ci][0], 'label': lab, 'inputs': inputs, 'replay': rp})
            lines.append('%s: %s inputs=%s' % (cases[ci][0], lab, json.dumps(inputs)[:400]))
            lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
            if len(vio) >= 5: break
    caseEv = []
    for ci, c in enumerate(cases):
        left = sum(len(pf) for cj, pf in todo if cj == ci)
        caseEv.append({'case': c[0], 'bounds': c[3].get('bounds') if len(c) > 3 else None, 'params': {k: str(v)[:80] for k, v in c[2].items()}, 'paths': S[ci]['paths'], 'decisions': S[ci]['decisions'],
                       'checks': S[ci]['checks'], 'solver_checks_of_assertions': S[ci]['check_queries'], 'queries': S[ci]['queries'], 'solver_s': round(S[ci]['solver_s'], 2),
                       'infeasible': S[ci]['infeasible'], 'aborted': S[ci]['aborted'], 'abort_reasons': aborts[ci], 'unexplored_prefixes': left,
                       'exhausted_within_bounds': complete and left == 0 and S[ci]['aborted'] == 0 and not aborts[ci], 'assertions_reached': reached[ci], 'cpu_s': round(S[ci]['cpu_s'], 1)})
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('decisions', 0), 'traces_validated_against_impl': validated + replays,
            'samples': [{'case': cases[ci][0], 'inputs': inp} for ci, inp, _ in picked[:8]],
            'technique': 'symbolic execution of the instrumented real source; every branch and every assertion settled by z3 over all values within the bounds',
            'queries': tot.get('queries', 0), 'solver_s': round(tot.get('solver_s', 0), 2), 'unknown_answers': tot.get('unknown', 0),
            'assertions_evaluated': tot.get('checks', 0), 'assertion_queries': tot.get('check_queries', 0),
            'exhausted_within_bounds': complete and not any(S[ci]['aborted'] for ci in S) and not any(aborts.values()),
            'functions_encoded': sorted(functions), 'source_files': sorted(p for p in instr.instrumentedFiles if p.startswith(REPO)),
            'cases': caseEv, 'cases_without_reached_assertion': vac,
            'cross_validation': {'paths_replayed_on_real_code': validated, 'diverged': diverged[:5], 'n_diverged': len(diverged)},
            'counterexamples_not_reproduced': unrepro[:10],
            'outside_the_claim': getattr(mod, 'OUTSIDE', ''),
            'known_findings_seen': sorted(knownHits),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['logging/vPrint/dPrint/fnPrint/print output is dropped (arguments of logging calls are evaluated under one model only)'],
        'wall_s': round(time.time() - tstart, 2), 'violations': vio,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in lines: out.write(l + '\n')
    if diverged or unrepro or vac or not ev['coverage']['exhausted_within_bounds'] or a.stats:
        out.write('NOTE property=%s complete=%s diverged=%d unreproduced=%d vacuous=%s\n' % (pid, ev['coverage']['exhausted_within_bounds'], len(diverged), len(unrepro), vac))
        if a.stats:
            for d in diverged[:3]: out.write('DIVERGED ' + json.dumps(d)[:1500] + '\n')
            for d in unrepro[:5]: out.write('UNREPRO ' + json.dumps(d)[:1200] + '\n')
            for c in caseEv: out.write('  %-40s paths=%d dec=%d q=%d solver=%.1fs cpu=%.1fs checks=%d/%d aborted=%d %s left=%d\n' % (c['case'], c['paths'], c['decisions'], c['queries'], c['solver_s'], c['cpu_s'], c['checks'], c['solver_checks_of_assertions'], c['aborted'], c['abort_reasons'] or '', c['unexplored_prefixes']))
    out.write('%s %s: %d paths, %d decisions, %d assertions (%d solver-decided), %d queries, solver %.1fs, load %.1fs, wall %.1fs\n' % (pid, 'VIOLATED' if vio else 'ok', tot.get('paths', 0), tot.get('decisions', 0), tot.get('checks', 0), tot.get('check_queries', 0), tot.get('queries', 0), tot.get('solver_s', 0), tload, time.time() - tstart))
    out.flush()
    return 1 if vio else 0


def brokenImport(a, out, tstart, e):
    """The instrumented code does not load.  Is it the real code that is broken?  Then every property that needs it is."""
    pr = subprocess.run([PLAINPY, os.path.join(VERIF, 'sx', 'replay.py'), 'serve', a.harness, a.tier], stdin=subprocess.DEVNULL, capture_output=True, text=True, cwd='/')
    out.write('NOTE harness %s could not be loaded symbolically: %r; real code loads: %s\n' % (a.harness, e, 'READY' in pr.stdout)); out.flush()
    traceback.print_exc()
    import re
    src = open(os.path.join(VERIF, 'harness', a.harness + '.py')).read()
    pid = re.search(r"PROPERTY\s*=\s*'(\w+)'", src).group(1)
    ev = {'property': pid, 'tier': a.tier, 'seed': 1, 'level': 'model_checking', 'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'load_error': repr(e)}, 'assumptions': [], 'wall_s': round(time.time() - tstart, 2), 'violations': []}
    if 'READY' not in pr.stdout:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', 'replay', pid + '-load.json')
        json.dump({'property': pid, 'harness': a.harness, 'tier': a.tier, 'load_error': repr(e), 'stderr': pr.stderr[-2000:]}, open(rp, 'w'))
        ev['violations'] = [{'label': 'the code does not load', 'replay': rp}]
        out.write('VIOLATION property=%s replay=%s\n' % (pid, rp))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    out.flush()
    return 1 if ev['violations'] else 0


if __name__ == '__main__':
    rc = main()
    sys.stderr.flush()
    import shutil
    shutil.rmtree(os.environ['HOME'], ignore_errors=True)
    os._exit(rc)
