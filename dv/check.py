"""check.py ID [--tier quick|thorough]: decide one property for /repo's tree.

1. clang's AST of the library's current sources is dumped and loaded.
2. The property's contracts (spec_*.py) are verified, scenario by scenario,
   in worker processes.
3. The bounded differential harness (harness/<id>.cpp) is built from the
   current sources and run; it replays counterexamples and stands in, labelled
   bounded, for what the verifier could not reach.
"""
import sys, os, time, json, re, random, subprocess, shutil, argparse, importlib, multiprocessing as mp, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('SMARTDNN_REPO', '/repo')
import registry
from scen import Run
import prover

ap = argparse.ArgumentParser()
ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1)); ap.add_argument('-v', action='store_true')
ap.add_argument('--no-harness', action='store_true')
ARGS = ap.parse_args()
ID = ARGS.id; TIER = 'thorough' if ARGS.tier == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
WALL = 560 if TIER == 'quick' else 3000       # the verifier's share, seconds
BUILD = os.path.join(ROOT, 'build', ID); OUT = os.path.join(ROOT, 'replay_out'); EV = os.path.join(ROOT, 'evidence')
for d in (BUILD, OUT, EV): os.makedirs(d, exist_ok=True)

# --------------------------------------------------------------- harness build
def link_lower():
    lc = os.path.join(BUILD, 'lc', 'smart_dnn')
    if os.path.isdir(lc): shutil.rmtree(lc)
    os.makedirs(lc)
    src = os.path.join(REPO, 'smart_dnn')
    for n in os.listdir(src):
        if os.path.isdir(os.path.join(src, n)) and n.lower() != n: os.symlink(os.path.join(src, n), os.path.join(lc, n.lower()))
link_lower()
BIN = os.path.join(BUILD, 'harness')
CXX = ['g++', '-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fopenmp', '-w', '-I' + REPO, '-I' + os.path.join(BUILD, 'lc'), os.path.join(ROOT, 'harness', ID.lower() + '.cpp'), '-o', BIN]
if os.path.exists(BIN): os.unlink(BIN)
hb = None if ARGS.no_harness else subprocess.Popen(CXX, stdout=subprocess.DEVNULL, stderr=open(os.path.join(BUILD, 'harness.err'), 'w'))

# --------------------------------------------------------------- verifier
class Collect:
    def __init__(s, tier): s.list = []; s.tier = tier; s.seed = SEED
    def scenario(s, name, fn, budget=60.0): s.list.append((name, fn, budget))
    @property
    def thorough(s): return s.tier == 'thorough'

def work(i, j=None):
    name, fn, budget = SC[i]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.alarm(int(max(1, DEADLINE - time.time())) + 60)
    R = Run(PROG, SEED, TIER, DEADLINE)
    st = dict(prover.STATS)
    t0 = time.time()
    try: R.scenario(name, fn, budget * 3) if j is None else R.scenario(name, fn, min(60, budget * 3), (SC[j][0], SC[j][1]))
    except MemoryError: R.unsupported.append((name, 'memory limit'))
    except Exception as e: R.unsupported.append((name, 'engine: %s: %s' % (type(e).__name__, e)))
    return dict(name=name, i=i, obl=[(o.name, o.proved, o.refuted[:3], o.open[:3], len(o.refuted), len(o.open), o.time, getattr(o, 'values', None)) for o in R.obl.values()],
                unsupported=R.unsupported, visited=R.visited, paths=R.paths, used=R.used, stateful=R.stateful, acc=R.acc, loops=R.loops, t=time.time() - t0,
                stats={k: prover.STATS[k] - st[k] for k in st})

ast_ok = True; ast_err = ''
spec = registry.spec(ID)
SC = []; results = []; later = []; skipped = []; PROG = None
if spec is not None:
    p = subprocess.run(['bash', os.path.join(HERE, 'ast.sh'), REPO, os.path.join(BUILD, 'ast')], capture_output=True, text=True)
    try:
        for f in ('smart_dnn', 'Shape', 'RandomEngine'):
            e = open(os.path.join(BUILD, 'ast', f + '.err')).read()
            if 'error:' in e: raise Exception('clang: ' + e[e.index('error:'):][:300])
        from astload import Program
        PROG = Program(os.path.join(BUILD, 'ast'))
    except Exception as e: ast_ok = False; ast_err = str(e)
    for f in ('smart_dnn', 'Shape', 'RandomEngine'):
        try: os.unlink(os.path.join(BUILD, 'ast', f + '.json'))
        except OSError: pass
    if ast_ok:
        c = Collect(TIER); spec(c); SC = c.list
        DEADLINE = time.time() + WALL
        order = sorted(range(len(SC)), key=lambda i: (-SC[i][2], i))
        import gc; gc.freeze()
        with mp.get_context('fork').Pool(ARGS.jobs, maxtasksperchild=1) as pool:
            pend = [(i, pool.apply_async(work, (i,))) for i in order]
            for i, r in pend:
                try: results.append(r.get(timeout=max(1, DEADLINE + 20 - time.time())))
                except mp.TimeoutError: results.append(dict(name=SC[i][0], i=i, obl=[], unsupported=[(SC[i][0], 'no answer within the time limit')], visited={}, paths=0, acc=0, loops=0, t=0, stats={}))
            # code that keeps state between calls (static variables): the contracts after calls of the other scenarios
            st = [r['i'] for r in results if r.get('stateful')]
            if st:
                rng = random.Random(SEED); pairs = [(i, j) for i in st for j in st if i != j]; rng.shuffle(pairs)
                stop = min(DEADLINE, time.time() + (150 if TIER == 'quick' else 600))
                pend = [(i, j, pool.apply_async(work, (i, j))) for i, j in pairs[:200 if TIER == 'quick' else 2000]]
                for i, j, r in pend:
                    try: x = r.get(timeout=max(0.01, stop - time.time()))
                    except mp.TimeoutError: continue
                    x['i'] = i; skipped.extend(x['unsupported']); x['unsupported'] = []; later.append(x)
            pool.terminate()
results.sort(key=lambda r: r['i'])

proved = nref = nopen = 0; refuted = []; opened = []; unsupported = []; visited = {}; stats = {}; acc = loops = paths = 0; otime = 0.0; names = 0
pool_vals = set(); empty = []; used = set()
for r in results:
    n0 = proved + nref + nopen
    for (n, p, rf, op, a, b, t, vals) in r['obl']:
        names += 1; proved += p; nref += a; nopen += b; otime += t
        for x in rf: refuted.append((n, x))
        for x in op: opened.append((n, x))
        for v in (vals or {}).values():
            if isinstance(v, (int, float)) and abs(v) < 1e6 and v == int(v) and v >= 1: pool_vals.add(int(v))
    unsupported += r['unsupported']
    if proved + nref + nopen == n0 and not r['unsupported']: empty.append(r['name'])
    for k, c in r['visited'].items(): visited[k] = visited.get(k, 0) + c
    for k, c in r['stats'].items(): stats[k] = stats.get(k, 0) + c
    used |= r.get('used', set()); acc += r['acc']; loops += r['loops']; paths += r['paths']
for r in later:
    for (n, p, rf, op, a, b, t, vals) in r['obl']:
        names += 1; proved += p; nref += a; otime += t
        for x in rf: refuted.append((n, x))
        for x in op: skipped.append((n, 'not proved: ' + x))
        for v in (vals or {}).values():
            if isinstance(v, (int, float)) and abs(v) < 1e6 and v == int(v) and v >= 1: pool_vals.add(int(v))
    paths += r['paths']
for n in empty: unsupported.append((n, 'vacuous: no obligation was generated'))

if ARGS.v:
    for r in results: print('%-46s paths %3d %7.2fs %s' % (r['name'], r['paths'], r['t'], 'UNSUPPORTED' if r['unsupported'] else ''))
    print('z3', stats, 'wall %.1f' % (time.time() - T0))

# --------------------------------------------------------------- harness run
def literals():
    out = set()
    for d, _, fs in os.walk(os.path.join(REPO, 'smart_dnn')):
        for f in fs:
            try: t = open(os.path.join(d, f), errors='replace').read()
            except OSError: continue
            for x in re.findall(r'(?<![\w.])(\d{1,5})(?![\w.])', t):
                if 2 <= int(x) <= 5000: out.add(int(x))
    return out
hfail = []; hruns = []; hstate = 'not run'; hcases = 0
def run_harness(seed, mult, pool, limit):
    global hcases
    cmd = [BIN, '--seed', str(seed), '--mult', str(mult), '--limit', str(limit), '--pool', ','.join(map(str, sorted(pool)))]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', OMP_NUM_THREADS='4')
    try: p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, timeout=limit * 4 + 120, cwd=BUILD)
    except subprocess.TimeoutExpired: return 'no answer'
    m = re.search(r'^DONE iterations=(\d+) cases=(\d+)', p.stdout, re.M)
    if m: hcases += int(m.group(2))
    f = [l for l in p.stdout.splitlines() if l.startswith('FAIL ')]
    if f:
        for l in f: hfail.append((l, cmd, p.stdout[-6000:], p.stderr[-6000:]))
    elif not m or p.returncode not in (0,): return 'ended with %d without a report: %s' % (p.returncode, p.stderr[-300:])
    return 'ok'
if hb is not None:
    if hb.wait() != 0: hstate = 'does not compile against this tree'
    else:
        base = literals(); mult = registry.mult(ID) * (1 if TIER == 'quick' else 8)
        hstate = run_harness(SEED, mult, base, 60 if TIER == 'quick' else 400)
        if (refuted or opened) and not hfail and hstate == 'ok':
            for k in range(3):
                hstate = run_harness(SEED + 1 + k, mult, pool_vals or base, 30)
                if hfail: break

# --------------------------------------------------------------- verdict
kf = []
for l in open(os.path.join(ROOT, 'known_findings.txt')):
    m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)', l.strip())
    if m and m.group(1) == ID: kf.append((m.group(2), m.group(3)))
def known(t): return [d for k, d in kf if k in t]
seen_known = set()
def drop(xs, text):
    out = []
    for x in xs:
        k = known(text(x))
        if k: seen_known.update(k)
        else: out.append(x)
    return out
refuted = drop(refuted, lambda x: x[0] + ' ' + x[1]); opened = drop(opened, lambda x: x[0]); hfail = drop(hfail, lambda x: x[0])
for k in sorted(seen_known): print('KNOWN-FINDING: property=%s %s' % (ID, k))
bad = bool(refuted or opened or hfail)
replay = os.path.join(OUT, ID + '.txt')
if bad:
    with open(replay, 'w') as f:
        f.write('property %s\n' % ID)
        if hfail:
            l, cmd, so, se = hfail[0]
            m = re.search(r'test=(\S+) seed=(\d+) iter=(\d+)', l)
            f.write('\n== failing input on the real code\n%s\n\nreplay:\n  cd %s && %s\n  ASAN_OPTIONS=detect_leaks=0 %s --seed %s --only %s --iter %s --pool %s\n\nstdout:\n%s\nstderr:\n%s\n' % (l, BUILD, ' '.join(CXX), BIN, m and m.group(2), m and m.group(1), m and m.group(3), cmd[-1], so, se))
        f.write('\n== failed obligations (%d refuted, %d neither proved nor refuted)\n' % (nref, nopen))
        for n, x in refuted[:40]: f.write('REFUTED %s\n    %s\n' % (n, x))
        for n, x in opened[:40]: f.write('NOT PROVED %s\n    %s\n' % (n, x))
        f.write('\nverifier: %s %s %s --tier %s\n' % ('python3-vt', os.path.abspath(__file__), ID, TIER))
else:
    try: os.unlink(replay)
    except OSError: pass

funcs = sorted(visited)
cov = dict(
    obligations=proved + nref + nopen, discharged=proved, named_obligations=names,
    checker_cmd='python3-vt dv/check.py %s --tier %s' % (ID, TIER),
    trusted_base=registry.TRUSTED,
    scenarios=len(SC), scenarios_completed=len(SC) - len({n for n, _ in unsupported}), paths=paths,
    memory_accesses_proved_in_bounds=acc, loops_summarised_by_proved_invariants=loops,
    functions_under_contract=funcs,
    callee_contracts_used=sorted(used),
    backends=dict(normalisation_and_linear=stats.get('quick', 0), z3_queries=stats.get('z3_calls', 0), z3_unknown=stats.get('z3_unknown', 0), z3_seconds=round(stats.get('z3_time', 0.0), 2)),
    solver_seconds=round(otime, 2),
    undecided_scenarios=[dict(scenario=n, reason=str(w)[:300]) for n, w in unsupported],
    refuted=[dict(obligation=n, counterexample=x[:500]) for n, x in refuted[:20]],
    not_proved=[dict(obligation=n, goal=x[:500]) for n, x in opened[:20]],
    bounded_stand_in=dict(label='bounded, not proof: differential harness on generated inputs', state=hstate, cases=hcases, failures=len(hfail)),
    limits=registry.limits(ID))
if later or skipped: cov['after_calls_of_other_scenarios'] = dict(pairs=len(later), undecided=[dict(scenario=n, reason=str(w)[:200]) for n, w in skipped[:20]])
if not ast_ok: cov['ast_error'] = ast_err
ev = dict(property=ID, tier=TIER, seed=SEED, level=registry.level(ID), coverage=cov, assumptions=registry.assumptions(ID), wall_s=round(time.time() - T0, 2), violations=len(refuted) + len(opened) + len(hfail))
if registry.level(ID) != 'proof':
    cov.update(evaluations=hcases, distinct_nontrivial=hcases, rule='each case is one generated input (shapes, values, options) compared with a reference; all are distinct draws', samples=[l for l, *_ in hfail[:3]] or ['see harness/%s.cpp' % ID.lower()], explanation='see DESIGN.md')
json.dump(ev, open(os.path.join(EV, ID + '.json'), 'w'), indent=1)

print('%s: %d obligations, %d discharged, %d refuted, %d open; %d/%d scenarios; harness %s (%d cases, %d failures); %.0f s' % (ID, proved + nref + nopen, proved, nref, nopen, cov['scenarios_completed'], len(SC), hstate, hcases, len(hfail), time.time() - T0))
for n, w in unsupported[:10]: print('undecided (bounded stand-in only): %s: %s' % (n, str(w)[:200]))
try: os.unlink(BIN) if not hfail else None
except OSError: pass
if bad:
    for l, *_ in hfail[:2]: print(l[:500])
    for n, x in refuted[:3]: print('refuted: %s: %s' % (n, x[:300]))
    for n, x in opened[:3]: print('not proved: %s: %s' % (n, x[:300]))
    print('VIOLATION property=%s replay=%s%s' % (ID, replay, '' if hfail else ' no-failing-input-found'))
    sys.stdout.flush(); os._exit(1)
if not ast_ok and hstate != 'ok':
    print('no answer: neither the verifier nor the harness could read this tree: %s' % ast_err); sys.stdout.flush(); os._exit(2)
sys.stdout.flush(); os._exit(0)
