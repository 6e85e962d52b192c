#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- prove every contract of the property on /repo's current tree.

Exit 0: property held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the check itself could not run.
"""
import sys, os, time, json, re, subprocess, shutil, tempfile, signal, glob
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ROOT_ = os.path.dirname(HERE)
import build
from build import sh

RP_FLAGS = ['-std=gnu++23', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-DVK_REPLAY', '-fopenmp', '-w']

# contract files marked `REPLAY-MODE: threads` run the parallel loops on real threads under ThreadSanitizer instead
THR_FLAGS = [f for f in RP_FLAGS if 'sanitize' not in f] + ['-fsanitize=thread', '-D_GLIBCXX_USE_TBB_PAR_BACKEND=0', '-include', os.path.join(HERE, 'vk_par.h')]


def worker(ll, name, budget, nia, conn, outdir):
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    import prove, model
    from solver import STATS
    try:
        r = prove.prove_function(WORK['mods'][ll], name, budget, nia=nia, races=WORK['races'].get(ll, False))
    except MemoryError:
        conn.send({'contract': name, 'status': 'unsupported', 'reason': 'out of memory', 'wall': 0}); return
    except Exception as ex:      # a bug or limit of the generator itself is never a verdict
        import traceback
        conn.send({'contract': name, 'status': 'unsupported', 'reason': 'generator: ' + repr(ex)[:300] + traceback.format_exc()[-300:], 'wall': 0}); return
    E = r.pop('engine')
    r['obligations'] = len(E.oblig)
    r['discharged'] = sum(1 for o in E.oblig if o['ok'])
    kinds = {}
    for o in E.oblig: kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    r['kinds'] = kinds
    r['asserts'] = dict(E.covers)
    r['approx'] = E.approx
    import induct
    bad = [o for o in E.oblig if not o['ok']]
    acc = lambda f: bool(induct.mentions(f, 'fold') or induct.mentions(f, 'sum'))
    r['folds'] = bool(bad) and all(acc(o['goal']) or (o['goal'] == ('F',) and any(acc(f) for f in o['pc'].all()[-8:])) for o in bad)
    r['loops'] = len(E.loops_summarised)
    r['trusted'] = sorted(E.trusted)
    r['stats'] = dict(STATS)
    r['failed'] = []
    if r['status'] in ('failed', 'unsupported'):
        seen = {}
        t0 = time.time()
        for o in E.oblig:
            if o['ok']: continue
            k = (o['kind'], o['what'])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 3 or len(r['failed']) > 12: continue
            ms = []
            if time.time() - t0 < 60:
                try:
                    for d in model.find(E, o):
                        p = os.path.join(outdir, f'{name}.m{len(r["failed"])}_{len(ms)}')
                        model.write(d, p, f'# contract {name}\n# obligation {o["kind"]}: {o["what"]}\n')
                        ms.append(p)
                        if len(ms) >= 3 or time.time() - t0 > 60: break
                except Exception as ex: pass
            r['failed'].append({'kind': o['kind'], 'what': o['what'], 'fn': o['fn'], 'goal': repr(o['goal'])[:600], 'pc': [repr(f)[:300] for f in o['pc'].all()][-25:], 'models': ms})
    conn.send(r)


WORK = {'mods': {}, 'races': {}, 'stop': False}


def skipped(name):
    return {'contract': name, 'status': 'unsupported', 'reason': 'not finished: another contract already has a violation with a failing input', 'wall': 0}


def prove_one(ll, name, budget, nia, outdir, end=None):
    if end is not None:
        budget = min(budget, end - time.time())
        if budget < 5: return {'contract': name, 'status': 'unsupported', 'reason': 'time limit of the whole check', 'wall': 0}
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=worker, args=(ll, name, budget, nia, b, outdir))
    p.start(); b.close()
    r = None
    t = time.time()
    while not a.poll(0.5) and time.time() - t < budget + 75 and not WORK['stop']: pass
    if a.poll(0):
        try: r = a.recv()
        except EOFError: pass
    if p.is_alive(): p.kill()
    p.join()
    if r is None and WORK['stop']: return skipped(name)
    if r is None: r = {'contract': name, 'status': 'unsupported', 'reason': 'time or memory limit of the generator', 'wall': budget}
    return r


def dictionary(ll):
    """integer constants of the code under proof: candidate boundary values for the bounded search"""
    d = {}
    on = False
    for line in open(ll):
        if line.startswith('define '): on = '7TinyDIP' in line or re.search(r'@[CB]\d\d_', line) is not None
        elif on and re.search(r' = (icmp|add|sub|and|mul|urem|udiv|select)|switch|i64 \d+, label', line):
            for x in re.findall(r'\b(\d+)\b', line.split('!')[0]):
                v = int(x)
                if 2 < v < 100000: d[v] = d.get(v, 0) + 1
    return sorted(d, key=lambda v: -d[v])[:60]


def functions(raw, names):
    """functions of the repository whose code each contract reaches (from the un-inlined IR)"""
    calls, cur = {}, None
    for line in open(raw):
        if line.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', line); cur = m.group(1).strip('"'); calls[cur] = set()
        elif line.startswith('}'): cur = None
        elif cur:
            for m in re.finditer(r'@("[^"]+"|[\w.$]+)', line): calls[cur].add(m.group(1).strip('"'))
    seen = set()
    st = [n for n in names if n in calls]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        st += [c for c in calls.get(n, ()) if c in calls]
    fs = [n for n in seen if '7TinyDIP' in n and not n.startswith(('_ZNSt', '_ZSt', '_ZNKSt')) and not re.match(r'[CBK]\d\d_', n)]
    r = subprocess.run([build.LLVM + 'llvm-cxxfilt'], input='\n'.join(fs), capture_output=True, text=True)
    out = set()
    for l in r.stdout.split('\n'):
        m = re.search(r'TinyDIP::([A-Za-z_]\w*(?:<.*?>)?(?:::~?\w+)?)', l)
        l = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', l.split('(')[0])))
        m = re.findall(r'TinyDIP::([\w:~]+)', l)
        if m: out.add(m[-1])
    return sorted(out)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vk_')
    try:
        rc = run(pid, tier, seed, t0, work)
    finally:
        if not os.environ.get('VK_KEEP'): shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def compile_replay(src, cpp, work, extra=()):
    b = os.path.join(work, 'rp_' + os.path.basename(cpp)[:-4])
    if threads(cpp): rt, fl = [os.path.join(work, 'replay_t.o'), os.path.join(work, 'gomp_t.o')], THR_FLAGS
    else: rt, fl = [os.path.join(work, 'replay.o')], RP_FLAGS
    r = sh(['g++-14'] + fl + list(extra) + ['-iquote', src, '-iquote', build.CONTRACTS, '-iquote', HERE, cpp] + rt + ['-o', b, '-ltbb', '-lpthread'])
    if r.returncode: return None, r.stderr
    return b, ''


def run(pid, tier, seed, t0, work):
    quick = tier == 'quick'
    src, csrc = os.path.join(work, 'src'), os.path.join(work, 'csrc')
    build.copy_sources(src); build.copy_sources(csrc)
    cpps = sorted(glob.glob(os.path.join(build.CONTRACTS, pid + '*.cpp')))
    ev = os.path.join(ROOT_, 'evidence'); os.makedirs(ev, exist_ok=True)
    rpd = os.path.join(ev, 'replays'); os.makedirs(rpd, exist_ok=True)
    for f in glob.glob(os.path.join(rpd, pid + '-*')): os.unlink(f)
    r = sh(['g++-14'] + RP_FLAGS + ['-c', '-iquote', HERE, os.path.join(HERE, 'replay.cpp'), '-o', os.path.join(work, 'replay.o')])
    if r.returncode == 0 and any(threads(c) for c in cpps):
        for a, b in (('replay.cpp', 'replay_t.o'), ('gomp_threads.cpp', 'gomp_t.o')):
            r = r if r.returncode else sh(['g++-14', *THR_FLAGS[:-4], '-fsanitize=thread', '-c', '-iquote', HERE, os.path.join(HERE, a), '-o', os.path.join(work, b)])
    if r.returncode: print('replay runtime does not compile', r.stderr[:2000]); return 2
    ncpu = min(8, os.cpu_count() or 8)
    errs = []
    only = os.environ.get('VK_ONLY')

    def one_ir(c):
        txt = open(c).read()
        if not re.search(r'\bCONTRACT\(|ALL', txt): return None
        own = os.path.join(csrc + '_' + os.path.basename(c)[:-4])
        shutil.copytree(csrc, own)
        try: return build.to_ir(own, c, work)
        except build.BuildError as e: errs.append((c, 'clang', str(e))); return None

    def one_rp(c):
        b, e = compile_replay(src, c, work, flags_of(c))
        if b is None: errs.append((c, 'g++', e))
        return b
    with ThreadPoolExecutor(ncpu) as ex:
        fi = [ex.submit(one_ir, c) for c in cpps]
        fr = [ex.submit(one_rp, c) for c in cpps]
        lls = {c: f.result() for c, f in zip(cpps, fi)}
        rps = {c: f.result() for c, f in zip(cpps, fr)}
    for c, w, e in errs:
        print(f'note: {os.path.basename(c)} does not compile with {w} against this tree: {e[:1500]}')
    if not any(rps.values()) and not any(lls.values()): return 2
    from ir import Module
    import prove, model      # load the solver once, workers are forked
    jobs = []
    for c, ll in lls.items():
        if ll is None: continue
        WORK['races'][ll] = re.search(r'^// OBLIGATIONS: races', open(c).read(), re.M) is not None
        WORK['mods'][ll] = Module(open(ll).read())
        for n in WORK['mods'][ll].funcs:
            if re.match(r'C\d\d_', n) and (not only or re.search(only, n)): jobs.append((c, ll, n))
    budget = 150 if quick else 900
    nia = 4000 if quick else 20000
    results = {}
    tb = time.time()
    end = t0 + (420 if quick else 6 * 3600)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=1:detect_stack_use_after_return=0', OMP_NUM_THREADS='4', OMP_WAIT_POLICY='passive')

    def exec_(cmd, out, tmo):
        scratch = tempfile.mkdtemp(prefix='run_', dir=work)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=tmo, env=dict(env, VK_OUT=out), cwd=scratch)
            if 'FATAL: ThreadSanitizer' in r.stderr: return 0, 'ThreadSanitizer does not run here', ''     # no verdict
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired: return 0, 'timeout', ''
        finally: shutil.rmtree(scratch, ignore_errors=True)

    def models(n):
        """replay the solver's counterexamples on the real code"""
        r = results[n]
        b = rps[r['cpp']]
        out = os.path.join(rpd, f'{pid}-{n}.txt')
        for o in r.get('failed', []):
            for mfile in o['models']:
                for sd in (1, 2):
                    rc, so, se = exec_([b, 'model', n, mfile, str(sd)], out, 60)
                    if rc not in (0, 3): return n, 'failed', f'{so}{se[-3000:]}', {'ran': 1, 'from': 'solver model'}
        return None
    rep = {}

    def first(c, ll, n):
        if WORK['stop']: r = skipped(n)
        else: r = prove_one(ll, n, budget, nia, work, end)
        results[n] = r = dict(r, cpp=c, ll=ll)
        if r['status'] != 'proved' and rps[c] and not WORK['stop']:
            x = models(n)
            if x:
                rep[n] = x[1:]
                if quick: WORK['stop'] = True
    with ThreadPoolExecutor(ncpu) as ex: list(ex.map(lambda j: first(*j), jobs))
    WORK['stop'] = False

    def replay_models(ns):
        with ThreadPoolExecutor(ncpu) as ex:
            for x in ex.map(models, ns):
                if x: rep[x[0]] = x[1:]
    dicts = {c: dictionary(ll) for c, ll in lls.items() if ll}

    def probe(j):
        """a short bounded search for a contract that is not proved"""
        c, ll, n = j
        rc, so, se = exec_([rps[c], 'enum', n, '20000', str(seed), '6'] + [str(x) for x in dicts.get(c, [])], os.path.join(rpd, f'{pid}-{n}.txt'), 60)
        return n, 'failed' if rc not in (0, 3) else '', f'{so[-3000:]}{se[-3000:]}', {'ran': 1, 'from': 'bounded search'}
    if quick and not rep:
        with ThreadPoolExecutor(ncpu) as ex:
            for x in ex.map(probe, [j for j in jobs if results[j[2]]['status'] != 'proved' and rps[j[0]]]):
                if x[1]: rep[x[0]] = x[1:]
    # an undischarged obligation gets a second attempt with longer solver limits before it counts
    again = [(c, ll, n) for c, ll, n in jobs if results[n]['status'] != 'proved']
    if again and not rep:
        with ThreadPoolExecutor(max(2, ncpu // 2)) as ex:
            lim = 90 if quick else 900
            fs = {ex.submit(prove_one, ll, n, lim, nia * 3, work, end + 60): (c, ll, n) for c, ll, n in again[:16 if quick else 1000]}
            for f in fs:
                c, ll, n = fs[f]
                r1 = f.result()
                if r1['status'] == 'proved' or results[n]['status'] == 'unsupported': results[n] = dict(r1, cpp=c, ll=ll)
        replay_models([n for c, ll, n in again if results[n]['status'] != 'proved' and rps[results[n]['cpp']]])
    tp = time.time() - tb
    # ---- replay: solver models of failed obligations, then the bounded search for every contract
    viol, known, bounded = [], [], []

    def rp_contract(c, n):
        b = rps[c]
        r = results.get(n)
        out = os.path.join(rpd, f'{pid}-{n}.txt')
        if n in rep: return (n,) + rep[n]
        lim = (8 if quick else 90)
        nt = 20000 if quick else 2000000
        if have and quick: lim, nt = 2, 2000
        elif r and r['status'] != 'proved': lim *= 4; nt *= 10
        rc, so, se = exec_([b, 'enum', n, str(nt), str(seed), str(lim)] + [str(x) for x in dicts.get(c, [])], out, lim * 3 + 30)
        if rc == 3: return n, 'missing', so, {}
        if rc != 0: return n, 'failed', f'{so[-3000:]}{se[-3000:]}', {'ran': 1, 'from': 'bounded search'}
        m = re.search(r'ran=(\d+) skipped=(\d+) enumerated=(\d+) exhausted=(\d)', so)
        return n, 'held', so, {'ran': int(m.group(1)), 'skipped': int(m.group(2)), 'enumerated': int(m.group(3)), 'exhausted_small_scope': m.group(4) == '1'} if m else {'ran': 0}
    have = bool(rep)
    names = []
    for c, b in rps.items():
        if b:
            for n in sh([b]).stdout.split():
                if re.match(r'[CBK]\d\d_', n) and (not only or re.search(only, n)): names.append((c, n))
    with ThreadPoolExecutor(ncpu) as ex:
        for n, st, txt, info in ex.map(lambda x: rp_contract(*x), names): rep[n] = (st, txt, info)
    kf = json.load(open(os.path.join(ROOT_, 'known_findings.json')))
    klist = {k['contract']: k for k in kf['findings'] if k['property'] == pid and k['status'] == 'known'}
    cpp_of = dict((n, c) for c, n in names)
    for n, (st, txt, info) in sorted(rep.items()):
        if n.startswith('K'):
            # a recorded defect, restricted to exactly its failing call pattern
            if st == 'failed' and n in klist: known.append(klist[n])
            elif st == 'failed': viol.append((n, txt, True))
            continue
        if n.startswith('B'): bounded.append(n)
        if st == 'failed':
            viol.append((n, txt, True))
    failed_in = {v[0] for v in viol}
    for n, r in sorted(results.items()):
        if n in failed_in: continue
        if r['status'] == 'failed' and r.get('approx'):
            # the failing obligation went through an over-approximated read and no input fails: not a verdict
            r['status'] = 'unsupported'; r['reason'] = 'undischarged through an over-approximated memory read (no failing input)'
        if r['status'] == 'failed' and r.get('folds'):
            r['status'] = 'unsupported'; r['reason'] = 'accumulated values differ in form; no failing input (the theory of folds is incomplete)'
        if r['status'] == 'failed':
            o = r['failed'][0]
            txt = f"obligation {o['kind']}: {o['what']} (in {o['fn']})\nnot discharged by Z3: {o['goal']}\nunder:\n  " + '\n  '.join(o['pc'])
            viol.append((n, txt, False))
        elif r['status'] != 'proved': bounded.append(n)
    for n, txt, inp in viol:
        path = os.path.join(rpd, f'{pid}-{n}.txt')
        r = results.get(n)
        with open(path, 'a') as o:
            o.write(f'\n# contract {n} of property {pid}; replay: VK_ONLY=^{n}$ python3 /verif/engine/check.py {pid}\n')
            if r and r.get('failed'):
                for q in r['failed']: o.write(f"# failed obligation {q['kind']}: {q['what']} in {q['fn']}\n#   goal {q['goal']}\n")
            o.write('# ' + txt.replace('\n', '\n# ') + '\n')
    ob = sum(r.get('obligations', 0) for r in results.values())
    di = sum(r.get('discharged', 0) for r in results.values())
    proved = sorted(n for n, r in results.items() if r['status'] == 'proved')
    unproved = {n: r.get('reason') or r['status'] for n, r in results.items() if r['status'] != 'proved'}
    fns = set()
    for c, ll in lls.items():
        if ll:
            mine = [n for n in proved if results[n]['cpp'] == c]
            fns |= set(functions(ll.replace('.ll', '.raw.ll'), mine))
    kinds = {}
    for r in results.values():
        for k, v in r.get('kinds', {}).items(): kinds[k] = kinds.get(k, 0) + v
    trusted = sorted({t for r in results.values() for t in r.get('trusted', [])})
    solver = sum(r.get('stats', {}).get('time', 0) for r in results.values())
    evals = sum(x[2].get('ran', 0) for x in rep.values())
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if proved else 'exploration',
        'coverage': {
            'obligations': ob, 'discharged': di, 'obligation_kinds': kinds,
            'checker_cmd': f'python3-vt /verif/engine/check.py {pid} {tier}  (VC generator over the LLVM IR clang emits for /repo\'s sources; obligations discharged by Z3 {z3v()})',
            'trusted_base': ['clang 18 front end and its -O1 scalar passes (no vectoriser, no loop rotation/idiom)', 'the VC generator in /verif/engine (symbolic execution of IR, loop summaries)', f'Z3 {z3v()}'] + [f'modelled runtime function: {t}' for t in trusted],
            'contracts_proved': proved, 'contracts_bounded': {n: unproved.get(n, 'bounded by design') for n in sorted(set(bounded))},
            'functions_under_contract': sorted(fns), 'solver_seconds': round(solver, 2), 'proof_wall_s': round(tp, 1),
            'loops_summarised': sum(r.get('loops', 0) for r in results.values()),
            'contract_assertions': {n: r.get('asserts', {}) for n, r in sorted(results.items())},
            'evaluations': evals, 'distinct_nontrivial': sum(x[2].get('ran', 0) for n, x in rep.items()),
            'rule': 'bounded stand-in: every contract is also executed natively (g++-14, ASan+UBSan) on systematically enumerated small inputs (dimensions up to 5) and then seeded random ones; runs rejected by a precondition are not counted',
            'samples': [f'{n}: {x[1].strip()[:160]}' for n, x in sorted(rep.items())][:8],
            'known_findings': [k['what'] for k in known],
        },
        'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
    }
    if not only or os.environ.get('VK_EV'):
        json.dump(evidence, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print(f'{pid} [{tier}]: {len(proved)}/{len(results)} contracts proved, {di}/{ob} obligations discharged, {len(set(bounded))} bounded, {evals} native runs, solver {solver:.1f}s, wall {time.time() - t0:.0f}s')
    if unproved: [print(f'  not proved: {n}: {str(v)[:160]}') for n, v in list(unproved.items())[:12]]
    for k in known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for n, txt, inp in viol:
        print(f'  {n}: {txt[:1200]}')
        print(f'VIOLATION property={pid} replay={os.path.join(rpd, f"{pid}-{n}.txt")}' + ('' if inp else ' no-failing-input-found'))
    if os.environ.get('VK_KEEP'): print('work', work)
    return 1 if viol else 0


def threads(c):
    return re.search(r'^// REPLAY-MODE: threads', open(c).read(), re.M) is not None


def flags_of(c):
    m = re.search(r'^// REPLAY-FLAGS: (.*)$', open(c).read(), re.M)
    return m.group(1).split() if m else []


def z3v():
    import z3
    return z3.get_version_string()


ASSUME = [
    'image dimensions at most 2^20 per axis (products stay below 2^64); memory allocation succeeds',
    'floating-point operations are uninterpreted functions (equal operations on equal operands give equal results); no rounding facts are used unless the contract says so',
    'std::async runs its task at once (one schedule); mutex lock/unlock are no-ops',
    'a vector that grows by push_back never invalidates a reference the code still uses (reallocation is not modelled beyond the first allocation)',
    'OpenMP pragmas are not executed in the verified text (sequential semantics; C21 alone compiles them and decides interference of iterations); std::execution policies use the serial PSTL back end',
    'loops without a trip count are decided for partial correctness; termination is exercised natively only',
    'fold lemma: sums with equal ranges, start values and pointwise equal summands are equal',
    'trusted models: malloc/free/memcpy/memset, exception runtime, stdio, std::string literals, OpenMP fork and static scheduling',
    'the verified instantiation is the element type(s) named in each contract; other instantiations of the same template are not covered',
    'clang rejects `constexpr` on functions taking std::function; that keyword is blanked in the scratch copy (no run-time meaning)',
    'text written to std::cout/cerr and the contents of exception messages are not modelled',
]
if __name__ == '__main__': main()
