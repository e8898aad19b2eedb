#!/usr/bin/env python3-vt
"""Decide one property: compile its contract units from /repo's working tree, generate and discharge every obligation."""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing as mp, resource, traceback, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE); sys.setrecursionlimit(200000)

CXX = ['clang++-17', '-std=c++20', '-stdlib=libc++', '-U_FORTIFY_SOURCE', '-iquote', REPO, '-iquote', os.path.join(HERE, 'include'), '-w']
UB = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,builtin'
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-gline-tables-only', '-fno-exceptions', '-fno-rtti', UB, '-fsanitize-trap=all',
           '-emit-llvm', '-c']
PASSES = ('internalize,globaldce,always-inline,cgscc(inline),globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,gvn,'
          'instcombine<no-verify-fixpoint>,adce,simplifycfg),globaldce')
NATIVE = ['-O1', '-g1', '-fno-exceptions', '-fno-omit-frame-pointer', '-DVP_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize=null,alignment,pointer-overflow,vptr,function,object-size,nonnull-attribute,returns-nonnull-attribute',
          '-fno-sanitize-recover=all']
TRUSTED = ['clang-17 front end and UBSan trap insertion; opt-18 inlining/simplification passes', 'vp/ verification-condition generator (this repository)',
           'z3 (python3-vt) and cvc5 1.1.2', 'contracts assumed for malloc/calloc/realloc/free/operator new+delete, memcpy/memmove/memset/memcmp/memchr/memmem/strlen and LLVM intrinsics (vp/models.py)',
           'best::crash_internal::crash does not return (contract: [[noreturn]])']

def sh(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr

def cover_labels(bc, names):
    """contract -> labels of the cover points reachable from it in the call graph of the unoptimised IR"""
    rc, txt, e = sh(['llvm-dis-18', bc, '-o', '-'])
    strs = {m.group(1): m.group(2) for m in re.finditer(r'^(@[\w.]+) = private unnamed_addr constant \[\d+ x i8\] c"([^"]*)\\00"', txt, re.M)}
    calls, labels, cur = {}, {}, None
    for l in txt.splitlines():
        if l.startswith('define '):
            m = re.search(r'@("[^"]*"|[\w.$]+)\(', l); cur = m.group(1); calls[cur] = set(); labels[cur] = set()
        elif l.startswith('}'): cur = None
        elif cur:
            m = re.search(r'call void @vp_cover\(ptr [^@]*(@[\w.]+)', l)
            if m: labels[cur].add(strs[m.group(1)])
            calls[cur].update(re.findall(r'@("[^"]*"|[\w.$]+)', l))
    out = {}
    for n in names:
        seen, todo = {n}, [n]
        while todo:
            for g in calls.get(todo.pop(), ()):
                if g in calls and g not in seen: seen.add(g); todo.append(g)
        out[n] = sorted(set().union(*[labels[g] for g in seen if g in labels]))
    return out

# The thorough tier also has the instantiations that only repeat the quick tier's at a larger cost.
TIERDEF = ['-DVP_THOROUGH=1'] if os.environ.get('VERIF_TIER') == 'thorough' else []

def compile_unit(args):
    src, prop, tmp = args
    b = os.path.join(tmp, os.path.basename(src)[:-3])
    rc, o, e = sh(CXX + IRFLAGS + TIERDEF + ['-DVP_PROP_%s=1' % prop, src, '-o', b + '.0.bc'])
    if rc: return src, None, 'compile failed: ' + e[-3000:]
    rc, o, e = sh(['llvm-nm-18', '--defined-only', b + '.0.bc'])
    names = [l.split()[-1] for l in o.splitlines() if ' vpc_%s_' % prop in l]
    if not names: return src, [], ''
    # functions that contracts replace by their contract must stay calls
    rc, ir, e = sh(['llvm-dis-18', b + '.0.bc', '-o', '-'])
    keep = sorted(set(re.findall(r'call void @vp_replace_\(ptr noundef @"?([\w$.]+)"?, ptr', ir)) | set(re.findall(r'VP_USE_SYMBOL\("(\w+)"', ''.join(open(f).read() for f in [src] + glob.glob(os.path.dirname(src) + '/*.h')))))
    force = ['--force-attribute=%s:noinline' % k for k in keep]
    rc, o, e = sh(['opt-18', '--internalize-public-api-list=' + ','.join(names), '-passes=forceattrs,' + PASSES] + force + [ '--inline-threshold=20000', b + '.0.bc', '-o', b + '.bc'])
    if rc: return src, None, 'opt failed: ' + e[-3000:]
    json.dump(cover_labels(b + '.0.bc', names), open(b + '.covers', 'w'))
    return src, sorted(names), b + '.bc'

def build_native(src, tmp, prop):
    # clang-17 ships no sanitizer runtime here: compile with it, link against clang-18's runtime (same ABI).
    base = os.path.join(tmp, os.path.basename(src)[:-3])
    objs = []
    for f, o in ((src, base + '.n.o'), (os.path.join(HERE, 'native.cc'), base + '.rt.o')):
        rc, _, e = sh(CXX + NATIVE + TIERDEF + ['-DVP_PROP_%s=1' % prop, '-c', f, '-o', o])
        if rc: print('replay build failed: ' + e[-1500:], file=sys.stderr); return None
        objs.append(o)
    rc, _, e = sh(['clang++-18', '-fsanitize=address,undefined', '-rdynamic', '-stdlib=libc++', '-L/usr/lib/llvm-17/lib'] + objs + ['-ldl', '-o', base + '.native'])
    if rc: print('replay link failed: ' + e[-1500:], file=sys.stderr); return None
    return base + '.native'

# ------------------------------------------------------------------ proving (worker process)
def prove(bc, fn, budget, opts=None):
    import llvm, exec as ex, models
    from term import evalt
    t0 = time.time()
    res = {'fn': fn, 'obl': 0, 'disch': 0, 'fails': [], 'unknowns': [], 'unsupported': None, 'timeout': False, 'kinds': {}}
    o = {'deadline': t0 + budget}
    o.update(opts or {})
    e = None
    try:
        m = llvm.Module(bc)
        pol = {}; first = None
        for k in range(40):
            e = ex.Exec(m, o); e.policy = pol
            try:
                st = e.start(fn); e.run(st)
            except ex.NeedCut as nc:
                pol[nc.key] = 'cut'; continue
            except StopIteration: pass
            # refuted while some input-dependent loop was merely unrolled: decide again with those loops cut by invariants
            if e.fails and first is None and not o.get('bounded'):
                sym = [key for key, c in e.exits.items() if len(c) >= 3 and key not in pol]
                if sym:
                    first = e
                    for key in sym: pol[key] = 'cut'
                    continue
            break
        else: res['unsupported'] = 'too many loops'
        if first is not None and (e.fails or e.unknowns): e = first
    except ex.Unsupported as u: res['unsupported'] = str(u)
    except TimeoutError: res['timeout'] = True
    except MemoryError: res['timeout'] = True
    except RecursionError: res['unsupported'] = 'recursion limit of the verifier'
    except Exception as x:
        res['unsupported'] = 'verifier error: %s' % traceback.format_exc()[-1500:]
    res['wall'] = time.time() - t0
    if e is None: return res
    res['obl'] = sum(v[0] for v in e.obl.values()); res['disch'] = sum(v[1] for v in e.obl.values())
    for (k, l, loc), v in e.obl.items():
        d = res['kinds'].setdefault(k, [0, 0]); d[0] += v[0]; d[1] += v[1]
    res['covers'] = e.covers; res['paths'] = e.paths; res['ret'] = e.ended_ok; res['crash'] = e.crashed_ok
    res['assumptions'] = sorted(e.assumptions); res['by'] = e.stats.by; res['queries'] = e.stats.queries; res['solver_s'] = e.stats.time; res['pruned'] = e.pruned
    res['loops'] = [{'function': demangle_later(k[0]), 'loc': v.get('loc'), 'candidates': v['candidates'], 'kept': v['kept'], 'measure': e.measures.get(k)} for k, v in e.loops_cut.items()]
    res['functions'] = sorted(e.calls); res['callee_contracts'] = sorted(e.stubs)
    for f in e.fails:
        d = {'kind': f.kind, 'label': f.label, 'loc': f.loc, 'havoc': f.havoc}
        try:
            d['input'] = concretize(e, f)
        except Exception as x: d['input'] = None
        res['fails'].append(d)
    for f in e.unknowns: res['unknowns'].append({'kind': f.kind, 'label': f.label, 'loc': f.loc})
    return res

def demangle_later(n): return n

def concretize(e, f):
    from term import evalt, ule, const, TRUE
    env = f.env
    small = None
    for lim in (3, 8, 40, 1000):
        cs = [ule(b[2], const(lim, 64)) for b in f.bufs if b[2].op != 'c']
        if not cs: break
        from term import conj
        if e.solver.check(f.pc, conj(cs), want_model=True) == 'sat':
            env = e.solver.lastmodel; break
    memo = {}
    out = []
    for it in f.nd:
        if it[1] == 'buf':
            name, rid, n, esz, nm, u, cells = f.bufs[it[2]]
            cnt = evalt(n, env, memo) * esz
            if cnt > (1 << 22): out.append('b '); continue
            if cells is not None:
                bs = b''.join(evalt(t, env, memo).to_bytes(t.w // 8, 'little') for t in cells)
            else:
                bs = b''.join((env.get(('uf', nm, i), 0)).to_bytes(u, 'little') for i in range(cnt // u))
            out.append('b ' + bs.hex())
        else:
            out.append('v %x' % int(evalt(it[2], env, memo)))
    return '\n'.join(out) + '\n'

def worker(a):
    try: resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception: pass
    bc, fn, budget, opts, stop = a
    budget = min(budget, stop - time.time())
    if budget <= 1:
        return {'fn': fn, 'obl': 0, 'disch': 0, 'fails': [], 'unknowns': [], 'unsupported': None, 'timeout': True, 'kinds': {}}
    return prove(bc, fn, budget, opts)

# ------------------------------------------------------------------ replay
def native_run(exe, args, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_sigill=0:handle_abort=0', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, errors='replace', timeout=timeout, env=env)
        return p.returncode, p.stdout[-3000:], p.stderr[-20000:]
    except subprocess.TimeoutExpired as x:
        return 124, '', 'timed out (no termination within %ds)' % timeout

def confirmed(rc): return rc not in (0, 77, 78, 99)

def main():
    prop = sys.argv[1]
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = 780 if tier == 'quick' else 3000
    budget = 240 if tier == 'quick' else 1200
    verbose = '-v' in sys.argv
    units = [u for u in sorted(glob.glob(os.path.join(ROOT, 'contracts', '*.cc'))) if re.search(r'\b%s\b' % prop, open(u).read())]
    if not units: print('no contract unit for', prop); return 2
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    outdir = os.path.join(ROOT, 'out', prop); os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(os.path.join(outdir, '*')): os.unlink(f)
    try:
        return run(prop, only, tier, seed, t0, total, budget, verbose, units, tmp, outdir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(prop, only, tier, seed, t0, total, budget, verbose, units, tmp, outdir):
    kf = json.load(open(os.path.join(ROOT, 'known_findings.json'))).get('findings', [])
    with mp.Pool(8) as pool: comp = pool.map(compile_unit, [(u, prop, tmp) for u in units], chunksize=1)
    err = False
    jobs = []
    covers = {}
    srcof = {}
    for src, names, bc in comp:
        if names is None: print('ERROR %s: %s' % (src, bc)); err = True; continue
        cv = json.load(open(bc[:-3] + '.covers')) if names else {}
        for n in names:
            short = n[len('vpc_%s_' % prop):]
            if only and short not in only: continue
            # a contract named *_bounded is a declared bounded stand-in: loops unrolled, never counted as proved
            jobs.append((bc, n, budget, {'bounded': True, 'unroll': 9, 'buf_limit': 8} if n.endswith('_bounded') else None, t0 + total * 0.62)); srcof[n] = src; covers[n] = cv.get(n, [])
    if err: return 2
    results = []
    ctx = mp.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(worker, jobs, chunksize=1):
            results.append(r)
            if verbose: print('%-40s obl %d/%d fails %d unk %d paths %d ret %d crash %d q %d qt %.1f t %.1f %s' % (r['fn'][4:], r['disch'], r['obl'], len(r['fails']), len(r['unknowns']), r.get('paths', 0), r.get('ret', 0), r.get('crash', 0), r.get('queries', 0), r.get('solver_s', 0), r.get('wall', 0), 'TIMEOUT' if r['timeout'] else r['unsupported'] or ''), flush=True)
    bcof = {j[1]: j[0] for j in jobs}
    violations = []; known = []; standins = []; vac = []
    suspects = [r for r in results if r['fails'] or r['unknowns'] or r['unsupported'] or r['timeout']]
    # ---- every contract with a refuted or undecided obligation: look for a concrete failing execution of the real code
    natives = {}
    hits = {}; tried = {}
    stop = t0 + total
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        if suspects:
            ss = sorted({srcof[r['fn']] for r in suspects})
            for s, n in zip(ss, pool.starmap(build_native, [(s, tmp, prop) for s in ss], chunksize=1)): natives[s] = n
        def try_inputs(tag, items):
            """items: (result, failing obligations with inputs); replay them against the real code, keep the first confirmed one per contract"""
            work = []
            for r, fails in items:
                exe = natives.get(srcof[r['fn']]); short = r['fn'][4:]
                if r['fn'] in hits or not exe: continue
                for i, f in enumerate(fails[:6]):
                    if f.get('input') is None: continue
                    p = os.path.join(outdir, '%s.%s%d.replay' % (short, tag, i)); open(p, 'w').write(f['input'])
                    work.append((r, f, p, (exe, [short, 'replay', p])))
            for (r, f, p, a), (rc, o, e) in zip(work, pool.starmap(native_run, [w[3] for w in work], chunksize=1)):
                fn = r['fn']; tried[fn] = tried.get(fn, 0) + 1
                if verbose: print('  replay', fn, tag, f['label'], 'rc', rc, e.strip().split('\n')[:3])
                if confirmed(rc) and fn not in hits: hits[fn] = (f, p, rc, e)
                else: os.unlink(p)
        try_inputs('v', [(r, r['fails']) for r in suspects])
        left = [r for r in suspects if r['fn'] not in hits]
        if left:
            # (a) bounded symbolic execution of the same contract on the same code, loops unrolled
            bj = [(bcof[r['fn']], r['fn'], 60 if tier == 'quick' else 300, {'bounded': True, 'unroll': u, 'buf_limit': bl, 'maxfails': 4}, t0 + total * 0.85) for u, bl in ((4, 3), (9, 8)) for r in left]
            byfn = {r['fn']: r for r in left}
            bres = pool.map(worker, bj, chunksize=1)
            for (u, bl), part in (((4, 3), bres[:len(left)]), ((9, 8), bres[len(left):])):
                for bd in part:
                    if not (bd['unsupported'] or bd['timeout'] or bd['unknowns']): byfn[bd['fn']]['bound'] = 'loops unrolled %d times, buffers of at most %d elements' % (u, bl)
                try_inputs('b%d_' % u, [(byfn[bd['fn']], bd['fails']) for bd in part])
        left = [r for r in left if r['fn'] not in hits and natives.get(srcof[r['fn']])]
        if left:
            # (b) random concrete executions of the contract on the real code
            per = max(1, 8 // len(left))
            secs = int(max(4, min(20 if tier == 'quick' else 120, (stop - time.time()) * 8 / (len(left) * per))))
            rj = [(natives[srcof[r['fn']]], [r['fn'][4:], 'random', str(seed * 64 + k), '100000000', str(secs)], secs + 30) for r in left for k in range(per)]
            ro = pool.starmap(native_run, rj, chunksize=1)
            for i, (rc, o, e) in enumerate(ro):
                r = left[i // per]; short = r['fn'][4:]
                m = re.search(r'satisfying-precondition (\d+)', o)
                if m: r['random_runs'] = r.get('random_runs', 0) + int(m.group(1))
                m = re.search(r'INPUT-BEGIN\n(.*)INPUT-END', e, re.S)
                if confirmed(rc) and m:
                    f0 = (r['fails'] or r['unknowns'] or [{'kind': 'undecided', 'label': r['unsupported'] or 'time limit', 'loc': None}])[0]
                    try_inputs('r', [(r, [dict(f0, input=m.group(1))])])
    for r in suspects:
        fn = r['fn']; short = fn[4:]
        f0 = (r['fails'] or r['unknowns'] or [{'kind': 'undecided', 'label': r['unsupported'] or 'time limit', 'loc': None}])[0]
        if fn in hits:
            f, p, rc, e = hits[fn]
            k = match_known(kf, prop, short, e, f)
            body = open(p).read()
            rp = os.path.join(outdir, short + '.txt')
            open(rp, 'w').write('property %s\ncontract %s (%s)\nobligation [%s] %s at %s\nreplayed against the real code: exit %d\n%s\nreplay input (vp/replay.sh %s %s %s):\n%s' % (prop, short, srcof[fn], f['kind'], f['label'], f['loc'], rc, e[-3000:], prop, srcof[fn], p, body))
            (known if k else violations).append((r, f, rp, '', k))
        elif r['fails']:
            rp = os.path.join(outdir, short + '.txt')
            open(rp, 'w').write('property %s\ncontract %s (%s)\nfailed obligation [%s] %s at %s\nno failing concrete input found: %d verifier models replayed, %d random executions\nverifier output:\n%s\n' % (prop, short, srcof[fn], f0['kind'], f0['label'], f0['loc'], tried.get(fn, 0), r.get('random_runs', 0), json.dumps(r, indent=1, default=str)[:20000]))
            violations.append((r, f0, rp, ' no-failing-input-found', None))
        else:
            standins.append({'contract': short, 'undecided': [u['label'] for u in r['unknowns']] or [r['unsupported'] or 'time limit'],
                             'bound': r.get('bound', 'no bounded exploration completed'), 'random_executions': r.get('random_runs', 0)})
    for r in results:
        if r['fn'].endswith('_bounded') and not any(r is x for x in suspects):
            standins.append({'contract': r['fn'][4:], 'undecided': ['declared bounded'], 'bound': 'loops unrolled 9 times, buffers of at most 8 elements, and the size bounds the contract states', 'obligations_checked_within_bound': r['disch']})
    # vacuity: every contract must complete on some satisfiable path and reach every cover point it declares
    sus = {r['fn'] for r in suspects}
    for r in results:
        if r['fn'] in sus: continue
        if not r.get('covers', {}).get('<end>') and not r.get('covers', {}).get('crash-path'): vac.append((r['fn'], 'no satisfiable path reaches the end'))
        for c in covers[r['fn']]:
            if not r['covers'].get(c): vac.append((r['fn'], 'cover point "%s" unreachable' % c))
    missing = [j[1] for j in jobs if j[1] not in {r['fn'] for r in results}]
    loops = [dict(l, contract=r['fn'][4:]) for r in results for l in r.get('loops', [])]
    by = {}
    everything, results = results, [r for r in results if not r['fn'].endswith('_bounded')]
    for r in results:
        for k, v in r.get('by', {}).items(): by[k] = by.get(k, 0) + v
    fns = sorted({f for r in results for f in r.get('functions', [])})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': sum(r['obl'] for r in results), 'discharged': sum(r['disch'] for r in results),
                       'checker_cmd': 'vp/check.py %s' % prop, 'trusted_base': TRUSTED,
                       'contracts': len(results), 'contracts_fully_discharged': len(results) - len(suspects),
                       'per_contract': [{'contract': r['fn'][4:], 'unit': os.path.relpath(srcof[r['fn']], ROOT), 'obligations': r['obl'], 'discharged': r['disch'], 'kinds': r['kinds'], 'paths': r.get('paths', 0), 'solver_s': round(r.get('solver_s', 0), 2), 'wall_s': round(r.get('wall', 0), 2)} for r in sorted(results, key=lambda r: r['fn'])],
                       'discharged_by': by, 'solver_queries': sum(r.get('queries', 0) for r in results), 'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
                       'loops_cut_by_invariant': loops, 'out_of_line_functions_entered': fns,
                       'bounded_stand_ins_not_counted_as_proved': standins, 'known_findings': [k[4].get('what') for k in known]},
          'assumptions': sorted({a for r in results for a in r.get('assumptions', [])} | {'calls of %s are checked against its contract, not its body (the contract is what C01/C04 prove about it, weakened; a replay runs the real body)' % s for r in results for s in r.get('callee_contracts', [])}) + ['trusted contracts: see coverage.trusted_base', 'compiled configuration: clang-17 -std=c++20 libc++ x86-64, -O0 semantics with NDEBUG unset'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for r, f, rp, suffix, k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for s in standins:
        if s['undecided'] != ['declared bounded']: print('BOUNDED stand-in (not proved): %s: %s' % (s['contract'], s['undecided'][:3]))
    for r, f, rp, suffix, k in violations:
        print('failed obligation: contract %s [%s] %s at %s' % (r['fn'][4:], f['kind'], f['label'], f['loc']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, suffix))
    print('%s: %d contracts, %d obligations, %d discharged, %d bounded stand-ins, %.1fs' % (prop, len(results), ev['coverage']['obligations'], ev['coverage']['discharged'], len(standins), time.time() - t0))
    if violations: return 1
    for v in vac: print('ERROR vacuous contract %s: %s' % v)
    if vac or missing or not everything: return 2
    return 0

def match_known(kf, prop, short, err, f):
    for k in kf:
        if k.get('property') == prop and k.get('contract') == short: return k
    return None

if __name__ == '__main__':
    sys.exit(main())
