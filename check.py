#!/usr/bin/env python3-vt
"""Decide one property: python3-vt check.py <ID>.  See DESIGN.md for the exit policy."""
import sys, os, time, json, importlib, subprocess, tempfile, shutil, multiprocessing as mp, traceback, signal, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'props')]
sys.setrecursionlimit(100000)
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('VERIF_REPO', '/repo')

def proof_worker(fn, module, q, limit):
    """runs one function-level proof and discharges its obligations; sends a plain dict"""
    import proof
    t = time.time()
    try: r = proof.run_proof(fn, module, limit)
    except Exception as e:
        r = dict(error=f'{type(e).__name__}: {e}', trace=traceback.format_exc()[-3000:])
    r['name'] = fn.__name__; r['wall'] = time.time() - t
    q.put(r)

def run_proofs(P, work, limit):
    import frontend
    t = time.time()
    try: mod = frontend.compile_ir(os.path.join(V, 'harness', P.HARNESS), work)
    except frontend.FrontendError as e:
        return [dict(name='frontend', error=f'FrontendError: {e}')], time.time() - t, []
    tc = time.time() - t
    ctx = mp.get_context('fork'); todo = list(P.PROOFS); running = []; out = []
    maxp = int(os.environ.get('VERIF_JOBS', '7'))
    while todo or running:
        while todo and len(running) < maxp:
            fn = todo.pop(0); q = ctx.Queue()
            p = ctx.Process(target=proof_worker, args=(fn, mod, q, limit)); p.start(); running.append((fn, p, q, time.time()))
        still = []
        for fn, p, q, t0 in running:
            r = None
            try: r = q.get(timeout=0.05)
            except Exception: pass
            if r is not None: p.join(5); out.append(r)
            elif not p.is_alive():
                try: out.append(q.get(timeout=0.2))
                except Exception: out.append(dict(name=fn.__name__, error='proof process died (memory?)'))
            elif time.time() - t0 > limit + 60:
                p.kill(); out.append(dict(name=fn.__name__, error='Budget: time limit'))
            else: still.append((fn, p, q, t0))
        running = still
    order = {f.__name__: i for i, f in enumerate(P.PROOFS)}
    out.sort(key=lambda r: order.get(r['name'], 99))
    return out, tc, mod.dropped

def build_native(src, exe, std='-std=c++20'):
    cmd = ['g++', std, '-O1', '-g', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-w', '-include', 'cstdint', '-include', 'algorithm', '-pthread', '-I' + REPO, '-I' + os.path.join(V, 'native'), src, '-o', exe]
    return subprocess.run(cmd, capture_output=True, text=True)

def run_native(P, work, secs):
    """executable oracle on the real code: returns dict(fails=[(key, text)], stats, error)"""
    src = os.path.join(V, 'native', P.NATIVE); exe = os.path.join(work, 'native')
    r = build_native(src, exe)
    if r.returncode: return dict(fails=[], stats={}, error='native driver does not compile: ' + r.stderr[-1500:], samples=[])
    cwd = os.path.join(work, 'cwd'); os.makedirs(cwd, exist_ok=True)
    cur = os.path.join(work, 'current')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1', NATIVE_CURRENT=cur)
    try:
        p = subprocess.run([exe, str(SEED), TIER, str(secs)], capture_output=True, timeout=secs * 3 + 120, cwd=cwd, env=env)
        out, err, rc = p.stdout.decode('latin-1'), p.stderr.decode('latin-1'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b'').decode('latin-1'), 'timeout', -14
    fails, stats, samples = [], {}, []
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            k, _, d = l[5:].partition(' | '); fails.append((k.strip(), d))
        elif l.startswith('STATS '): stats.update({k: int(v) for k, v in re.findall(r'(\w+)=(\d+)', l)})
        elif l.startswith('SAMPLE '): samples.append(l[7:300])
    if rc != 0:
        c = ''
        if os.path.exists(cur): c = open(cur, 'rb').read().split(b'\0')[0].decode('latin-1')
        m = re.search(r'(AddressSanitizer: [\w-]+|runtime error: [^\n]*|HANG|terminate called[^\n]*|Assertion[^\n]*|LeakSanitizer[^\n]*)', err)
        what = m.group(1) if m else f'exit {rc}'
        loc = re.findall(r'(bomba_\w+\.hpp):(\d+)', err)
        fails.append((f'crash:{c.split(" ")[0] if c else "?"}', f'{what} {loc[:3]} in case: {c}'))
        fails = [(k, d + ('\n' + err[-4000:] if i == len(fails) - 1 else '')) for i, (k, d) in enumerate(fails)]
    return dict(fails=fails, stats=stats, error=None, samples=samples)

def known(prop):
    out = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]; t0 = time.time()
    P = importlib.import_module(pid)
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    status = 1
    try: status = decide(P, pid, t0, rdir, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)

def decide(P, pid, t0, rdir, work):
    thorough = TIER == 'thorough'
    limit = getattr(P, 'LIMIT', 300) * (2 if thorough else 1)
    secs = getattr(P, 'NATIVE_SECS', 12) * (10 if thorough else 1)
    nat = None
    if getattr(P, 'NATIVE', None):
        ctx = mp.get_context('fork'); q = ctx.Queue()
        def nw():
            try: q.put(run_native(P, work, secs))
            except Exception as e: q.put(dict(fails=[], stats={}, error=str(e), samples=[]))
        np_ = ctx.Process(target=nw); np_.start()
    proofs, tc, dropped = run_proofs(P, work, limit)
    if getattr(P, 'NATIVE', None):
        nat = q.get(); np_.join()
    kn = known(pid)
    obls = [o for r in proofs for o in r.get('obligations', [])]
    failed = [o for o in obls if o['status'] == 'failed']
    undec = [o for o in obls if o['status'] == 'undecided']
    errors = [(r['name'], r['error']) for r in proofs if r.get('error')]
    disch = [o for o in obls if o['status'] == 'discharged']
    lines, viol = [], 0
    for k, d in kn: lines.append(f'KNOWN-FINDING: property={pid} {d}')
    knk = {k for k, d in kn}
    realfails = [(k, d) for k, d in (nat['fails'] if nat else []) if k not in knk]
    nkn = [k for k, d in (nat['fails'] if nat else []) if k in knk]
    failed = [o for o in failed if not any(fnk(o['name'], k) for k in knk)]
    if realfails:
        path = os.path.join(rdir, f'{pid}.txt')
        with open(path, 'w') as f:
            f.write(f'property {pid}: failing input(s) against the real code (native/{P.NATIVE}, seed {SEED}, tier {TIER})\n')
            for k, d in realfails[:20]: f.write(f'\n[{k}]\n{d}\n')
            for o in failed[:20]: f.write('\nfailed obligation: ' + o['name'] + ' at ' + o['where'] + '\n' + o.get('detail', '')[:3000] + '\n')
        lines.append(f'failing input: {realfails[0][0]} {realfails[0][1][:300]!r}')
        for o in failed[:5]: lines.append(f"failed obligation: {o['proof']}: {o['name']} at {o['where']}")
        lines.append(f'VIOLATION property={pid} replay={path}'); viol = len(realfails)
    elif failed:
        path = os.path.join(rdir, f'{pid}.txt')
        with open(path, 'w') as f:
            f.write(f'property {pid}: obligations the verifier does not accept; the native search ({nat["stats"] if nat else "none"}) found no failing input\n')
            for o in failed: f.write(f"\nfailed obligation: {o['proof']}: {o['name']} at {o['where']} [{o['kind']}]\n{o.get('detail', '')[:5000]}\n")
        for o in failed[:5]: lines.append(f"failed obligation: {o['proof']}: {o['name']} at {o['where']}")
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found'); viol = len(failed)
    for n, e in errors: lines.append(f'UNDECIDED (bounded stand-in used): {n}: {e[:300]}')
    for o in undec[:10]: lines.append(f"UNDECIDED (bounded stand-in used): {o['proof']}: {o['name']} at {o['where']}")
    if nat and nat['error']: lines.append('native driver unavailable: ' + nat['error'][:600])
    nproved = len([r for r in proofs if not r.get('error') and all(o['status'] == 'discharged' for o in r['obligations'])])
    assumed, fns, loops = {}, set(), []
    for r in proofs:
        for k, v in r.get('assumed', {}).items(): assumed[k] = assumed.get(k, 0) + v
        fns |= set(r.get('functions', [])); loops += r.get('loops', [])
    ev = dict(property=pid, tier=TIER, seed=SEED, level='proof', wall_s=round(time.time() - t0, 2), violations=viol,
        coverage=dict(obligations=len(obls) + len(errors), discharged=len(disch), undecided=len(undec), trivially_true=sum(r.get('trivial', 0) for r in proofs),
            by_kind={k: sum(1 for o in disch if o['kind'] == k) for k in sorted({o['kind'] for o in disch})},
            by_backend={k: sum(1 for o in disch if o['backend'] == k) for k in sorted({o['backend'] for o in disch if o['backend']})},
            checker_cmd=f'python3-vt check.py {pid}', solver_time_s=round(sum(r.get('solver_time', 0) for r in proofs), 2), compile_s=round(tc, 2),
            proofs=[dict(name=r['name'], contract=r.get('doc', ''), obligations=len(r.get('obligations', [])), discharged=sum(1 for o in r.get('obligations', []) if o['status'] == 'discharged'), paths=r.get('paths', 0), error=r.get('error'), covered=r.get('covers')) for r in proofs],
            functions_under_contract=sorted(f for f in fns if 'Bomba' in f or 'h_' in f)[:400], library_functions_executed=len([f for f in fns if 'Bomba' not in f]),
            loop_invariants=loops[:60], extraction=__import__('frontend').EXTRACTION, extraction_dropped=dropped,
            trusted_base=['clang 18 front end and LLVM passes sroa/early-cse/simplifycfg', 'engine/*.py verification condition generator', 'z3 / cvc5'],
            bounded_standin=dict(label='BOUNDED: executable oracle on sampled inputs, never counted as proved', for_undecided=[n for n, e in errors] + [o['name'] for o in undec], driver=getattr(P, 'NATIVE', None), **({'stats': nat['stats'], 'samples': nat['samples'][:5], 'known_finding_hits': len(nkn)} if nat else {})),
            evaluations=(nat or {}).get('stats', {}).get('evaluations', 0), distinct_nontrivial=(nat or {}).get('stats', {}).get('distinct', 0), rule=getattr(P, 'RULE', 'native driver: pseudo-random and enumerated inputs, non-trivial when they differ by hash'), samples=(nat or {}).get('samples', [])[:5] or ['-']),
        assumptions=sorted(f'{k} (used {v} times)' for k, v in assumed.items()) + list(getattr(P, 'ASSUMPTIONS', [])))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f'{pid}: {len(disch)}/{len(obls) + len(errors)} obligations discharged in {nproved}/{len(proofs)} proofs, {len(failed)} failed, {len(undec) + len(errors)} undecided; native {nat["stats"] if nat else None}; {ev["wall_s"]} s')
    for l in lines: print(l)
    return 1 if viol else 0

def fnk(name, key): return key.startswith('obl:') and key[4:] in name.replace(' ', '_')
if __name__ == '__main__': main()
