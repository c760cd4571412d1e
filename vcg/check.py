"""check.py PROPERTY [quick|thorough]

Deductive check of one property.  Every run:
  1. compiles the contract translation units of the property against /repo's current headers,
     once to LLVM IR (for the verifier) and once natively (for replay);
  2. generates the obligations of every contract function from the IR and discharges them (z3, cvc5),
     escalating solver effort where an obligation is not discharged at once;
  3. runs the same contracts natively: shows the preconditions are satisfiable (non-vacuity), replays the
     solver's counterexamples and searches for a failing input where an obligation failed;
  4. writes evidence/<property>.json.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, resource
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build, irparse, execute, solve, props
from engine import Obl
import z3

NPROC = max(2, min(8, os.cpu_count() or 4))
T0 = time.time()


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)


# ------------------------------------------------------------------ worker: verify one harness
def fmt_model_value(v, kind):
    if kind == 'bool': return '1' if z3.is_true(v) else '0'
    if z3.is_int_value(v): return str(v.as_long())
    if z3.is_rational_value(v): return repr(v.numerator_as_long() / v.denominator_as_long())
    if z3.is_algebraic_value(v): return repr(float(v.approx(20).as_fraction()))
    if z3.is_fp(v):
        try:
            if z3.is_fprm(v): return None
            s = z3.simplify(z3.fpToIEEEBV(v))
            import struct
            return repr(struct.unpack('<d', struct.pack('<Q', s.as_long()))[0])
        except Exception: return None
    return None


def model_inputs(e, m):
    """the harness inputs of a solver model, as replay lines"""
    out = []
    for nm, kind, t in e.inputs:
        try:
            if kind == 'arr':
                arr, n = t
                k = m.eval(n, model_completion=True).as_long()
                if k > 64: return None
                for i in range(k):
                    v = fmt_model_value(m.eval(z3.Select(arr, i), model_completion=True), 'x')
                    if v is None: return None
                    out.append(f'{nm}={v}')
            else:
                v = fmt_model_value(m.eval(t, model_completion=True), kind)
                if v is None: return None
                out.append(f'{nm}={v}')
        except Exception:
            return None
    return out


def linkage(irfile, cfg):
    """//@once REGEX: functions of /repo's headers that several sources of a program may define (one obligation each, decided on the IR)"""
    f = re.sub(r'(\.cpp)?\.(o\.ll|ir)$', '.ll', irfile)
    if 'once' not in cfg or not os.path.exists(f): return []
    out = []
    for l in subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(x for x in open(f) if x.startswith('define')), capture_output=True, text=True).stdout.split('\n'):
        m = re.search(r' @(%s)\(' % cfg['once'], l)
        if m: out.append(Obl('link', f'{m.group(1)} may be defined by several sources', 'linkage', [], z3.BoolVal(bool(re.match(r'define (linkonce_odr|linkonce|weak_odr|internal|available_externally) ', l)))))
    return out


def verify(irfile, src, h, effort, outfile):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    cfg = solve.parse_cfg(src)
    M = irparse.parse_module(open(irfile).read())
    res = {'harness': h, 'effort': effort}
    t0 = time.time()
    e = execute.make(M, cfg, {'trace': 0, 'effort': effort})
    e.lemmas = []
    try:
        e.run_harness(h)
    except execute.Unsupported as x:
        res.update(status='unsupported', why=f'{x} at {e.loc(e.curdbg)}')
    except RecursionError:
        res.update(status='unsupported', why='recursion')
    except Exception as x:
        import traceback
        res.update(status='unsupported', why=f'internal: {type(x).__name__} {x} at {e.loc(e.curdbg)} {traceback.format_exc()[-600:]}')
    else:
        res['gen_s'] = time.time() - t0
        obls = list(e.obls) + linkage(irfile, cfg)
        solve.discharge(e, obls, budget=0.5 * effort, cvc5=effort >= 2)
        lem = []
        for fam, nm, hyp, goal in e.S.lemma_obligations():
            lem.append((fam, Obl('lemma', f'{fam}: {nm}', 'specs.py', hyp, goal)))
        for _, o in lem:
            o.status, o.backend, o.time = solve.attempt([], o, 2.0, True)
        bad = [o for o in obls if o.status != 'proved']
        badl = [o for _, o in lem if o.status != 'proved']
        # vacuity: for every postcondition label some occurrence must not be provably unreachable
        ax = e.axioms(); vac = []
        by = {}
        for o in obls:
            if o.kind == 'post': by.setdefault(o.label, []).append(o)
        for lab, os_ in by.items():
            live = False
            for o in os_:
                if o.pc is None or z3.is_false(o.goal): live = True; break
                s = z3.Solver(); s.set('smt.mbqi', False); s.set('smt.auto_config', False); s.set('timeout', 1500); s.set('rlimit', 400000)
                s.push()
                for f in ax: s.add(f)
                for f in o.pc: s.add(f)
                if s.check() != z3.unsat: live = True; break
            if not live: vac.append(lab)
        kinds = {}
        for o in obls: kinds[o.kind] = kinds.get(o.kind, 0) + 1
        back = {}
        for o in obls: back[o.backend] = back.get(o.backend, 0) + 1
        res.update(status='done', n=len(obls), bad=len(bad) + len(badl), kinds=kinds, backends=back, labels=sorted(by), vacuous=vac,
                   solver_s=sum(o.time for o in obls) + e.qf.t + e.full.t, lemmas=sorted(f'{o.label}' for _, o in lem),
                   functions=sorted({f'{f} ({fl.split("/")[-1]}:{ln})' for f, fl, ln in e.funcs_seen}), trusted=sorted(e.trusted))
        fails = []
        seen = set()
        for o in bad + badl:
            key = (o.kind, o.label, o.loc)
            inp = model_inputs(e, o.model) if o.model is not None else None
            if key in seen and inp is None: continue
            seen.add(key)
            if len(fails) < 12:
                fails.append({'kind': o.kind, 'label': o.label, 'loc': o.loc, 'status': o.status, 'goal': str(o.goal)[:600], 'inputs': inp})
        res['fails'] = fails
    res['wall_s'] = time.time() - t0
    tmp = outfile + '.t'
    json.dump(res, open(tmp, 'w'))
    os.rename(tmp, outfile)


class Pool:
    """forked tasks with individual deadlines"""

    def __init__(s, n): s.n = n; s.q = []; s.run = {}; s.done = {}

    def add(s, key, fn, args, tmo, out): s.q.append((key, fn, args, tmo, out))

    def step(s):
        for k in list(s.run):
            p, dl, out = s.run[k]
            if not p.is_alive() or time.time() > dl:
                if p.is_alive(): p.kill()
                p.join()
                try: s.done[k] = json.load(open(out))
                except Exception: s.done[k] = {'status': 'timeout' if time.time() > dl else f'died (exit {p.exitcode})', 'why': 'no answer'}
                del s.run[k]
        while s.q and len(s.run) < s.n:
            key, fn, args, tmo, out = s.q.pop(0)
            p = mp.get_context('fork').Process(target=fn, args=args)
            p.start()
            s.run[key] = (p, time.time() + tmo, out)

    def wait(s, stop=None):
        while s.q or s.run:
            s.step()
            if stop and stop(): s.kill(); break
            time.sleep(0.03)

    def kill(s):
        s.q = []
        for k in list(s.run):
            p, dl, out = s.run.pop(k)
            p.kill(); p.join()


# ------------------------------------------------------------------ worker: native contract run
def native(binary, h, n, seed, secs, replay, outfile, scratch):
    cmd = [binary, h, str(n), str(seed), str(secs)] + ([replay] if replay else [])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=6000', UBSAN_OPTIONS='print_stacktrace=1')
    res = {'status': 'ok'}
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs + 20, env=env, cwd=scratch)
        o = p.stdout + p.stderr
        m = re.search(r'VF-FAIL harness=(\S+) label=(.*)\nVF-INPUT\n((?:.*\n)*?)VF-END', o)
        if m and replay and re.search(r'allocation-size-too-big|out-of-memory|requested allocation size|bad_alloc|length_error|rss limit', o):
            res = {'status': 'ok', 'runs': 1, 'accepted': 0, 'reached': {}}      # a candidate too large to run decides nothing
        elif m:
            res = {'status': 'fail', 'label': m.group(2), 'inputs': m.group(3).splitlines(), 'output': o[-3000:]}
        elif p.returncode == 0:
            k = re.search(r'runs=(\d+) accepted=(\d+) rejected=(\d+)', o)
            res.update(runs=int(k.group(1)), accepted=int(k.group(2)), reached={b: int(a) for a, b in re.findall(r'VF-REACHED (\d+) (.*)', o)})
        else:
            res = {'status': 'crash', 'label': f'process died (exit {p.returncode})', 'output': o[-3000:], 'inputs': None}
    except subprocess.TimeoutExpired:
        res = {'status': 'hang', 'label': 'no answer within the time limit', 'inputs': None, 'output': ''}
    tmp = outfile + '.t'
    json.dump(res, open(tmp, 'w'))
    os.rename(tmp, outfile)


def compile_task(kind, src, tmp, out):
    try:
        defs = props.DEFS.get(os.path.basename(src), ())
        if kind == 'ir':
            cfg = solve.parse_cfg(src)
            t = build.compile_ir(src, tmp, defs=defs, ctx_opaque=cfg['opaque'])
            open(os.path.join(tmp, os.path.basename(src) + '.ir'), 'w').write(t)
            hs = re.findall(r'^define [^\n]*@(h_\w+)\(', t, re.M)
            r = {'status': 'ok', 'harnesses': hs}
        else:
            build.compile_native(src, os.path.join(tmp, os.path.basename(src) + '.bin'), defs=defs)
            r = {'status': 'ok'}
    except build.BuildError as x:
        r = {'status': 'error', 'why': str(x)[-3000:]}
    json.dump(r, open(out + '.t', 'w')); os.rename(out + '.t', out)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    tmp = tempfile.mkdtemp(prefix='vf_')
    code = 1
    try:
        code = run(pid, tier, seed, P, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(pid, tier, seed, P, tmp):
    thorough = tier == 'thorough'
    limit = 1800 if thorough else 780
    left = lambda: limit - (time.time() - T0)
    srcs = [os.path.join(ROOT, 'contracts', s) for s in P['src']]
    # ---- build
    pool = Pool(NPROC)
    for s in srcs:
        b = os.path.basename(s)
        for k in ('ir', 'native'):
            pool.add((k, b), compile_task, (k, s, tmp, f'{tmp}/{b}.{k}.json'), 300, f'{tmp}/{b}.{k}.json')
    pool.wait()
    errs = {k: v for k, v in pool.done.items() if v['status'] != 'ok'}
    if errs:
        return report(pid, tier, seed, P, [], {}, [{'harness': f'{k[1]}', 'kind': 'extraction', 'label': f'the contract unit {k[1]} compiles against the code ({k[0]})', 'loc': '', 'status': v['status'], 'detail': v.get('why', '')} for k, v in errs.items()], None, tmp)
    tasks = []
    for s in srcs:
        b = os.path.basename(s)
        want = P['src'][b]
        for h in pool.done[('ir', b)]['harnesses']:
            if want in (None, '') or re.fullmatch(want, h[2:]): tasks.append((s, b, h))
    if not tasks: raise SystemExit('no contracts')
    log(f'{pid}: {len(tasks)} contract functions from {len(srcs)} units compiled against {build.REPO}')
    nsec = 12 if thorough else 3
    vp = Pool(NPROC - 1); npool = Pool(max(1, NPROC // 2))
    order = sorted(tasks, key=lambda t: -props.COST.get(t[2][2:], 0))
    for s, b, h in order:
        vp.add((b, h), verify, (f'{tmp}/{b}.ir', s, h, 1, f'{tmp}/{b}.{h}.v1'), 300, f'{tmp}/{b}.{h}.v1')
    for s, b, h in order:
        npool.add((b, h), native, (f'{tmp}/{b}.bin', h[2:], 10**9, seed, nsec, None, f'{tmp}/{b}.{h}.n', tmp), nsec + 40, f'{tmp}/{b}.{h}.n')
    found = None

    def concrete(d):
        for (b, h), r in d.items():
            if r.get('status') in ('fail', 'crash', 'hang'): return (b, h, r)
        return None
    while npool.q or npool.run or vp.q or vp.run:
        npool.step(); vp.step()
        found = concrete(npool.done)
        if found: break
        time.sleep(0.03)
    if found:
        # the contract already fails on a concrete input: let the verifier name the obligation of that contract that fails
        npool.kill()
        key = found[:2]
        vp.q = [x for x in vp.q if x[0] == key]
        for k in list(vp.run):
            if k != key: p, dl, out = vp.run.pop(k); p.kill(); p.join()
        t1 = time.time()
        while (vp.q or vp.run) and time.time() - t1 < 90: vp.step(); time.sleep(0.03)
    res = dict(vp.done)
    nat = dict(npool.done)

    def failing():
        return [(s, b, h) for s, b, h in tasks if (b, h) in res and (res[(b, h)].get('status') != 'done' or res[(b, h)].get('bad') or not res[(b, h)].get('n'))]
    bad = failing()
    if found and vp.run:
        vp.kill()
    # ---- an obligation failed: replay the solver's counterexamples, search for a failing input, raise the effort
    eff = 1
    reach = lambda x: res[x[1:]].get('status') != 'unsupported'
    while bad and not found and eff < 3 and left() > 60 and (eff == 1 or any(reach(x) for x in bad)):
        eff += 1
        for s, b, h in bad:
            r = res[(b, h)]
            log(f'  {h[2:]}: ' + (f"{r.get('bad')} obligation(s) open" if r.get('status') == 'done' else f"{r.get('status')} {r.get('why', '')}") + f' -> effort {eff}')
        vp = Pool(NPROC - 2); npool = Pool(2 if len(bad) > 2 else 4)
        rp = 0
        for s, b, h in bad:
            for f in res[(b, h)].get('fails', []):
                if f.get('inputs') and rp < 40:
                    rp += 1
                    rf = f'{tmp}/replay{eff}_{rp}'
                    open(rf, 'w').write('\n'.join(f['inputs']) + '\n')
                    npool.add((b, h, 'r', eff, rp), native, (f'{tmp}/{b}.bin', h[2:], 1, seed, 5, rf, f'{rf}.out', tmp), 30, f'{rf}.out')
            for j in range(3):
                o = f'{tmp}/{b}.{h}.s{eff}{j}'
                npool.add((b, h, 's', eff, j), native, (f'{tmp}/{b}.bin', h[2:], 10**9, seed + 1000 * eff + j, 10 if len(bad) > 3 else 20, None, o, tmp), 60, o)
            if reach((s, b, h)): vp.add((b, h), verify, (f'{tmp}/{b}.ir', s, h, eff, f'{tmp}/{b}.{h}.v{eff}'), max(30, min(200 * eff, left() - 20)), f'{tmp}/{b}.{h}.v{eff}')
        while (npool.q or npool.run or vp.q or vp.run) and left() > 15:
            npool.step(); vp.step()
            found = concrete({k[:2]: v for k, v in npool.done.items() if v.get('status') in ('fail', 'crash')})
            if found: break
            still = [x for x in bad if x[1:] not in vp.done or vp.done[x[1:]].get('status') != 'done' or vp.done[x[1:]].get('bad')]
            if not still: break
            time.sleep(0.03)
        npool.kill(); vp.kill()
        for k, v in vp.done.items():
            if v.get('status') == 'done' or res[k].get('status') != 'done': res[k] = v
        bad = failing()
    fails = []
    for s, b, h in tasks:
        r = res.get((b, h))
        if r is None: continue
        if r.get('status') == 'unsupported' and nat.get((b, h), {}).get('status') == 'ok' and nat[(b, h)].get('accepted', 0) >= 50:
            # the code left the verifier's reach: the same contract, run on the real code, stands in; bounded, not proved
            r['status'] = 'bounded stand-in (not proved)'
            log(f"  {h[2:]}: outside the verifier's reach ({r.get('why', '')[:200]}); bounded stand-in: {nat[(b, h)]['accepted']}+ random runs of the contract on the real code, no violation")
        elif r.get('status') != 'done':
            fails.append({'harness': h, 'kind': 'generation', 'label': f'obligations of contract {h[2:]} can be generated and discharged', 'loc': '', 'status': r.get('status'), 'detail': r.get('why', '')})
        else:
            if not r['n'] or not r['labels']:
                fails.append({'harness': h, 'kind': 'vacuity', 'label': f'contract {h[2:]} generates postcondition obligations', 'loc': '', 'status': 'vacuous'})
            for l in r['vacuous']:
                fails.append({'harness': h, 'kind': 'vacuity', 'label': f'postcondition reachable: {l}', 'loc': '', 'status': 'vacuous'})
            for f in r['fails']: fails.append(dict(f, harness=h))
    return report(pid, tier, seed, P, [res[k] | {'unit': k[0], 'harness': k[1]} for k in res], nat, fails, found, tmp)


def known(pid):
    r = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError: pass
    return r


def report(pid, tier, seed, P, res, nat, fails, found, tmp):
    ob = sum(r.get('n', 0) for r in res)
    openn = sum(r.get('bad', 0) for r in res)
    kinds, back = {}, {}
    for r in res:
        for k, v in r.get('kinds', {}).items(): kinds[k] = kinds.get(k, 0) + v
        for k, v in r.get('backends', {}).items(): back[str(k)] = back.get(str(k), 0) + v
    funcs = sorted({f for r in res for f in r.get('functions', [])})
    trusted = sorted({t for r in res for t in r.get('trusted', [])})
    lemmas = sorted({l for r in res for l in r.get('lemmas', [])})
    violated = bool(found or fails)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    accepted = sum(v.get('accepted', 0) for v in nat.values())
    unreached = []
    for r in res:
        k = (r.get('unit'), r.get('harness'))
        if k in nat and nat[k].get('status') == 'ok':
            unreached += [f'{r["harness"][2:]}: {l}' for l in r.get('labels', []) if l not in nat[k]['reached']]
    bounded = [r['harness'][2:] for r in res if str(r.get('status', '')).startswith('bounded')]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'wall_s': round(time.time() - T0, 2), 'violations': int(violated),
          'coverage': {'obligations': ob + len(lemmas), 'discharged': ob - openn + len(lemmas) if not openn else ob + len(lemmas) - openn,
                       'checker_cmd': f'python3-vt /verif/vcg/check.py {pid} {tier}',
                       'trusted_base': ['clang 18 front end and the LLVM passes listed in vcg/build.py (IR semantics = source semantics)',
                                        'the obligation generator in /verif/vcg', 'z3 / cvc5'] + trusted,
                       'contracts': [{'contract': r.get('harness', '?')[2:], 'unit': r.get('unit'), 'obligations': r.get('n', 0), 'open': r.get('bad', 0), 'effort': r.get('effort'), 'status': r.get('status'),
                                      'solver_s': round(r.get('solver_s', 0), 2)} for r in res],
                       'functions_under_contract': funcs[:150], 'obligation_kinds': kinds, 'discharged_by': back, 'spec_lemmas_proved': lemmas,
                       'native_contract_runs': sum(v.get('runs', 0) for v in nat.values()), 'native_runs_meeting_preconditions': accepted, 'labels_not_reached_natively': unreached},
          'assumptions': P.get('assumptions', []) + [f'contract {b}: NOT proved, outside the reach of the verifier on this tree; bounded stand-in by random runs of the contract' for b in bounded]}
    if bounded:
        ev['level'] = 'other'
        ev['coverage']['explanation'] = 'some contracts were outside the reach of the verifier on this tree and were only run natively on random inputs: ' + ', '.join(bounded)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    kf = known(pid)
    if not violated:
        log(f'{pid}: {ob} obligations discharged {back}, {len(lemmas)} specification lemmas, {len(funcs)} functions of /repo under contract; native runs meeting the preconditions: {accepted}')
        for m, what in kf: print(f'KNOWN-FINDING: property={pid} {what}')
        return 0
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    rp = os.path.join(ROOT, 'replay', pid + '.txt')
    with open(rp, 'w') as f:
        f.write(f'property {pid}: {P.get("title", "")}\n')
        if found:
            b, h, r = found
            f.write(f'failing input found: contract {h[2:]} of contracts/{b}\nviolated: {r.get("label")}\ninput:\n')
            f.write('\n'.join(r.get('inputs') or ['(none recorded)']) + '\n')
            f.write(f'\nreplay: build contracts/{b} natively (vcg/build.py compile_native) and run  BIN {h[2:]} 1 1 10 <file with the input lines>\n\n{r.get("output", "")}\n')
        for x in fails:
            f.write(f'failed obligation: contract {x["harness"]} [{x["kind"]}] {x["label"]} at {x["loc"]}: verifier says {x["status"]}\n')
            if x.get('goal'): f.write('   goal: ' + x['goal'].replace('\n', ' ') + '\n')
            if x.get('inputs'): f.write('   candidate counterexample: ' + ' '.join(x['inputs'])[:800] + '\n')
            if x.get('detail'): f.write('   ' + str(x['detail'])[:3000] + '\n')
    for x in fails[:8]:
        log(f'  open obligation: {x["harness"]} [{x["kind"]}] {x["label"]} at {x["loc"]} ({x["status"]}) {str(x.get("detail", ""))[:300]}')
    if found:
        log(f'  failing input in contract {found[1][2:]}: {found[2].get("label")}: ' + ' '.join(found[2].get('inputs') or [])[:300])
        print(f'VIOLATION property={pid} replay={rp}')
    else:
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
    return 1


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
