"""check driver:  run.py <check id> [quick|thorough] [--only harness] [-v]"""
import json, multiprocessing as mp, os, queue, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if os.path.isdir(_vt) and _vt not in sys.path:
    sys.path.append(_vt)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')


def known_ids():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def worker(world, pkg, h, cfg, known, seed, deadline, scale, path, verbose):
    from vlib import harness
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        log = (lambda s: print(s, flush=True)) if verbose else None
        r = harness.run_symbolic(h, cfg, world, pkg, known, seed, deadline, scale, log)
    except BaseException as e:
        r = dict(harness=h.name, cfg=cfg, crashed=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-1500:])
    with open(path + '.tmp', 'w') as f:
        json.dump(r, f, default=str)
    os.rename(path + '.tmp', path)


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    cid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
        args = [a for a in args if a not in only]
        tier = args[1] if len(args) > 1 and args[1] in ('quick', 'thorough') else 'quick'
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vlib import harness, host, realbuild, sym
    import tempfile, shutil
    hs = harness.load(cid)
    kf = known_ids()
    known = [f['id'] for f in kf['findings']]
    mine = {f['id']: f for f in kf['findings'] if f['property'] == cid}
    budget = 1.0 if tier == 'quick' else 6.0
    total = 600 if tier == 'quick' else 5400
    deadline = t0 + total
    try:
        world = host.World()
        # race checks read the parallel regions as the compiler lowers them
        world.load_ir(REPO, extra=('-fopenmp',) if any(h.omp for h in hs) else ())
        pkg = world.import_package(REPO)
    except Exception as e:
        print(f'ERROR {cid}: cannot load the code symbolically: {type(e).__name__}: {e}')
        traceback.print_exc()
        write_evidence(cid, tier, seed, [], [], [], t0, {'error': str(e)})
        sys.exit(3)
    load_s = time.time() - t0
    jobs = []
    for h in hs:
        if h.tier == 'thorough' and tier == 'quick':
            continue
        if only and h.name not in only:
            continue
        for c in list(h.configs) + (list(h.thorough) if tier == 'thorough' else []):
            jobs.append((h, c))
    tmp = tempfile.mkdtemp(prefix='vf_run_')
    results, running, todo = [], [], list(enumerate(jobs))
    ctx = mp.get_context('fork')
    ncpu = min(8, os.cpu_count() or 1)
    done_at = {}
    while todo or running:
        while todo and len(running) < ncpu:
            i, (h, c) = todo.pop(0)
            path = os.path.join(tmp, f'{i}.json')
            p = ctx.Process(target=worker, args=(world, pkg, h, c, known, seed, deadline, budget, path, verbose))
            p.start()
            running.append((p, h, c, path, time.time()))
        time.sleep(0.02)
        for ent in list(running):
            p, h, c, path, ts = ent
            over = time.time() - ts > h.time*budget*1.5 + 45 or time.time() > deadline + 30
            if p.is_alive() and not over:
                continue
            if p.is_alive():
                p.kill()
            p.join()
            running.remove(ent)
            if os.path.exists(path):
                with open(path) as f:
                    results.append((h, c, json.load(f)))
            else:
                results.append((h, c, dict(harness=h.name, cfg=c, crashed='killed (time or memory)')))
            if verbose:
                report(results[-1])
    shutil.rmtree(tmp, ignore_errors=True)
    code = conclude(cid, tier, seed, hs, results, mine, known, t0, load_s, verbose)
    sys.stdout.flush()
    os._exit(code)


def report(r):
    h, c, d = r
    if 'crashed' in d:
        print(f'  {h.name} {c}: CRASHED {d["crashed"]}\n{d.get("tb","")}')
        return
    print(f'  {h.name} {c}: paths {d["paths"]} obl {d["obligations"]} proved {d["proved"]} violated {len(d["violated"])} '
          f'unknown {len(d["unknown"])} unsup {len(d["unsupported"])} wit {d["witnessed"]} {d["wall"]}s {d["by"]}')
    for v in d['violated'][:4]:
        print('     V', v['label'], v['goal'][:160], v['envs'][:1])
    for v in d['unknown'][:4]:
        print('     ?', v)
    for v in d['unsupported'][:3]:
        print('     U', v)


def conclude(cid, tier, seed, hs, results, mine, known, t0, load_s, verbose):
    from vlib import realbuild
    viol, cands, notes = [], [], []
    for h, c, d in results:
        for v in d.get('violated', []):
            cands.append((h, c, v))
    builds = {}

    def build(mode):
        if mode not in builds:
            builds[mode] = realbuild.Build(REPO, mode)
        return builds[mode]
    found = {}
    try:
        tried = {}
        for h, c, v in cands:
            k = (h.name, json.dumps(c, default=str))
            if k in found or tried.get(k, 0) >= 6:
                continue
            tried[k] = tried.get(k, 0) + 1
            for env in v['envs']:
                spec = dict(check=cid, harness=h.name, cfg=c, env=env, known=known)
                try:
                    r = build('asan' if v['fault'] or h.asan else 'tsan' if 'race' in v['label'] else '').run(spec)
                except Exception as e:
                    r = {'status': 'build-failed', 'detail': str(e)[:500]}
                if verbose:
                    print('   replay', h.name, v['label'], r)
                if r['status'] in ('failed', 'exception') or (r['status'] == 'crash' and (v['fault'] or r.get('sanitizer') or r.get('rc', 0) < 0)):
                    found[k] = (h, c, v, spec, r)
                    break
            else:
                notes.append(dict(harness=h.name, cfg=c, label=v['label'], goal=v['goal'], replay=r))
    finally:
        for b in builds.values():
            b.close()
    known_hits = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    for h, c, v, spec, r in found.values():
        if h.finding and h.finding in mine:
            known_hits.append((h.finding, mine[h.finding], r))
            continue
        p = os.path.join(VERIF, 'evidence', 'replays', f'{cid}-{h.name}-{len(viol)}.json')
        with open(p, 'w') as f:
            json.dump(dict(spec=spec, violated=v['label'], goal=v['goal'], engine=v['engine'], real=r), f, indent=1, default=str)
        viol.append((h, c, v, r, p))
    for fid, ent, r in sorted({k[0]: k for k in known_hits}.values(), key=lambda k: k[0]):
        print(f'KNOWN-FINDING: property={cid} {ent["what"]}')
    for h, c, v, r, p in viol:
        print(f'VIOLATION property={cid} replay={p}')
        print(f'  harness {h.name} cfg {c}: {v["label"]}; real run: {r["status"]} {r.get("failed") or r.get("exc") or r.get("detail") or ""}')
    inconclusive = []
    total = dict(paths=0, obligations=0, proved=0)
    for h, c, d in results:
        if 'crashed' in d:
            inconclusive.append(f'{h.name} {c}: {d["crashed"]}')
            continue
        for k in total:
            total[k] += d[k]
        inconclusive += [f'{h.name} {c}: {l}: {w}' for l, w in d['unknown']]
        inconclusive += [f'{h.name} {c}: {u}' for u in d['unsupported']]
    inconclusive += [f'unreproduced model: {n}' for n in notes]
    write_evidence(cid, tier, seed, results, viol, inconclusive, t0, dict(load_s=round(load_s, 1), known=[k[0] for k in known_hits]))
    dec = total['proved']
    print(f'{cid} {tier}: {len(results)} harness runs, {total["paths"]} paths, {total["obligations"]} obligations, '
          f'{total["proved"]} discharged, {len(viol)} violations, {len(known_hits)} known, {len(inconclusive)} inconclusive, {time.time()-t0:.1f}s')
    for i in inconclusive[:6]:
        print('  inconclusive:', i[:300])
    if viol:
        return 1
    if dec == 0:
        print('ERROR: nothing could be decided')
        return 3
    return 0


def write_evidence(cid, tier, seed, results, viol, inconclusive, t0, extra):
    st, by, fns, pys = {}, {}, set(), set()
    runs, samples = [], []
    for h, c, d in results:
        if 'crashed' in d:
            runs.append(dict(harness=h.name, cfg=str(c), crashed=d['crashed']))
            continue
        for k, v in d['stats'].items():
            st[k] = round(st.get(k, 0) + v, 2)
        for k, v in d['by'].items():
            by[k] = by.get(k, 0) + v
        fns |= set(d['functions'])
        pys |= set(d['python'])
        runs.append(dict(harness=h.name, cfg=str(c), paths=d['paths'], infeasible=d['aborted'], obligations=d['obligations'],
                         discharged=d['proved'], violated=len(d['violated']), unknown=len(d['unknown']),
                         unsupported=len(d['unsupported']), witnessed_paths=d['witnessed'], all_paths=d['complete'], wall_s=d['wall'],
                         bound=h.bound or (h.fn.__doc__ or '').strip()))
        for l, (a, b, w) in list(d['labels'].items())[:3]:
            samples.append(f'{h.name} {c}: {l}: {a}/{b} discharged, reachable={bool(w)}')
    ob = sum(r.get('obligations', 0) for r in runs)
    di = sum(r.get('discharged', 0) for r in runs)
    mod = sys.modules.get('checks.' + cid.lower())
    ev = dict(property=cid, tier=tier, seed=seed, level='other',
              coverage=dict(
                  explanation='Symbolic execution of the current sources (C++ through clang LLVM IR, Python through its own interpreter with '
                              'numpy/_batoid stand-ins); every path condition and assertion is decided by z3/cvc5 over the reals. '
                              'discharged = negation unsatisfiable on that path for all values within the bounds.',
                  obligations=ob, discharged=di, paths=sum(r.get('paths', 0) for r in runs),
                  vacuous_harnesses=[r['harness'] + ' ' + r['cfg'] for r in runs if r.get('obligations') and not r.get('witnessed_paths')],
                  functions_encoded=sorted(fns), python_functions=sorted(pys), solver=st, decided_by=by, runs=runs,
                  inconclusive=inconclusive[:60], inconclusive_count=len(inconclusive), samples=samples[:40], **extra),
              assumptions=COMMON + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{cid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


COMMON = [
    'doubles are modelled as mathematical reals extended with nan and +-inf; rounding error is outside the claim',
    'numpy, galsim and the C++ standard library are replaced by models of their documented behaviour',
    'sizes (rays, surfaces, grid points) are those listed per harness; larger ones are outside the claim',
]

if __name__ == '__main__':
    main()
