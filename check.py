#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code:  check.py C01

exit 0: held for every input within the bounds
exit 1: a counterexample that replays against the real code (VIOLATION line)
exit 2: no verdict (build failure, solver limit, unreachable harness part, ...)
"""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, time
import jobs as CFG

V = os.path.dirname(os.path.abspath(__file__))
TARGET = os.environ.get('VERIF_TARGET', V + '/target')
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def lit(path):
    """reach labels the harness declares: (label, thorough-only)"""
    return re.findall(r'sym::reach\("([^"]*)"\)', open(path).read())


def native(entry, args, inputs):
    """runs the harness natively on concrete inputs: (rc, obs list, last line)"""
    exe = TARGET + '/replay/debug/replay'
    a = [exe, entry, ','.join(map(str, args)), ','.join(inputs)]
    try:
        r = sh(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd='/')
    except subprocess.TimeoutExpired:
        return 99, [], 'native run did not end within 60 s'
    out = r.stdout.decode(errors='replace').splitlines()
    obs = [l[4:] for l in out if l.startswith('obs ')]
    last = next((l for l in reversed(out) if l.startswith('FAILED')), out[-1] if out else '')
    if r.returncode < 0:
        last = 'FAILED killed by signal %d' % -r.returncode
    return r.returncode, obs, last


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CFG.PROPS[prop]
    mod = prop.lower()
    work = '%s/work/%s' % (V, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + '/out')
    os.makedirs(V + '/evidence', exist_ok=True)
    evf = '%s/evidence/%s.json' % (V, prop)
    vf = '%s/evidence/%s.violation.json' % (V, prop)
    for f in (evf, vf):
        if os.path.exists(f):
            os.remove(f)
    budget = 840 if tier == 'quick' else 6 * 3600
    # build
    env = dict(os.environ, VERIF_TARGET=TARGET)
    if not os.path.exists(TARGET + '/engine/release/symex') or not os.environ.get('VERIF_SKIP_ENGINE'):
        if sh(['bash', V + '/tools/build_engine.sh'], env=env).returncode:
            log('engine build failed')
            return 2
    ll = work + '/m.ll'
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, ['bash', V + '/tools/build_ll.sh', ll, mod], env=env)
        b = ex.submit(sh, ['bash', V + '/tools/build_replay.sh', mod], env=env)
        if a.result().returncode or b.result().returncode:
            log('building /repo with the harnesses failed')
            return 2
    t_build = time.time() - T0
    # jobs
    js = [j for j in CFG.expand(cfg) if tier == 'thorough' or j['tier'] == 'quick']
    js.sort(key=lambda j: -j['cost'])
    with open(work + '/jobs.tsv', 'w') as f:
        for j in js:
            f.write('%s\t%s\t%s\t%d\n' % (j['id'], j['entry'], ','.join(map(str, j['args'])), j['secs']))
    elog = open(work + '/symex.log', 'w')
    nproc = min(8, os.cpu_count() or 1)
    env['SYMEX_MEM_GB'] = str(CFG.MEM_GB if nproc > 4 else 6)
    p = subprocess.Popen([TARGET + '/engine/release/symex', ll, work + '/jobs.tsv', work + '/out', str(nproc)],
                         stdout=elog, stderr=elog, env=env, start_new_session=True)
    res, violations, errors, validated, samples, known = {}, [], [], 0, [], []
    timed_out = False

    def take(j, r):
        nonlocal validated
        res[j['id']] = r
        if r['status'] == 'violation':
            rc, obs, last = native(r['entry'], r['args'], r['inputs'])
            if rc in (0, 4, 5):
                errors.append('%s: counterexample (%s) does not reproduce natively: %s' % (j['id'], r['msg'], last))
                return
            v = dict(property=prop, harness=r['entry'], args=r['args'], inputs=r['inputs'], kind=r['kind'], message=r['msg'],
                     backtrace=r['backtrace'], native=last,
                     replay='VERIF_TARGET=%s; tools/replay.sh %s' % (TARGET, vf))
            violations.append(v)
        elif r['status'] != 'ok':
            errors.append('%s: %s' % (j['id'], r['msg']))

    while True:
        done = p.poll() is not None
        for j in js:
            if j['id'] in res:
                continue
            f = '%s/out/%s.json' % (work, j['id'])
            if os.path.exists(f):
                take(j, json.load(open(f)))
        if violations or done:
            break
        if time.time() - T0 > budget:
            timed_out = True
            break
        time.sleep(0.1)
    if p.poll() is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    p.wait()
    if timed_out:
        errors.append('time budget of %d s used up' % budget)
    if not violations:
        for j in js:
            if j['id'] not in res:
                errors.append('%s: no result' % j['id'])
    # the engine's sample runs, replayed against the real code
    if not violations:
        todo = []
        for j in js:
            r = res.get(j['id'])
            if r and r['status'] == 'ok':
                for s in r['samples'][:4]:
                    todo.append((j, r, s))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for (j, r, s), (rc, obs, last) in zip(todo, ex.map(lambda x: native(x[1]['entry'], x[1]['args'], x[2]['inputs']), todo)):
                # a hash is an uninterpreted function to the engine: such observations cannot be compared
                if rc == 4 and cfg.get('hash_samples'):
                    continue
                if rc == 0 and (obs == s['obs'] or cfg.get('hash_samples')):
                    validated += 1
                    if len(samples) < 12:
                        samples.append(dict(harness=r['entry'], args=r['args'], inputs=s['inputs'], observed=s['obs']))
                elif rc in (3, 99) or rc < 0:
                    # the native run itself breaks the property
                    violations.append(dict(property=prop, harness=r['entry'], args=r['args'], inputs=s['inputs'], kind='native', message=last, native=last, backtrace=[]))
                else:
                    errors.append('%s: symbolic and native run differ on %s (%s)' % (j['id'], s['inputs'], last))
    # vacuity: everything the harnesses mark must have been reached
    reached = {}
    for r in res.values():
        for k, n in r.get('reach', {}).items():
            reached[k] = reached.get(k, 0) + n
    if not violations and not errors:
        for l in lit('%s/harness/src/%s.rs' % (V, mod)):
            if l not in reached and not (tier == 'quick' and l.startswith('thorough')):
                errors.append('never reached: ' + l)
        if not any(r.get('checks', 0) for r in res.values()):
            errors.append('no assertion was evaluated')
    # known findings
    kf = json.load(open(V + '/known_findings.json'))
    for v in list(violations):
        for k in kf.get('known', []):
            if k['property'] == prop and k['harness'] == v['harness'] and k['message'] in v['message'] and k.get('args', v['args']) == v['args']:
                known.append('%s %s' % (v['harness'], k['what']))
                violations.remove(v)
                break
    tot = lambda k: sum(r.get(k, 0) for r in res.values())
    fns = {}
    for r in res.values():
        fns.update(r.get('functions', {}))
    inrepo = sorted({re.sub(r'::h[0-9a-f]{16}$', '', k) for k, f in fns.items() if f.startswith('/repo/')})
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot('paths') + tot('killed'), transitions=tot('instrs'), traces_validated_against_impl=validated,
            samples=samples, explanation='states: symbolic paths explored to their end; transitions: LLVM instructions executed symbolically',
            bounds=cfg['bounds'], outside=cfg.get('outside', ''), jobs=[dict(harness=r['entry'], args=r['args'], status=r['status'], paths=r.get('paths', 0),
                                                     queries=r.get('queries', 0), solver_s=r.get('solver_s', 0), wall_s=r.get('wall_s', 0)) for r in res.values()][:400],
            functions_encoded=inrepo[:400], functions_total=len(fns), branches_forked=tot('forks'), assertions=tot('checks'),
            assertions_symbolic=tot('checks_symbolic'), queries=tot('queries'), queries_sat=tot('sat'), queries_unsat=tot('unsat'),
            queries_unknown=tot('unknown'), query_cache_hits=tot('cache_hits'), solver_s=round(tot('solver_s'), 3), reached=reached,
            build_s=round(t_build, 1), exhaustive=False),
        assumptions=CFG.COMMON + cfg.get('assumptions', []),
        wall_s=round(time.time() - T0, 2), violations=len(violations))
    if errors:
        ev['errors'] = errors
    json.dump(ev, open(evf, 'w'), indent=1)
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        v = violations[0]
        json.dump(v, open(vf, 'w'), indent=1)
        log(json.dumps(v, indent=1))
        print('VIOLATION property=%s replay=%s' % (prop, vf))
        rc = 1
    elif errors:
        for e in errors:
            log('ERROR', e)
        rc = 2
    else:
        print('OK property=%s jobs=%d paths=%d queries=%d solver=%.1fs validated=%d wall=%.0fs' %
              (prop, len(js), tot('paths'), tot('queries'), tot('solver_s'), validated, time.time() - T0))
        rc = 0
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(work, ignore_errors=True)
    return rc


sys.exit(main())
