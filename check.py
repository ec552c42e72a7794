#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY [--tier quick|thorough]

1. every proof unit registered for the property is extracted again from /repo's working tree and handed to the
   deductive verifier (Verus); every obligation must be discharged;
2. the bounded stand-in / replay harness of the property is built from /repo's working tree and run.

exit 0: held; exit 1 + VIOLATION line: broken; exit 2: no answer."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, traceback, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = REPO + '/src/include'
FLAGS = ('-std=gnu++20 -w -O1 -g -fsanitize=address,undefined -fno-sanitize=bool -fsanitize-trap=all '
         '-fno-sanitize-trap=signed-integer-overflow').split()
LIBS = '-labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set -labsl_raw_logging_internal'.split()
PROCS = 6


def build_harness(prop, out):
    srcs = [INC + '/pdaaal/internal/PDA.cpp', INC + '/pdaaal/internal/Reducer.cpp', INC + '/pdaaal/parsing/NfaParser.cpp']
    objs, jobs = [], []
    for i, s in enumerate([os.path.join(HERE, 'bounded', prop + '.cpp')] + srcs):
        o = os.path.join(out, 'o%d.o' % i)
        objs.append(o)
        jobs.append(subprocess.Popen(['g++'] + FLAGS + ['-I' + INC, '-I' + REPO + '/src/pdaaal-bin'] + (['-I' + os.path.join(HERE, 'bounded', 'standin')] if prop in ('A01', 'K01', 'R01', 'V01') else []) + ['-c', s, '-o', o],
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    log = ''
    for j in jobs:
        t, _ = j.communicate()
        if j.returncode: log += t
    if log: return None, log
    exe = os.path.join(out, prop)
    r = subprocess.run(['g++'] + FLAGS + objs + ['-o', exe] + LIBS, capture_output=True, text=True)
    return (exe, '') if r.returncode == 0 else (None, r.stdout + r.stderr)


def run_harness(exe, seed, budget):
    try:
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
        r = subprocess.run([exe, '--seed', str(seed), '--budget', str(budget)], capture_output=True, text=True, errors='replace',
                           timeout=budget * 3 + 120, env=env)
        return r.returncode, r.stdout + r.stderr[-4000:]
    except subprocess.TimeoutExpired:
        return 124, 'the harness did not finish within its time limit'


def run_bounded(exe, seed, budget, procs):
    with cf.ThreadPoolExecutor(procs) as ex:
        return list(ex.map(lambda i: run_harness(exe, seed * 1000 + i if i else seed, budget), range(procs)))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    out = tempfile.mkdtemp(prefix='vchk_%s_' % prop)
    try:
        rc = decide(prop, tier, seed, t0, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, t0, out):
    from proofs import registry
    info = registry.INFO[prop]
    budget = 14 if tier == 'quick' else 240
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_harness, prop, out)
        fp = ex.submit(registry.run_units, prop, REPO, out, tier)
        exe, log = fb.result()
        bres = run_bounded(exe, seed, budget, PROCS) if exe else None
        units = fp.result()
    failed_units = [u for u in units if u['status'] == 'failed']
    undecided = [u for u in units if u['status'] == 'undecided']
    rep = os.path.join(HERE, 'replay')
    os.makedirs(rep, exist_ok=True)
    replay = os.path.join(rep, prop + '.txt')
    bad = [(c, o) for c, o in (bres or []) if c != 0]
    extra = 0
    if failed_units and exe and not bad:
        # search harder for an input that shows the failed obligation on the real code
        more = run_bounded(exe, seed + 101, 60 if tier == 'quick' else 300, 8)
        extra = len(more)
        bad = [(c, o) for c, o in more if c != 0]
        bres += more
    # ------- evidence
    stats = []
    for c, o in (bres or []):
        for l in o.splitlines():
            if l.startswith('STATS '):
                try: stats.append(json.loads(l[6:]))
                except Exception: pass
    areas = {}
    for s in stats:
        for k, v in s.get('areas', {}).items(): areas[k] = areas.get(k, 0) + v
    ev = sum(s['evaluations'] for s in stats)
    dn = sum(s['distinct_nontrivial'] for s in stats)
    ob = sum(u.get('obligations', 0) for u in units)
    di = sum(u.get('discharged', 0) for u in units)
    level = info['level']
    if level == 'proof' and (undecided or not units): level = 'exploration'
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=info['rule'] + ' Counts are summed over %d harness processes with different seeds; distinct counted per process.' % len(bres or []),
               samples=[x for s in stats for x in s.get('samples', [])][:6], areas=areas,
               bounded_stand_in=dict(bound=info['bound'], processes=len(bres or []), budget_s=budget, built=bool(exe)))
    assumptions = list(info.get('assumptions', []))
    if units:
        cov.update(obligations=ob, discharged=di,
                   checker_cmd='verus (z3 back end) on the text extracted from /repo by /verif/cpp2verus; one run per unit: ' + '; '.join(u.get('cmd', '') for u in units),
                   trusted_base=sorted(set(x for u in units for x in u.get('trusted', []))) + registry.TRUSTED,
                   proof_units=[dict(unit=u['unit'], status=u['status'], functions_under_contract=u.get('functions', []),
                                     lemmas=u.get('lemmas', []), obligations=u.get('obligations', 0), discharged=u.get('discharged', 0),
                                     verified_items=u.get('verified_items', 0),
                                     solver_s=u.get('solver_s', 0), wall_s=u.get('wall_s', 0), reachability_checks=u.get('vacuity', 0),
                                     back_end='Verus 0.2026.09.13 / Z3',
                                     note=u.get('note', '')) for u in units],
                   not_covered_by_proof=info.get('unproved', ''))
        assumptions += sorted(set(x for u in units for x in u.get('assumptions', [])))
    else:
        cov['not_covered_by_proof'] = info.get('unproved', '')
    violations = 0
    rc = 0
    lines = []
    if bad:
        violations = 1; rc = 1
        c, o = bad[0]
        with open(replay, 'w') as f:
            f.write('property %s: failing input on the real code (harness bounded/%s.cpp, exit %d)\n' % (prop, prop, c))
            for u in failed_units: f.write('failed obligation: %s\n%s\n' % (u['unit'], u.get('failures', '')))
            f.write('\n' + o[-20000:])
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        i = o.find('FAILING-INPUT')
        print(o[i if i >= 0 else -2500:][:2500])
    elif failed_units:
        violations = 1; rc = 1
        with open(replay, 'w') as f:
            f.write('property %s: obligations that are no longer discharged\n' % prop)
            for u in failed_units:
                f.write('unit %s\n%s\n\n--- verifier output\n%s\n' % (u['unit'], u.get('failures', ''), u.get('output', '')[-20000:]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    elif exe is None and (not units or undecided):
        print('no answer: the harness does not build and no proof decides the property\n' + log[-3000:])
        rc = 2
    for u in failed_units: print('failed obligation in unit %s: %s' % (u['unit'], u.get('failures', '')[:3000]))
    for u in undecided: print('unit %s undecided (%s): the bounded stand-in decides' % (u['unit'], u.get('note', '')[:1500]))
    if exe is None: print('harness build log:\n' + log[-2000:])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 2), violations=violations),
              open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    if rc == 0:
        print('%s: held (%d obligations discharged by Verus in %d units%s; %d bounded cases)' % (
            prop, di, len(units) - len(undecided), ', %d undecided' % len(undecided) if undecided else '', ev))
    return rc


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
