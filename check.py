#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current working tree.

1. The deductive stage (tools/deduce.py) extracts the functions under contract from /repo/src, and the verifier
   discharges the obligations.
2. The contract harness (harness/) executes the same contracts on the real crate; it replays failed obligations,
   and stands in (bounded) for the parts no obligation covers.
Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: no answer (nothing could be built)."""
import json, os, resource, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/tools')
import lits as litmod
import deduce
import props

REPO = '/repo'
TGT = V + '/target'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('CARGO_TARGET_DIR', None)
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def build_harness():
    last = ''
    for feats in (['--features', 'hooks,trim'], ['--features', 'hooks'], []):
        env = dict(ENV, RUSTFLAGS='--cfg rustnomial_verif -Awarnings')
        if 'hooks,trim' in feats: env['RUSTC_BOOTSTRAP'] = 'rustnomial'
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--target-dir', TGT + '/hx', *feats],
                           cwd=V + '/harness', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return TGT + '/hx/release/hx', bool(feats), ''
        last = r.stdout[-3000:]
    return None, False, last


def crate_builds():
    r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', TGT + '/crate'], cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(hx, prop, seed, budget, args, extra=()):
    cmd = [hx, prop, '--seed', str(seed), '--budget', str(budget), *args, *extra]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, timeout=budget + 120)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = -9, '', 'timeout'
    js = None
    for l in out.splitlines():
        if l.startswith('{'):
            try: js = json.loads(l)
            except ValueError: pass
    return rc, js, err


def replay(hx, prop, path):
    try:
        r = subprocess.run([hx, prop, '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, timeout=60)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -9, 'timeout'


def explore(hx, prop, seed, budget, args):
    """Returns (result json or None, violation dict or None, note)."""
    rc, js, err = run_harness(hx, prop, seed, budget, args)
    if rc == 0 and js: return js, None, ''
    if rc == 1 and js and js.get('violation'): return js, {'error': js['error'], 'case': js['case']}, ''
    if rc == 3: return None, None, 'harness error: ' + err[-500:]
    # Abnormal end (abort, stack overflow, out of memory): find the case that caused it.
    tr = '%s/trace-%s.json' % (TGT, prop)
    for s in range(seed, seed + 3):
        if os.path.exists(tr): os.remove(tr)
        rc2, js2, err2 = run_harness(hx, prop, s, max(budget, 40), [*args, '--threads', '1'], ['--trace', tr])
        if rc2 == 1 and js2 and js2.get('violation'): return js2, {'error': js2['error'], 'case': js2['case']}, ''
        if rc2 not in (0, 3) and os.path.exists(tr):
            rc3, out3 = replay(hx, prop, tr)
            if rc3 != 0:
                return js, {'error': 'the process died (exit %d): %s' % (rc2, err2[-300:]), 'case': json.load(open(tr))}, ''
    return None, None, 'harness ended with %s and the cause was not found: %s' % (rc, err[-500:])


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    os.makedirs(TGT, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/replays', exist_ok=True)

    mined = litmod.mine(REPO)
    base = {int(k): v for k, v in json.load(open(V + '/tools/lits_baseline.json')).items()}
    hot = [k for k, v in mined.items() if v > base.get(k, 0) and k not in (0, 1)]
    args = ['--lits', ','.join(map(str, sorted(mined))), '--hot', ','.join(map(str, sorted(hot)))]

    box = {}
    def ded():
        try:
            box['d'] = deduce.run(prop, tier, REPO, V, TGT, log)
        except Exception as e:  # the machinery itself failed: nothing was decided by it
            import traceback
            box['d'] = deduce.empty('internal error: ' + traceback.format_exc()[-1500:])
    th = threading.Thread(target=ded)
    th.start()
    hx, hooks, berr = build_harness()
    log('harness', 'built' if hx else 'did not build', '(hooks)' if hooks else '')
    if not hx: log(berr)
    th.join()
    d = box['d']
    for l in d['report']: log(l)

    js, vio, note = None, None, ''
    if hx:
        budget = P['budget'][0 if tier == 'quick' else 1]
        js, vio, note = explore(hx, prop, seed, budget, args)
        if note: log(note)
        if not vio and d['failed'] and js is not None:
            log('an obligation failed: searching longer for an input')
            for s in range(1, 4):
                j2, vio, n2 = explore(hx, prop, seed + 100 * s, 40 if tier == 'quick' else 200, args)
                if j2: js['evaluations'] += j2.get('evaluations', 0)
                if vio: break

    gone = [x for x in d['lost'] if x.endswith('no such function any more')]
    if not hx and gone and crate_builds():
        # the crate builds, a function under contract is gone from it, and a program that uses the public items does not compile
        vio = {'error': 'the crate builds, but a client program does not compile against it: ' + ' / '.join(x for x in berr.splitlines() if x.startswith('error'))[:600],
               'case': {'program': 'harness/src', 'missing': gone[:20], 'compiler': berr[-1500:]}}
    rc, lines = 0, []
    path = '%s/replays/%s.json' % (V, prop)
    if os.path.exists(path): os.remove(path)
    violations = []
    if vio:
        rec = {'property': prop, 'case': vio['case'], 'error': vio['error'], 'how': 'target/hx/release/hx %s --replay %s' % (prop, path)}
        if d['failed']: rec['failed_obligations'] = d['failed']
        json.dump(rec, open(path, 'w'), indent=1)
        log('failing input:', json.dumps(vio['case'])[:800])
        log('observed:', vio['error'][:800])
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        violations.append({'error': vio['error'], 'case': vio['case']})
        rc = 1
    elif d['failed']:
        json.dump({'property': prop, 'failed_obligations': d['failed'], 'verifier_output': d['output'], 'case': None}, open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        violations += [{'obligation': f} for f in d['failed']]
        rc = 1
    elif js is None and not d['proved']:
        log('no answer: neither the verifier nor the harness could decide')
        rc = 2
    for l in open(V + '/known-findings.txt'):
        l = l.strip()
        if l.startswith('known: property=%s ' % prop): lines.append('KNOWN-FINDING: ' + l[len('known: '):])

    # what this run was: a proof only if every obligation was generated and discharged on it
    level = P['level'] if P['level'] != 'proof' or d['proved'] else 'exploration'
    cov = {
        'violation_details': violations,
        'obligations': d['obligations'], 'discharged': d['discharged'], 'checker_cmd': d['cmd'], 'trusted_base': d['trusted'],
        'functions_under_contract': d['functions'], 'back_end': d['backend'], 'solver_s': d['solver_s'],
        'undecided_by_proof': d['lost'], 'vacuity': d['vacuity'],
        'evaluations': (js or {}).get('evaluations', 0), 'distinct_nontrivial': (js or {}).get('distinct', 0),
        'rule': P['rule'], 'samples': (js or {}).get('samples', []),
        'exhaustive_cases': (js or {}).get('exhaustive_cases', 0), 'exhaustive_part_completed': (js or {}).get('exhaustive_done', False),
        'numeric_hooks': hooks, 'new_literals_tried': sorted(hot)[:50],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': P['assumptions'] + d['assumptions'], 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    log('obligations %d, discharged %d; executed %d cases (%d distinct)' % (cov['obligations'], cov['discharged'], cov['evaluations'], cov['distinct_nontrivial']))
    for l in lines: print(l, flush=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
