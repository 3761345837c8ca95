"""The deductive stage: extract the functions under contract from /repo/src, have Verus discharge every obligation.

A failed obligation is a violation. What the verifier could not be asked (a function that is gone, whose text left the
extractable subset, or whose loops no longer are the ones the invariants were written for) is 'lost': not proved, not
refuted, and left to the bounded execution of the contracts."""
import json, os, re, subprocess, time

FAIL = ('postcondition not satisfied', 'precondition not satisfied', 'precondition not met', 'assertion failed', 'invariant not satisfied', 'possible arithmetic underflow/overflow',
        'decreases not satisfied', 'possible division by zero', 'unable to prove', 'recommendation not met', 'possible bit shift', 'assertion failure',
        'could not prove termination', 'failed this postcondition', 'loop must have a decreases', 'cannot show')
LIMIT = ('resource limit', 'rlimit')


def empty(why=''):
    return {'proved': False, 'failed': [], 'lost': [why] if why else [], 'obligations': 0, 'discharged': 0, 'cmd': '', 'trusted': [],
            'functions': [], 'backend': '', 'solver_s': 0.0, 'vacuity': '', 'assumptions': [], 'report': [why] if why else [], 'output': ''}


def build_extractor(v, tgt):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_TARGET_DIR', None)
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--target-dir', tgt + '/ext'], cwd=v + '/extract', env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (tgt + '/ext/release/extract' if r.returncode == 0 else None), r.stdout[-2000:]


UNITS = ('contracts', 'contracts/machine')


def has_contracts(prop, v, unit):
    for f in os.listdir(v + '/' + unit):
        if f.endswith('.spec'):
            for l in open(v + '/' + unit + '/' + f):
                if l.startswith('%props') and prop in l.split(): return True
    return False


END = [0.0]  # when the deductive stage has to be over


def verus(path, seed=0):
    """One run of the verifier. Z3 answers a query within 45 s (usual: below 1 s) or the obligation counts as out of resources."""
    cmd = ['verus', path, '--output-json', '--error-format=json', '--multiple-errors', '10', '--num-threads', '8', '--rlimit', '40', '--smt-option', 'timeout=45000', '--time']
    if seed: cmd += ['--smt-option', 'smt.random_seed=%d' % seed]
    t = time.time()
    timeout = max(5.0, END[0] - t)
    try:
        r = subprocess.run(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return cmd, None, [], 'timeout', time.time() - t
    res = None
    i = r.stdout.find('{')
    if i >= 0:
        try: res = json.loads(r.stdout[i:])
        except ValueError: pass
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error': diags.append(d)
    return cmd, res, diags, r.stderr, time.time() - t


def where(diag, fns, base):
    """The function a diagnostic belongs to: primary span first."""
    spans = sorted(diag.get('spans', []), key=lambda s: not s.get('is_primary'))
    hits = []
    for s in spans:
        if os.path.basename(s['file_name']) != base: continue
        for f in fns:
            if f['start'] <= s['line_start'] < f['end'] and f['verified']: hits.append((f, s))
    return hits


def shrunk(f, base, stubs):
    return len(f['loops']) < len(base.get(f['key'], {}).get('loops', [])) and 'bare:' + f['key'] not in stubs


def run(prop, tier, repo, v, tgt, log):
    """The units of contracts that name the property: the exact coefficients, and the machine numbers."""
    units = [u for u in UNITS if has_contracts(prop, v, u)]
    if not units: return empty('no function is under contract for this property')
    ext, err = build_extractor(v, tgt)
    if not ext: return empty('the extractor did not build: ' + err)
    END[0] = time.time() + 420
    parts = [run_unit(prop, tier, repo, v, tgt, u, ext) for u in units]
    d = parts[0]
    for e in parts[1:]:
        d['proved'] = d['proved'] and e['proved']
        for k in ('failed', 'lost', 'functions', 'assumptions', 'report'): d[k] = d[k] + e[k]
        d['trusted'] = d['trusted'] + [t for t in e['trusted'] if t not in d['trusted']]
        for k in ('obligations', 'discharged', 'solver_s'): d[k] = round(d[k] + e[k], 2)
        for k, sep in (('cmd', ' && '), ('vacuity', '; '), ('output', '\n')): d[k] = d[k] + sep + e[k]
        d['backend'] = d['backend'] or e['backend']
    return d


def run_unit(prop, tier, repo, v, tgt, unit, ext):
    d = empty()
    cdir = v + '/' + unit
    base = json.load(open(cdir + '/anchors.json'))
    base = {k: base.get(k + '@' + prop, v) for k, v in base.items()}
    wd = tgt + '/ded'
    os.makedirs(wd, exist_ok=True)
    pid = prop
    if unit != UNITS[0]: pid = prop + '_machine'
    name = pid + '.rs'
    path, rep = wd + '/' + name, wd + '/' + pid + '.json'
    stubs = []
    lost = []
    seeds, still = [0], None
    t0 = time.time()
    def place(g):
        h = where(g, fns, name)
        return h[0][0]['key'] if h else '?%s' % [(s['line_start'], s['column_start']) for s in g.get('spans', [])][:1]

    for attempt in range(10):
        r = subprocess.run([ext, repo + '/src', cdir, path, rep, prop, *stubs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: return empty('extraction failed: ' + r.stdout[-1000:])
        R = json.load(open(rep))
        fns = R['functions']
        if attempt == 0:
            lost += ['%s: no such function any more' % k for k in R['missing']]
            lost += ['%s: %s' % (f['key'], '; '.join(f['errs'])) for f in fns if f['mine'] and f['body'] and f['errs']]
        cmd, res, diags, out, secs = verus(path, seeds[-1])
        d['solver_s'] += secs
        if res is None and not diags:
            return empty('the verifier gave no result: ' + out[-800:])
        fails, limits, other = [], [], []
        for g in diags:
            m = g['message'].lower()
            if any(x in m for x in LIMIT): limits.append(g)
            elif any(x in m for x in FAIL) or 'not satisfied' in m: fails.append(g)
            elif m.startswith('aborting') or m.startswith('could not compile'): pass
            else: other.append(g)
        if other:
            new = []
            for g in other:
                h = where(g, fns, name)
                for f, _ in h[:1]:
                    if shrunk(f, base, stubs):
                        new.append('bare:' + f['key'])
                    elif f['key'] not in stubs and f['key'] not in new:
                        new.append(f['key'])
                        lost.append('%s: outside the verifier\'s subset: %s' % (f['key'], g['message'][:200]))
            if not new:
                e = empty('the extracted file does not compile: ' + '; '.join(g['message'][:160] for g in other[:3]))
                e['output'] = out[-4000:]
                return e
            stubs += new
            continue
        # a function that lost loops gets a second try with its contract alone, without the invariants and hints
        new = sorted({'bare:' + h[0][0]['key'] for h in (where(g, fns, name) for g in fails + limits) if h and shrunk(h[0][0], base, stubs)})
        if new:
            stubs += new
            continue
        # what a solver proves with any seed is proved: an obligation fails when it fails with each of three
        bad = {place(g) for g in fails + limits}
        still = bad if still is None else still & bad
        if still and len(seeds) < 3 and time.time() + 100 < END[0]:
            seeds.append((0, 7, 23)[len(seeds)])
            continue
        break
    else:
        return empty('the extracted file still does not compile after dropping ' + ', '.join(stubs))
    vr = (res or {}).get('verification-results', {})
    d['obligations'] = vr.get('verified', 0) + vr.get('errors', 0)
    d['discharged'] = d['obligations'] - len(still)
    fails, limits = [g for g in fails if place(g) in still], [g for g in limits if place(g) in still]
    ok = not still if len(seeds) > 1 else vr.get('success', False)
    d['cmd'] = ' '.join(cmd)
    d['backend'] = 'Verus 0.2026.09.13 (Z3)'
    failed = []
    texts = []
    seen = set()
    for g in fails:
        texts.append(g.get('rendered') or g['message'])
        h = where(g, fns, name)
        line = h[0][1]['text'][0]['text'].strip()[:160] if h and h[0][1].get('text') else ''
        others = [s['text'][0]['text'].strip()[:200] for s in g.get('spans', []) if s.get('text') and (not h or s is not h[0][1])]
        if not h:
            lost.append('proof text outside the functions: ' + g['message'])
            continue
        f = h[0][0]
        ob = '%s: %s: %s' % (f['key'], g['message'], ' / '.join([line] + others[:2]))
        if f['closures'] > base.get(f['key'], {}).get('closures', 0):
            if f['key'] not in seen: lost.append('%s: a closure without contract (%s)' % (f['key'], g['message'])); seen.add(f['key'])
            continue
        if f['loops'] != base.get(f['key'], {}).get('loops', []):
            if f['key'] not in seen: lost.append('%s: its loops changed, the invariants do not fit any more (%s)' % (f['key'], g['message'])); seen.add(f['key'])
        else: failed.append(ob)
    for g in limits:
        h = where(g, fns, name)
        lost.append('%s: resource limit' % (h[0][0]['key'] if h else '?'))
    if not fails and not limits and not ok: lost.append('the verifier did not report success')
    d['failed'] = failed
    d['lost'] = lost
    d['output'] = '\n'.join(texts)[-12000:]
    mine = [f for f in fns if f['mine'] and f['verified']]
    d['functions'] = [f['key'] for f in mine]
    d['trusted'] = trusted(cdir, unit, fns)
    d['proved'] = bool(mine) and not failed and not lost and ok
    d['vacuity'], miss = vacuity(ext, repo, cdir, wd, prop, pid, stubs) if d['proved'] else ('not run, nothing was proved', [])
    if miss:
        d['proved'] = False
        lost += ['%s: the probe assert(false) at its end is proved, so the proof says nothing' % m for m in miss]
    d['report'] = ['deduction: %d functions under contract, %d of %d obligations discharged, %d failed, %d lost, %.1f s' % (len(mine), d['discharged'], d['obligations'], len(failed), len(lost), d['solver_s'])]
    d['report'] += ['FAILED ' + x[:400] for x in failed] + ['lost: ' + x[:300] for x in lost]
    d['solver_s'] = round(d['solver_s'], 2)
    return d


def vacuity(ext, repo, cdir, wd, prop, pid, stubs):
    """assert(false) at the end of every verified body has to fail: preconditions, invariants and axioms are not contradictory."""
    path, rep = wd + '/' + pid + '_vac.rs', wd + '/' + pid + '_vac.json'
    r = subprocess.run([ext, repo + '/src', cdir, path, rep, prop, *stubs], env=dict(os.environ, EXTRACT_VACUITY='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: return 'probe not extracted', ['probe']
    fns = json.load(open(rep))['functions']
    cmd, res, diags, out, secs = verus(path)
    hit = set()
    for g in diags:
        if 'assertion failed' in g['message']:
            for f, s in where(g, fns, pid + '_vac.rs'):
                if s.get('text') and 'assert(false)' in s['text'][0]['text']: hit.add(f['key'])
    miss = [f['key'] for f in fns if f['mine'] and f['verified'] and f['key'] not in hit]
    return 'assert(false) at the end of the body fails in %d of %d functions%s' % (len(hit), len(hit) + len(miss), ('; not in: ' + ', '.join(miss)) if miss else ''), miss


def trusted(cdir, unit, fns):
    out = ['contract assumed, body not verified: ' + f['key'] for f in fns if f['trusted']]
    p = open(cdir + '/prelude.rs').read()
    ax = re.findall(r'#\[verifier::external_body\]\s*pub (?:broadcast )?proof fn (\w+)', p)
    out.append('axioms of %s/prelude.rs: %s' % (unit, ', '.join(ax)))
    n = len(re.findall(r'external_body', p))
    what = 'casts, bit counts, abs, eager iterator library It, Vec/slice/BTreeMap helpers; usize has 64 bits' if 'machine' in unit else 'coefficient type Z (exact arithmetic), eager iterator library It, Vec/slice/BTreeMap/Option helpers'
    out.append('library contracts assumed in %s/prelude.rs (%d): %s' % (unit, n, what))
    for f in sorted(os.listdir(cdir)):
        if f.endswith('.spec'):
            out += ['assumed in %s/%s: %s' % (unit, f, n) for n in re.findall(r'#\[verifier::external_body\]\s*(?:pub )?fn (\w+)', open(cdir + '/' + f).read())]
    out.append('the extraction rules of extract/src (listed in DESIGN.md)')
    out.append('Verus, its vstd specifications, Z3')
    return out


if __name__ == '__main__':
    import sys
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in sys.argv[1:]:
        d = run(p, os.environ.get('VERIF_TIER', 'quick'), '/repo', V, V + '/target', print)
        print(p, 'proved' if d['proved'] else 'NOT PROVED', d['vacuity'])
        for l in d['report']: print('  ', l)
