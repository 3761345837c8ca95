"""Development aid: which contracts does a verified function rely on without verifying them for the property?
Reads Verus's own resolved call graph (VIR log). Prints 'prop callee <- callers'. Not used by the checks."""
import json, re, subprocess, sys, os, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ext = V + '/target/ext/release/extract'
W = '/tmp/w/clos'
for unit in ('contracts', 'contracts/machine'):
    for p in sys.argv[1:] or ['C%02d' % i for i in range(1, 21)]:
        if not any(l.startswith('%props') and p in l.split() for f in os.listdir(V + '/' + unit) if f.endswith('.spec') for l in open(V + '/' + unit + '/' + f)): continue
        shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        subprocess.run([ext, '/repo/src', V + '/' + unit, W + '/x.rs', W + '/x.json', p], check=True, stdout=subprocess.DEVNULL)
        subprocess.run(['verus', 'x.rs', '--no-verify', '--log', 'vir', '--log-dir', W + '/lg'], cwd=W, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        fns = json.load(open(W + '/x.json'))['functions']
        chunks = re.split(r'\n(?=\(@ ")', open(W + '/lg/crate.vir').read())
        key = {}; body = {}
        for c in chunks:
            m = re.match(r'\(@ "x\.rs:(\d+):[^"]*" \(Function\s+:name \(Fun :path (\S+?)\)', c)
            if not m: continue
            ln = int(m[1])
            for f in fns:
                if f['start'] <= ln < f['end']: key[m[2]] = f; body[m[2]] = c
        out = {}
        for n, f in key.items():
            if not (f['mine'] and f['verified']): continue
            for m in set(re.findall(r'Fun :path (x::[^\s)]+)', body[n])):
                g = key.get(m)
                if g and not g['mine'] and g['body'] and g['key'] != f['key']: out.setdefault(g['key'], []).append(f['key'])
                # a call through a trait: every implementation
                if g and not g['body'] and not g['key'].startswith('<') and g['key'] in body[n].replace('x::traits::', '') and re.search(r'CallTarget Fun\s+\(CallTargetKind Dynamic\)\s+\(Fun :path %s\)' % re.escape(m), body[n]):
                    T, me = g['key'].split('::')
                    for h in fns:
                        if h['key'].endswith('>::' + me) and ' as ' + T + '>' in h['key'] and not h['mine'] and h['body']: out.setdefault(h['key'], []).append(f['key'] + ' (trait)')
        for t, c in sorted(out.items()): print(p, t, ' <- ', '; '.join(c[:3]))
