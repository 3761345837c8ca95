"""Records, for every function under contract, the loops its invariants were written for (run on the unchanged tree)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import deduce
ext, err = deduce.build_extractor(V, V + '/target')
assert ext, err
os.makedirs(V + '/target/ded', exist_ok=True)
def functions(u, prop):
    subprocess.run([ext, '/repo/src', V + '/' + u, V + '/target/ded/a.rs', V + '/target/ded/a.json', prop], check=True)
    R = json.load(open(V + '/target/ded/a.json'))
    return {f['key']: {'loops': f['loops'], **({'closures': f['closures']} if f['closures'] else {})} for f in R['functions'] if f['has_contract']}
for u in deduce.UNITS:
    a = functions(u, 'NONE')
    n = len(a)
    # a function that is cut for some properties: KEY@PROPERTY where it differs
    for p in ['C%02d' % i for i in range(1, 23)]:
        for k, v in functions(u, p).items():
            if v != a[k]: a[k + '@' + p] = v
    json.dump(a, open(V + '/' + u + '/anchors.json', 'w'), indent=0, sort_keys=True)
    print(u, n, 'functions')
