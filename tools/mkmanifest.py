"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props
checks = [{
    'property': i,
    'quick_cmd': 'python3 /verif/check.py ' + i,
    'thorough_cmd': 'python3 /verif/check.py %s --thorough' % i,
    'technique': p['technique'],
    'level': p['level'],
    'level_note': p['note'],
} for i, p in sorted(props.PROPS.items())]
m = {'version': 1, 'setup_cmd': 'python3 /verif/setup.py',
     'hooks': {'guard': 'cfg rustnomial_verif', 'enable': 'RUSTFLAGS="--cfg rustnomial_verif" (check.py sets it)', 'source_commits': [open(V + '/tools/hook_commit').read().strip()]},
     'checks': checks,
     'not_applicable': []}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
