"""writes MANIFEST.json from the check configuration (run by hand)"""
import json, sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
from common import VERIF
HOOKS = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
NA = checks.NOT_APPLICABLE
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()]}
for p, c in checks.PROPS.items():
    m['checks'].append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                        'technique': c['technique'], 'level': 'proof', 'level_note': c['note']})
m['hooks'] = {'guard': 'cfg(verif_hooks)', 'enable': "RUSTFLAGS='--cfg verif_hooks' (native driver nmisc and the Kani harnesses only; the proofs extract the code with the guard off)",
              'source_commits': HOOKS}
m['notes'] = 'The hooks only give access to private functions (TpmaCc, TpmaLocality::is_extended, TpmRcError::new); where they no longer build, the checks run without them. All other commits in /repo are fix: commits (known-findings.txt).'
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
