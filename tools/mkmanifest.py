"""Write MANIFEST.json: every property of properties.jsonl is claimed unless it is listed in NOT below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
exec(open(os.path.join(HERE, 'tools', 'not_applicable.py')).read())
TECH = 'contracts on the real functions, discharged by symbolic weakest-precondition generation on the compiled LLVM IR and z3'
NOTE = ('All obligations of the contracts are discharged for all inputs from the IR that rustc makes of the current /repo/src (no bound). '
        'Trusted: rustc front end, LLVM inlining, the verification-condition generator vf/, z3, the contracts of the x86 intrinsics in vf/x86.py.')
TECHS = {'C23': 'effect contracts (instruction-set features) on the real functions, every call checked against its callee on the compiled LLVM IR'}
NOTES = {'C23': 'The obligation of every function reached from a wrapper (its features and those of the x86 intrinsics it calls are within those of the target) is discharged from the IR that rustc makes '
                'of the current /repo/src for seven targets (SSE2, SSE3, SSSE3, SSE4.1, SSE4.2, AVX, AVX2); there are no inputs. Trusted: rustc front end, LLVM inlining and code generation, precompiled core/std.'}
checks = []
na = []
for ln in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(ln)['id']
    if p in NOT:
        na.append({'property': p, 'reason': NOT[p]})
        continue
    checks.append({'property': p, 'quick_cmd': './check.py ' + p, 'thorough_cmd': 'env VERIF_TIER=thorough ./check.py ' + p, 'technique': TECHS.get(p, TECH), 'level': 'proof',
                   'level_note': NOTES.get(p, NOTE) + EXTRA.get(p, '')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks build /repo/src as it is', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
