"""Writes /verif/MANIFEST.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import configs
TV = 'SMT (Z3) symbolic execution of the compiled executor (LLVM IR) over the byte code the library generates; per-element equivalence and all-schedule race queries'
CB = 'bounded model checking of the real C code (CBMC, SAT/SMT)'
NOTE = ('All buffer contents and all process schedules are symbolic within each configuration; configurations (sizes, placements, settings, histories) are enumerated by a seeded generator and listed in the evidence. '
        'Planning is executed concretely by the real library in a stand-in MPI.')
OTHER = {}
try:
    from manifest_other import OTHER, NA
except ImportError:
    NA = {}
checks = []
for pid in sorted(configs.PROPS):
    checks.append(dict(property=pid, quick_cmd='python3-vt checks/run.py ' + pid, thorough_cmd='python3-vt checks/run.py %s --tier thorough' % pid,
                       technique=TV, level='translation_validation', level_note=NOTE))
for pid in sorted(OTHER):
    checks.append(dict(property=pid, quick_cmd='python3-vt checks/run.py ' + pid, thorough_cmd='python3-vt checks/run.py %s --tier thorough' % pid,
                       technique=CB, level='model_checking', **OTHER[pid]) if 'technique' not in OTHER[pid] else
                  dict(property=pid, quick_cmd='python3-vt checks/run.py ' + pid, thorough_cmd='python3-vt checks/run.py %s --tier thorough' % pid, **OTHER[pid]))
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(HERE), 'properties.jsonl'))]
have = {c['property'] for c in checks}
na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in have]
with open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')
