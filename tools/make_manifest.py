"""Writes MANIFEST.json from vf/meta.py."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vf import meta  # noqa: E402

PY = 'PYTHONPATH=/opt/venv/lib/python3.12/site-packages python3-vt -B'
checks = []
for pid in meta.PIDS:
    checks.append({
        'property': pid,
        'quick_cmd': f'{PY} run.py {pid} --tier quick',
        'thorough_cmd': f'{PY} run.py {pid} --tier thorough',
        'technique': meta.TECHNIQUE.get(pid, meta.TECHNIQUE['*']),
        'level': meta.LEVEL[pid],
        'level_note': meta.NOTE.get(pid, meta.NOTE['*']),
    })
json.dump(
    {
        'version': 1,
        'setup_cmd': f'{PY} tools/setup.py',
        'checks': checks,
        'not_applicable': [],
        'notes': 'See DESIGN.md. No hooks are added to /repo; the contracts'
        ' live in /verif/vf and are discharged on the functions imported'
        ' from /repo on every run.',
    },
    open(os.path.join(here, 'MANIFEST.json'), 'w'),
    indent=1,
)
