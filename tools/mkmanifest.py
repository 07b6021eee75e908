#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./setup',
         hooks=dict(guard='none: no hooks are committed in /repo; instrumentation is compiled in through a go build -overlay made by /verif/check',
                    enable='go test -c -overlay (import swap of sync and sync/atomic, harness packages under internal/zzverif), done by every check', source_commits=[]),
         checks=[dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique=CHECKS[i]['technique'],
                      level=CHECKS[i].get('level', 'exploration'), level_note=CHECKS[i]['note']) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, 'machinery still being built')) for i in ids if i not in CHECKS])
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
