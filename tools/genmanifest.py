#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vt/registry.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vt import registry
LEVEL = registry.LEVELS
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in registry.CHECKS:
        lv, tech, note = LEVEL[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s thorough' % p, technique=tech, level=lv, level_note=note))
    else:
        na.append(dict(property=p, reason=registry.NOT_CLAIMED.get(p, 'No check has been built yet; this property is listed but not claimed.')))
json.dump(dict(version=1, setup_cmd='python3 -c "import vt.driver"', checks=checks, not_applicable=na,
               notes='Every check builds its harnesses from /repo itself (cached in build/ by content). No hooks in /repo are used: the checks use the public interface and link-time or preprocessor stand-ins only.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
