#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as PR
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'projects/'
META = {}
NA = []
def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    META[id] = dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **(dict(observe_at=observe) if observe else {}))), technique=technique, note=note)
exec(open(os.path.join(V, 'tools', 'meta_props.py')).read())
lines = [json.dumps(META[p]['prop']) for p in sorted(META)]
missing = [p for p in PR.PROPS if p not in META]; assert not missing, missing
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
checks = [dict(property=p, quick_cmd='python3 tools/check.py %s --tier quick' % p, thorough_cmd='python3 tools/check.py %s --tier thorough' % p,
               technique=META[p]['technique'], level='exploration', level_note=META[p]['note']) for p in sorted(PR.PROPS)]
na = list(NA)
m = dict(version=1, setup_cmd='python3 tools/check.py --setup', hooks=[], checks=checks, not_applicable=na,
         notes='All harnesses are built from /repo\'s working tree with clang and sanitizers (tools/build.py); the stand-ins in shims/ replace the three empty vendor submodules so that the code that needs them also runs.')
import re
sch = json.load(open('/root/.vp/MANIFEST.schema.json')) if os.path.exists('/root/.vp/MANIFEST.schema.json') else None
if sch and 'hooks' in sch.get('properties', {}) and sch['properties']['hooks'].get('type') != 'array': m.pop('hooks')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, sch); s2 = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in lines: jsonschema.validate(json.loads(l), s2)
    print('valid')
except ImportError: print('jsonschema not available')
