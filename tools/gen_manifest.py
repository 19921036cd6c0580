"""Regenerates MANIFEST.json from properties.jsonl, tools/registry.py's modules and the notes below."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
claimed = set()
for m in re.findall(r"'(c_\w+)'", open(V + '/tools/registry.py').read()):
    claimed |= set(re.findall(r'^def check_(S\d+)', open(V + '/tools/%s.py' % m).read(), re.M))
NA = {}
notes = json.load(open(V + '/tools/level_notes.json'))
checks = []
for p in props:
    if p['id'] in claimed:
        checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                           technique='TLA+ specification checked with TLC; its exported behaviours replayed on the real code and traces recorded from the real code validated against it',
                           level='model_checking', level_note=notes.get(p['id'], notes['default'])))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check registered yet: the part of the specification deciding it is still being written')) for p in props if p['id'] not in claimed]
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=checks, not_applicable=na, notes='The TLA+ specification is in spec/, the drivers in tools/, see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
