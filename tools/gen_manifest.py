#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'libconcurrent/concurrent/'
H = 'libconcurrent/includes/'
P = 'libconcurrent/primitives/'
LIN = 'TLA+ trace specification (TLC) judges histories of the real code run under a controlled scheduler'
LINNOTE = ('Every recorded history of the real code (calls, returns, final content) is checked by TLC against the TLA+ specification of the '
           'atomic object; schedules are seeded-random, PCT, thread-stalling and preemption-bounded exhaustive. Sequential consistency of '
           'instrumented accesses is assumed (no store buffers); coverage is bounded by the number of generated programs and schedules.')
GUARD = {'guard': 'VERIF_NO_HOOKS_NEEDED', 'enable': 'no hook was needed: the library is compiled unmodified from /repo by /verif/harness/build.sh '
         'with -fsanitize=thread instrumentation and linked with our own runtime', 'source_commits': []}

PROPS = []


def prop(id, title, statement, over, qtext, why, files, state, mech, observe, technique=LIN, note=LINNOTE, level='model_checking'):
    PROPS.append(dict(
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
        technique=technique, note=note, level=level))


exec(open(os.path.join(V, 'tools', 'property_table.py')).read())

CLAIMED = [p for p in PROPS]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['line']['title']) <= 80, p['line']['title']
        f.write(json.dumps(p['line']) + '\n')
m = dict(version=1, setup_cmd='bash tools/setup.sh', hooks=GUARD, checks=[], not_applicable=[],
         notes='Specifications are TLA+ (spec/), checked with TLC. See DESIGN.md.')
for p in CLAIMED:
    i = p['line']['id']
    m['checks'].append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i,
                            thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
                            technique=p['technique'], level=p['level'], level_note=p['note']))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema  # noqa: E402
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in PROPS:
    jsonschema.validate(p['line'], s)
print(len(PROPS), 'properties')
