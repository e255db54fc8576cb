"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep both in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = 'abstract interpretation of the generator + dataflow over every emitted C template'


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, level='other'):
    P.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}),
              dict(property=pid, quick_cmd='python3 sa/check.py %s --tier quick' % pid, thorough_cmd='python3 sa/check.py %s --tier thorough' % pid,
                   technique=technique, level=level, level_note=note)))


def na(pid, title, statement, over, text, why, files, mech, reason):
    P.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}), None))
    NA.append(dict(property=pid, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 sa/setup.py', 'checks': [m for _, m in P if m], 'not_applicable': NA,
               'notes': 'Static analysis only: the generator sources are interpreted abstractly (user-supplied names and C types stay '
                        'symbolic), the emitted templates are analysed by dataflow; nothing of /repo is imported or executed. No hooks in /repo.'},
              f, indent=1)
