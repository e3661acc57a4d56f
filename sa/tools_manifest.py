#!/usr/bin/env python3
"""developer tool: regenerate properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
import props
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as f:
    for q in props.P + getattr(props, 'NA', []):
        d = {'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
             'why_tests_cant': q['why'], 'anchors': {'files': [x for x in q['files']], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']],
             'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in q['state']], 'observe_at': list(q['observe']), 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
NOTE = ('Decides the stated functions\' behaviour on all paths, up to the summary abstraction: Boolean-exact guards over canonical atoms, no aliasing between '
        'distinct object expressions, loops as complete traversals, arithmetic compared as normalised expressions (floating point rounding not modelled). A construct the engine cannot see through '
        'makes a contract undecided (listed in the evidence), never a violation. Trusts clang 18\'s front end and the engine in /verif/sa.')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Static analysis only: a clang-based extractor plus a guarded-event summary engine; see DESIGN.md. No hooks in /repo.'}
for q in props.P:
    m['checks'].append({'property': q['id'], 'quick_cmd': 'python3 sa/check.py --property %s --tier quick' % q['id'],
                        'thorough_cmd': 'python3 sa/check.py --property %s --tier thorough' % q['id'], 'evidence_file': 'evidence/%s.json' % q['id'],
                        'technique': q.get('technique') or 'static analysis: function contracts over guarded-event summaries (path-sensitive effect analysis of the clang AST)',
                        'level': 'other', 'level_note': NOTE})
for q in getattr(props, 'NA', []):
    m['not_applicable'].append({'property': q['id'], 'reason': q['reason']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
for q in props.P:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
