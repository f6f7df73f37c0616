#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below."""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level='other', claimed=True, reason=None, **kw):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, claimed=claimed, reason=reason, kw=kw))


exec(open(os.path.join(VERIF, 'tool', 'props_text.py')).read())

if __name__ == '__main__':
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': dict({'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}, **p['kw'])}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tool/model.py --setup', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['claimed']:
            m['checks'].append({'property': p['pid'], 'quick_cmd': 'python3 tool/check.py ' + p['pid'], 'thorough_cmd': 'python3 tool/check.py ' + p['pid'],
                                'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['pid'], 'reason': p['reason']})
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
