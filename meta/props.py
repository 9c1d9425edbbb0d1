#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 meta/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'modules/nginx-rtmp-module/'
T = 'modules/nginx-ts-module/src/'
TK = 'modules/nginx-toolkit-module/'
CL = 'modules/nginx-client-module/'
MP = 'modules/nginx-multiport-module/'
NOTEST = 'The suite only loads this module; no test sends it a byte, and a finite set of samples could not cover '
CB = ('machine-checked contracts on the real C functions (CBMC/goto-instrument over the code of /repo, '
      'all inputs inside the stated geometry), vacuity probes, counterexamples replayed natively under ASan/UBSan')
P = []


def p(id, title, statement, over, text, why, files, mech, note, na=None, technique=CB, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, na=na, technique=technique, level=level))


exec(open(V + '/meta/list.py').read())

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps({
                'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                'quantifier': {'over': q['over'], 'text': q['text']},
                'why_tests_cant': q['why'],
                'anchors': {'files': q['files'], 'mechanism': [
                    {'name': a, 'where': b} for a, b in q['mech']]}}) + '\n')
    checks, na = [], []
    for q in P:
        if not q['na'] and os.path.exists('%s/harness/%s/units.py' % (V, q['id'])):
            checks.append({
                'property': q['id'],
                'quick_cmd': 'python3 vf.py check %s --tier quick' % q['id'],
                'thorough_cmd': 'python3 vf.py check %s --tier thorough' % q['id'],
                'technique': q['technique'], 'level': q['level'], 'level_note': q['note']})
        else:
            na.append({'property': q['id'], 'reason': q['na'] or
                       'no contract within reach was completed for it; not claimed'})
    json.dump({'version': 1, 'setup_cmd': 'python3 vf.py selftest',
               'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks;', len(na), 'not applicable')
