"""Writes properties.jsonl and MANIFEST.json from meta/props.py (one entry per property)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'meta'))
from propdefs import PROPS, NA

lines, checks = [], []
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, 'props', p['id'] + '.py')):
        continue
    lines.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                  'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})
    assert len(p['title']) <= 80, p['id']
    checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                   'technique': 'symbolic execution of the real Python code, assertions decided by Z3',
                   'level': 'model_checking',
                   'level_note': 'Every assertion holds for all values of the symbolic inputs on every path within the bounds listed in the evidence file'
                                 + (': ' + p['bounds'] if p.get('bounds') else '') + '. Trusts numpy, the interpreter, the proxies/kernels in sx/ (validated by concrete '
                                 'replay on the unmodified code in every run) and Z3 (cvc5 cross-checks a sample in the thorough tier). Reals, not IEEE doubles.'
                                 + (' ' + p['note'] if p.get('note') else '')})
na = []
for p in NA:
    lines.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                  'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})
    na.append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for l in lines:
        f.write(json.dumps(l) + '\n')
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks replace the module globals np/int/float/isinstance/type at run time. SX_REPO, SX_JOBS override the tree and the parallelism.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
