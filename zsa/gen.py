"""Regenerate properties.jsonl and MANIFEST.json from the registry."""
import json
import os
import re
from .registry import PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for k in sorted(PROPS):
            p = PROPS[k]
            assert len(p['title']) <= 80, k
            n = len(re.findall(r'[.](\s|$)', p['statement']))
            assert n <= 3, (k, n)
            f.write(json.dumps({
                'id': k, 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'state': p['state'],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mechanism']],
                    'observe_at': [], 'hook_needed': None},
            }) + '\n')
    checks, na = [], []
    for k in sorted(PROPS):
        p = PROPS[k]
        if p['na']:
            na.append({'property': k, 'reason': p['na']})
            continue
        checks.append({
            'property': k,
            'quick_cmd': 'python3 -m zsa.check %s --tier quick' % k,
            'thorough_cmd': 'python3 -m zsa.check %s --tier thorough' % k,
            'technique': 'static analysis: ' + p['technique'],
            'level': 'other',
            'level_note': p['note'] + ' Assumes the TensorFlow model of the '
            'analyser; what it cannot model is reported as undecided.'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 -c "import zsa"',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
