"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS, NOT_APPLICABLE
from vc.registry import PROPS as REG


def main():
    na = dict(NOT_APPLICABLE)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            r = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p.get('over', ['inputs']), 'text': p['forall']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                             'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p.get('state', [])],
                             'observe_at': p['observe']}}
            assert len(r['title']) <= 80, r['title']
            f.write(json.dumps(r) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] in na:
            continue
        assert p['id'] in REG, p['id']
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'],
                       'thorough_cmd': 'python3-vt check.py %s --thorough' % p['id'],
                       'technique': 'contract-based deductive verification: verification conditions generated from the real Python '
                                    'source on every run, discharged by z3',
                       'level': REG[p['id']].get('level', 'proof'), 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m vc.selftest', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()],
         'notes': 'See DESIGN.md. Every check reads /repo/pdfmajor from source (VERIF_REPO overrides the path) and needs no build; '
                  'known_findings.json lists recorded defects (none is added at run time).'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()


# ---- table of planted bugs in DESIGN.md
MISSED = {}
d = open(os.path.join(HERE, 'DESIGN.md')).read().split('\n## Planted bugs')[0].rstrip('\n')
d += '\n\n## Planted bugs\n\nEach is caught by the quick check of its property with a replayed failing input unless stated otherwise.\n\n'
for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    mt = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))
    d += '* `%s` (%s): %s%s\n' % (n, mt['property'], mt['what_it_breaks'], ' **Missed**: ' + MISSED[n] if n in MISSED else '')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
