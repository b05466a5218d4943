"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run by hand; both are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from properties import PROPS, NOT_APPLICABLE  # noqa: E402

NOTE = ('bounded symbolic execution: every value of the symbolic inputs within the stated bounds, real arithmetic '
        'in place of floating point; ')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            st = p['statement']
            assert len(p['title']) <= 80, p['title']
            d = dict(id=p['id'], title=p['title'], statement=st, quantifier=dict(over=p['over'], text=p['quant']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
            f.write(json.dumps(d) + '\n')
    checks = []
    na = {n['property'] for n in NOT_APPLICABLE}
    for p in PROPS:
        if p['id'] in na:
            continue
        checks.append(dict(property=p['id'],
                           quick_cmd='python3-vt -m sx.run %s' % p['id'],
                           thorough_cmd='python3-vt -m sx.run %s --tier thorough' % p['id'],
                           technique='symbolic execution of the real Python code on z3 terms; z3 decides each path and assertion',
                           level='model_checking', level_note=NOTE + p['note']))
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=NOT_APPLICABLE)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(ROOT, 'properties.jsonl')):
            jsonschema.validate(json.loads(l), sch)
    except ImportError:
        print('jsonschema is not available; not validated')
    except FileNotFoundError:
        pass
    print(len(PROPS), 'properties,', len(checks), 'checks')


main()
