#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed
N = []          # not applicable


def prop(pid, title, statement, over, text, why, files, mech, observe=(),
         na=None, note=None):
    line = dict(id=pid, title=title, statement=' '.join(statement.split()),
                quantifier=dict(over=over, text=' '.join(text.split())),
                why_tests_cant=' '.join(why.split()),
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech]))
    if observe:
        line['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    assert line['statement'].count('. ') <= 2, pid
    (P if na is None else N).append((line, na, note))


S = 'ghedt/search_routines.py'
D = 'ghedt/domains.py'
CO = 'ghedt/coordinates.py'
G = 'ghedt/ground_heat_exchangers.py'
GFN = 'ghedt/gfunction.py'
UT = 'ghedt/utilities.py'
FR = 'ghedt/feature_recognition.py'
DE = 'ghedt/design.py'
ME = 'ghedt/media.py'
PT = 'ghedt/peak_load_analysis_tool/'
BH = PT + 'borehole_heat_exchangers.py'
EQ = PT + 'equivalance.py'
GL = PT + 'ground_loads.py'
PM = PT + 'media.py'
RN = PT + 'radial_numerical_borehole.py'

exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

TECH = ('abstract interpretation to value numbers (gated normal forms), '
        'compared with a reference definition; random interpretation confirms '
        'an inequality before it is reported')
NOTE = ('Decided from the syntax tree of the current source, never executed. '
        'An obligation that reaches identical normal forms holds for every '
        'input of the declared kinds; one that does not is reported only with '
        'an assignment separating the two value numbers, otherwise it is '
        'listed as undecided in the evidence. Trusts the models of the Python, '
        'NumPy and SciPy operations used, real (not floating point) '
        'arithmetic, and the reference definitions in sa/rules.')


def main():
    P.sort(key=lambda x: x[0]['id'])
    N.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for line, _, _ in sorted(P + N, key=lambda x: x[0]['id']):
            f.write(json.dumps(line) + '\n')
    m = dict(version=1, setup_cmd='python3 -c "import check"',
             checks=[], not_applicable=[])
    for line, _, note in P:
        i = line['id']
        m['checks'].append(dict(
            property=i, quick_cmd='python3 check.py ' + i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=(note or {}).get('technique', TECH), level='other',
            level_note=(note or {}).get('note', NOTE)))
    for line, why, _ in N:
        m['not_applicable'].append(dict(property=line['id'],
                                        reason=' '.join(why.split())))
    m['notes'] = ('sa/ is the analyser, sa/rules/pNN.py the obligations of one '
                  'property; tools/props.py writes this file and '
                  'properties.jsonl from tools/table.py.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
