"""Writes /verif/MANIFEST.json (python3 tools/manifest.py)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import properties  # noqa

MODEL = 'runtime monitoring: random workloads judged by a reference model'
HISTORY = ('runtime monitoring: random histories of operations checked after '
           'each step against a reference model')
TRACE = ('runtime monitoring: recorded event traces under scripted and '
         'threaded schedules, checked offline')
FAULT = 'runtime monitoring with fault injection and an error oracle'
ROUND = ('runtime monitoring: round trips through files with independently '
         'computed contents')
TECHNIQUE = dict(
    C02=HISTORY, C16=HISTORY, C17=HISTORY, C18=HISTORY, C06=TRACE,
    C07=TRACE + ', with failing tasks', C08=TRACE, C10=FAULT, C28=FAULT,
    C22=FAULT, C39=FAULT, C23=ROUND + ' and damaged files', C19=ROUND, C20=ROUND,
    C38='runtime monitoring: the monitors of the other properties on '
    'concurrent threads with injected delays',
    C21=ROUND, C24=ROUND, C26='runtime monitoring: recorded draws checked '
    'offline against the intervals of the cumulative weights')
STANDIN = (' The code of the repository is the real one; numpy, lxml, '
           'shapely, hazardlib, risklib, nrmllib, psutil and futures are not '
           'installed and are replaced by the stand-ins of /verif/standins, '
           'which are trusted.')
NOTE = ('Exploration: the property held on the executions observed, whose '
        'number and diversity are in the evidence; nothing is proved about '
        'the other ones. Trusted: the oracle in checks/ and lib/, Jython '
        '2.7.')
USES_STANDINS = set('C04 C06 C07 C08 C09 C10 C12 C18 C19 C20 C21 C22 C23 C24 '
                    'C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 '
                    'C37 C38 C39'.split())


def main():
    checks = []
    for p in properties.P:
        pid = p['id']
        checks.append(dict(
            property=pid,
            quick_cmd='python3 run.py %s --tier quick' % pid,
            thorough_cmd='python3 run.py %s --tier thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=TECHNIQUE.get(pid, MODEL),
            level='exploration',
            level_note=NOTE + (STANDIN if pid in USES_STANDINS else '')))
    man = dict(
        version=1,
        setup_cmd='python3 run.py --selftest',
        checks=checks,
        not_applicable=[],
        notes='No hooks: the monitors observe the public functions from the '
        'outside, so that /repo contains only fix: commits.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
