#!/usr/bin/env python3
"""
Measure which lines of the repository are executed by the checks (used while
building). A copy of /verif with a tracing worker is used.

usage: coverage.py [CHECK...]
"""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
import json
import collections

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TRACE = '''
_lines = set()


def _local(frame, event, arg):
    _lines.add((frame.f_code.co_filename, frame.f_lineno))
    return _local


def _start(frame, event, arg):
    if '/repo/' in frame.f_code.co_filename:
        return _local(frame, event, arg)
threading.settrace(_start)
sys.settrace(_start)

'''


def main(ids):
    work = tempfile.mkdtemp(prefix='cover-')
    try:
        verif = work + '/verif'
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(
            'seeded', '.git', 'replays'))
        worker = verif + '/lib/worker.py'
        text = open(worker).read()
        text = text.replace('\n\nclass Profiler', TRACE + '\nclass Profiler')
        text = text.replace(
            "    res['counts'] = obs.counts\n",
            "    res['counts'] = obs.counts\n"
            "    with open('%s/lines-%%s' %% id(res) + job['out'].replace("
            "'/', '_'), 'w') as f:\n"
            "        f.write('\\n'.join('%%s:%%d' %% x for x in _lines))\n"
            % work)
        text = text.replace('QUICK_FACTOR = 3', 'QUICK_FACTOR = 1')
        text = text.replace('sys.setprofile(prof)', 'pass')
        open(worker, 'w').write(text)
        env = dict(os.environ, VERIF_SHARDS='4', VERIF_BUDGET='60')
        for pid in ids:
            p = subprocess.run(
                ['python3', 'run.py', pid, '--seed', '5'], cwd=verif, env=env,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(p.stdout.strip().splitlines()[-1][:150], flush=True)
        hit = collections.defaultdict(set)
        for fname in glob.glob(work + '/lines-*'):
            for line in open(fname):
                path, _, num = line.strip().rpartition(':')
                if num.isdigit():
                    hit[path].add(int(num))
        for path in sorted(hit):
            rows = open(path).read().splitlines()
            doc = False
            print('==', path)
            for i, row in enumerate(rows, 1):
                t = row.strip()
                quotes = len(re.findall('"""|\'\'\'', t))
                if quotes:
                    if quotes == 1:
                        doc = not doc
                    continue
                if doc or not t or t.startswith('#') or i in hit[path]:
                    continue
                if re.match(r'(def|class|import|from|@|else:|try:|finally:)',
                            t) or not re.match(r'\s', row):
                    continue
                print('%5d %s' % (i, row))
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    main(sys.argv[1:] or [c['property'] for c in json.load(
        open(HERE + '/MANIFEST.json'))['checks']])
