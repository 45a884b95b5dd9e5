"""
Prepare and verify planted bugs (used while building, not by the checks).

usage: plant.py BATCH.py [ID...]   creates /verif/seeded/ID from the batch
       plant.py --check [ID...]    runs the checks against the planted bugs

BATCH.py defines SEEDS = [dict(id=, property=, file=, edits=[(old, new)],
demo=<python code of demo.py>, needs=, breaks=)]
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 if the property holds in the working directory (a copy of oq-commons)
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export JYTHONPATH="$here/standins:$PWD" LC_ALL=C.UTF-8 TMPDIR="$scratch"
export REPO="$PWD" SCRATCH="$scratch"
cd "$scratch"
timeout 250 jython -B "$here/demo.py"
'''
STABLE = 'openquake.commonlib.tests.valid_test'
TESTS = ['convert', 'csvmanager', 'general', 'logictree', 'readini', 'record',
         'riskloaders', 'source', 'table', 'valid']


def sh(cmd, cwd, **env):
    e = dict(os.environ, LC_ALL='C.UTF-8')
    e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, shell=True,
                       stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout


def demo(sdir, repo):
    # elsewhere, as in the final check
    tmp = tempfile.mkdtemp()
    try:
        shutil.copytree(sdir, tmp + '/d', ignore=shutil.ignore_patterns(
            '*.diff', '*.patch', 'meta.json'))
        return sh('bash %s/d/demo.sh' % tmp, repo)
    finally:
        shutil.rmtree(tmp)


KNOWN = ('test_content', 'test_sampling', 'test_sample')  # in the clean tree
BASE = '0d05f5c'


def changed_lines(repo, diff):
    "Number of the lines of the original repository which are changed"
    count = 0
    fname = line = None
    for row in diff.splitlines():
        if row.startswith('--- '):
            fname = row[6:]
        elif row.startswith('@@'):
            line = int(row.split()[1][1:].split(',')[0])
        elif fname and line and row[:1] in ' -':
            if row[0] == '-':
                _, out = sh('git blame -s -L %d,%d HEAD -- %s' % (
                    line, line, fname), repo)
                count += out.startswith('^' + BASE)
            line += 1
    return count


def create(seed):
    sdir = os.path.join(SEEDED, seed['id'])
    work = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = work + '/repo'
        sh('cp -a /repo %s && cd %s && git checkout -q -- .' % (repo, repo),
           '/')
        edits = seed['edits']
        for ed in edits:
            fname, old, new = ed if len(ed) == 3 else (
                (seed['file'],) + tuple(ed))
            path = '%s/openquake/commonlib/%s.py' % (repo, fname)
            if '/' in fname:
                path = os.path.join(repo, fname)
            text = open(path).read()
            if text.count(old) != 1:
                return '%s: the text occurs %d times: %s' % (
                    seed['id'], text.count(old), old)
            open(path, 'w').write(text.replace(old, new))
        shutil.rmtree(sdir, ignore_errors=True)
        os.makedirs(sdir)
        _, diff = sh('git diff', repo)
        open(sdir + '/patch.diff', 'w').write(diff)
        shutil.copytree(HERE + '/standins', sdir + '/standins')
        open(sdir + '/demo.sh', 'w').write(DEMO)
        open(sdir + '/demo.py', 'w').write(seed['demo'].lstrip('\n'))
        json.dump(dict(property=seed['property'], needs=seed['needs'],
                       what_it_breaks=seed['breaks']),
                  open(sdir + '/meta.json', 'w'), indent=1)
        clean = work + '/clean'
        sh('cp -a /repo %s && cd %s && git checkout -q -- .' % (
            clean, clean), '/')
        rc0, out0 = demo(sdir, clean)
        rc1, out1 = demo(sdir, repo)
        rct, outt = sh('jython -B -m unittest ' + STABLE, repo,
                       JYTHONPATH='/opt/jylib:' + repo)
        rc, out = sh('jython -B -m unittest ' + ' '.join(
            'openquake.commonlib.tests.%s_test' % t for t in TESTS), repo,
            JYTHONPATH=HERE + '/standins:' + repo)
        fails = [line.split()[1] for line in out.splitlines()
                 if line.startswith(('FAIL:', 'ERROR:'))]
        fails = [f for f in fails if f not in KNOWN]
        original = changed_lines(repo, diff)
        ok = rc0 == 0 and rc1 != 0 and rct == 0 and original
        msg = ('%s %s: demo clean %d, patched %d, stable %d, original lines '
               '%d, others %s' % ('OK ' if ok else 'BAD', seed['id'], rc0,
                                  rc1, rct, original, fails))
        if not ok:
            msg += '\n' + out0[-1500:] + '\n---\n' + out1[-1500:] + outt[-500:]
        elif '-v' in sys.argv:
            msg += '\n' + out1[-600:]
        return msg + '\n' + check(seed['id'], repo)
    finally:
        shutil.rmtree(work)


def check(sid, repo=None):
    sdir = os.path.join(SEEDED, sid)
    pid = json.load(open(sdir + '/meta.json'))['property']
    work = tempfile.mkdtemp(prefix='plant-')
    try:
        if repo is None:
            repo = work + '/repo'
            sh('cp -a /repo %s && cd %s && git checkout -q -- .' % (
                repo, repo), '/')
            rc, out = sh('git apply %s/patch.diff' % sdir, repo)
            if rc:
                return '%s does not apply: %s' % (sid, out)
        # a copy, to have its own evidence and replays
        verif = work + '/verif'
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(
            'seeded', '.git', 'replays'))
        res = []
        for s in (1, 2):
            rc, out = sh('python3 run.py %s --tier quick --seed %d' % (
                pid, s), verif, VERIF_REPO=repo)
            clauses = [line.split(' (case')[0][4:]
                       for line in out.splitlines()
                       if line.startswith('--- ')]
            res.append('%d' % rc)
            if rc == 2 or (rc == 1 and not clauses):
                clauses.append(out[-700:])
        return '    %s by %s: rc %s %s' % (
            'CAUGHT' if res == ['1'] * 2 else 'MISSED' if res == ['0'] * 2
            else 'PARTLY', pid, ','.join(res), clauses[:6])
    finally:
        shutil.rmtree(work)


def main():
    args = [a for a in sys.argv[1:] if a != '-v']
    if args[0] == '--check':
        ids = args[1:] or sorted(os.listdir(SEEDED))
        todo = [(check, i) for i in ids]
    else:
        env = {}
        exec(open(args[0]).read(), env)
        todo = [(create, s) for s in env['SEEDS']
                if not args[1:] or s['id'] in args[1:]]
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        futs = [(i, pool.submit(f, i)) for f, i in todo]
        for i, fut in futs:
            print(i if isinstance(i, str) else i['id'], fut.result(),
                  flush=True)


if __name__ == '__main__':
    main()
