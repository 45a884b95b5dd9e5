#!/usr/bin/env python3
"""
Driver of the checks.

usage: run.py ID [--tier quick|thorough] [--seed N] [--family NAME]
       run.py ID --replay FILE
       run.py --selftest

Runs the monitors of checks/ID*.py (under Jython, against the sources in
/repo, or $VERIF_REPO), collects what they observed, writes evidence/ID.json
and exits with 0 (the property held), 1 (VIOLATION line printed) or 2 (no
answer: something is wrong in the machinery).
"""
import argparse
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
STANDINS = os.path.join(HERE, 'standins')
KNOWN = os.path.join(HERE, 'known_findings.txt')
BUDGET = {'quick': 240, 'thorough': 600}   # seconds of case execution
SHARDS = {'quick': 4, 'thorough': 7}
PARALLEL = 6  # processes
SINGLE_LIMIT = 90  # seconds given to a single case that seemed to hang
RULE = ('every case is built from a pseudo random stream derived from the '
        'seed, the family and the case number; a case counts as distinct and '
        'non-trivial when its signature (the shape recorded by the monitor, '
        'see the check) was not seen before in the run')


def java_cmd(scratch, script, *args):
    jython = os.path.realpath(shutil.which('jython'))
    home = os.path.dirname(os.path.dirname(jython))
    jar = '/usr/share/java/jython.jar'
    return ['java', '-Xmx2500m', '-Xss8m', '-XX:+UseSerialGC',
            '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + scratch,
            '-jar', jar, '-Dpython.home=' + home,
            '-Dpython.executable=' + jython,
            '-B', script] + list(args)


def environ(scratch):
    env = {k: v for k, v in os.environ.items()
           if k in ('PATH', 'JAVA_HOME', 'LANG')}
    env.update(
        HOME=scratch, TMPDIR=scratch, LC_ALL='C.UTF-8',
        TZ='Asia/Kolkata',  # the local time is not the universal one
        PYTHONDONTWRITEBYTECODE='1',
        JYTHONPATH=os.pathsep.join([STANDINS, REPO,
                                    os.path.join(HERE, 'lib'),
                                    os.path.join(HERE, 'checks')]))
    return env


class Run(object):
    def __init__(self, cid, tier, seed, family=None, only=None):
        self.cid = cid
        self.tier = tier
        self.seed = seed
        self.family = family
        self.only = only
        mods = glob.glob(os.path.join(HERE, 'checks', cid.lower() + '_*.py'))
        if len(mods) != 1:
            sys.exit('no check module for %s: %s' % (cid, mods))
        self.module = mods[0]
        self.root = tempfile.mkdtemp(prefix='verif-%s-' % cid)
        self.n = 0

    def start(self, shard, nshards, budget, only=None, skip=(), limit=None,
              solo=None):
        self.n += 1
        scratch = os.path.join(self.root, 'w%d' % self.n)
        os.mkdir(scratch)
        job = dict(
            id=self.cid, module=self.module, tier=self.tier, seed=self.seed,
            shard=shard, nshards=nshards, budget=budget, repo=REPO,
            standins=STANDINS, scratch=scratch, family=self.family,
            out=os.path.join(self.root, 'out%d.json' % self.n),
            hang=os.path.join(self.root, 'hang%d.json' % self.n),
            log=os.path.join(self.root, 'log%d.txt' % self.n),
            skip=list(skip))
        if only:
            job['only'] = only
        if limit:
            job['case_limit'] = limit
        if solo:
            job['solo'] = solo
        jobfile = os.path.join(self.root, 'job%d.json' % self.n)
        with open(jobfile, 'w') as f:
            json.dump(job, f)
        log = open(job['log'], 'w')
        proc = subprocess.Popen(
            java_cmd(scratch, os.path.join(HERE, 'lib', 'worker.py'),
                     jobfile),
            cwd=scratch, env=environ(scratch), stdin=subprocess.DEVNULL,
            stdout=log, stderr=subprocess.STDOUT)
        log.close()
        return proc, job

    def finish(self, proc, job, limit):
        """Return (kind, data) with kind in ok/hang/oom/error"""
        try:
            proc.wait(limit)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
        if os.path.exists(job['out']):
            with open(job['out']) as f:
                return 'ok', json.load(f)
        if os.path.exists(job['hang']):
            with open(job['hang']) as f:
                data = json.load(f)
            return ('oom' if data.get('oom') else 'hang'), data['case']
        with open(job['log'], errors='replace') as f:
            text = f.read()
        return 'error', 'worker ended with %s: %s' % (
            proc.returncode, text[-3000:])

    def collect(self, proc, job, budget, results):
        t_end = time.time() + budget + 150
        hangs = 0
        while True:
            kind, data = self.finish(
                proc, job, max(30, t_end - time.time()))
            if kind == 'ok':
                results.append(data)
                return
            if kind == 'error':
                results.append(dict(harness=[dict(
                    family='<worker>', index=0, detail=data)]))
                return
            # a case that seems not to terminate: run it alone
            hangs += 1
            family, index = data
            p, j = self.start(0, 1, SINGLE_LIMIT, only=data,
                              limit=SINGLE_LIMIT)
            kind2, data2 = self.finish(p, j, SINGLE_LIMIT + 60)
            if kind2 == 'ok':
                results.append(data2)
            elif kind2 == 'error':
                results.append(dict(harness=[dict(
                    family=family, index=index, detail=data2)]))
            else:
                what = ('did not terminate in %d s (the other cases of the '
                        'family take milliseconds)' % SINGLE_LIMIT
                        if kind2 == 'hang' else 'exhausted the memory')
                clause = 'does-not-terminate'
                key = '%s/%s' % (family, clause)
                results.append(dict(violations={key: dict(
                    kind='violation', family=family, index=index,
                    clause=clause, key=key, detail=what, context='',
                    times=1)}, done={family: 1}))
            if hangs >= 2 or family == '<import>' or self.only:
                return
            proc, job = self.start(
                job['shard'], job['nshards'], max(20, t_end - time.time()
                                                  - 150),
                skip=job['skip'] + [data])

    def run(self):
        budget = float(os.environ.get('VERIF_BUDGET', BUDGET[self.tier]))
        nshards = int(os.environ.get('VERIF_SHARDS', SHARDS[self.tier]))
        results = []
        if self.only:
            proc, job = self.start(0, 1, SINGLE_LIMIT, only=self.only,
                                   limit=SINGLE_LIMIT)
            self.collect(proc, job, SINGLE_LIMIT, results)
        else:
            jobs = [self.start(s, nshards, budget) for s in range(nshards)]
            for proc, job in jobs:
                self.collect(proc, job, budget, results)
        self.arbitrate(results)
        return results

    def shard(self, shard, nshards, budget):
        "All the cases of a shard again, in the same order"
        results = []
        proc, job = self.start(shard, nshards, budget)
        self.collect(proc, job, budget, results)
        self.arbitrate(results)
        return results

    def arbitrate(self, results):
        """
        Some workloads failed also when run again in the same process: it is
        a violation if they do not fail alone in a new process, and nothing
        to do with the property otherwise
        """
        suspects = {}
        for res in results:
            for key, v in res.get('suspects', {}).items():
                old = suspects.setdefault(key, v)
                if v['index'] < old['index']:
                    suspects[key] = v
        todo = [v for _k, v in sorted(suspects.items())]
        counts = {}
        while todo:
            jobs = [(v, self.start(0, 1, SINGLE_LIMIT, solo=v['solo'],
                                   limit=SINGLE_LIMIT))
                    for v in todo[:PARALLEL]]
            del todo[:PARALLEL]
            for v, (proc, job) in jobs:
                kind, data = self.finish(proc, job, SINGLE_LIMIT + 60)
                if kind == 'ok' and not data['harness'] and not \
                        data['violations']:
                    results.append(dict(violations={v['key']: v}))
                else:
                    counts['suspects failing also alone'] = counts.get(
                        'suspects failing also alone', 0) + 1
            if any(r.get('violations') for r in results):
                break
        results.append(dict(counts=counts))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def merge(results):
    tot = dict(violations={}, harness=[], done={}, counts={}, samples={},
               signatures=set(), reached=set(), skipped=0, rule='',
               assumptions=[], require=[])
    for res in results:
        for key, v in sorted(res.get('violations', {}).items()):
            old = tot['violations'].get(key)
            if old is None or v['index'] < old['index']:
                if old:
                    v['times'] += old['times']
                tot['violations'][key] = v
            else:
                old['times'] += v['times']
        tot['harness'].extend(res.get('harness', []))
        for what in ('done', 'counts'):
            for k, n in res.get(what, {}).items():
                tot[what][k] = tot[what].get(k, 0) + n
        for fam, lst in res.get('samples', {}).items():
            tot['samples'].setdefault(fam, []).extend(lst)
        tot['signatures'].update(res.get('signatures', []))
        tot['reached'].update(res.get('reached', []))
        tot['skipped'] += res.get('skipped', 0)
        for k in ('rule', 'assumptions', 'require'):
            tot[k] = tot[k] or res.get(k)
    return tot


def known_keys(cid):
    """
    The findings recorded for the property: lines of the form
    `KNOWN: property=<id> key=<key> case=<regex on the detail> # text`
    """
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'KNOWN: property=(\S+) key=(\S+) '
                             r'detail=/(.*)/ # (.*)', line)
                if m and m.group(1) == cid:
                    out.append((m.group(2), re.compile(m.group(3), re.S),
                                m.group(4).strip()))
    return out


def selftest():
    """Check that the machinery works here: nothing has to be built"""
    root = tempfile.mkdtemp(prefix='verif-selftest-')
    try:
        script = os.path.join(root, 'selftest.py')
        with open(script, 'w') as f:
            f.write('import glob, imp, os, sys\n'
                    'for i, name in enumerate(sorted(glob.glob(sys.argv[1] + '
                    '"/c[0-9]*.py"))):\n'
                    '    mod = imp.load_source("check%d" % i, name)\n'
                    '    assert mod.FAMILIES and mod.RULE, name\n'
                    'print i + 1, "checks imported by", '
                    'sys.version.split()[0]\n')
        proc = subprocess.run(
            java_cmd(root, script, os.path.join(HERE, 'checks')), cwd=root,
            env=environ(root), stdin=subprocess.DEVNULL, timeout=600)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.exit(proc.returncode)


def main():
    if sys.argv[1:] == ['--selftest']:
        selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--family')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    only = None
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        args.id, args.seed = rep['property'], rep['seed']
        only = [rep['family'], rep['index']]
        args.tier = rep.get('tier', args.tier)
    run = Run(args.id, args.tier, args.seed, args.family, only)
    try:
        tot = merge(run.run())
        if only and rep.get('shard') is not None and not tot['violations']:
            # it may depend on the previous cases of the same process
            run.only, run.n = None, 100
            tot = merge(run.shard(rep['shard'], rep['nshards'],
                                  BUDGET[args.tier]))
    finally:
        run.close()
    wall = time.time() - t0

    # split the known findings from the new violations
    new, known = [], []
    for key, v in sorted(tot['violations'].items()):
        for kkey, regex, text in known_keys(args.id):
            if kkey == key and regex.search(v['detail']):
                known.append((v, text))
                break
        else:
            new.append(v)
    evaluations = sum(tot['done'].values())
    problems = list(tot['harness'])
    if not problems and not new:
        if not tot['reached']:
            problems.append(dict(family='*', index=0, detail='no function of '
                                 'the repository was executed'))
        if not only and not args.family:
            for name in tot['require'] or []:
                if not tot['counts'].get(name):
                    problems.append(dict(
                        family='*', index=0,
                        detail='the event %r was never observed' % name))
            if not tot['signatures']:
                problems.append(dict(family='*', index=0,
                                     detail='no non-trivial case'))
    samples = [dict(family=f, case=s) for f, lst in
               sorted(tot['samples'].items()) for s in lst[:2]]
    evidence = dict(
        property=args.id, tier=args.tier, seed=args.seed,
        level='exploration',
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(tot['signatures']),
            rule=(tot['rule'] or '') + ' [' + RULE + ']',
            samples=samples,
            cases_per_family=tot['done'],
            observed_events=dict(sorted(tot['counts'].items())),
            functions_reached=sorted(tot['reached']),
            cases_skipped_for_time=tot['skipped']),
        assumptions=tot['assumptions'] or [],
        wall_s=round(wall, 2),
        violations=len(new))
    if not only and not args.family:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', args.id + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.rename(path + '.tmp', path)

    for v, text in known:
        print('KNOWN-FINDING: property=%s %s' % (args.id, text))
    for v in new:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        slug = re.sub(r'[^A-Za-z0-9_.-]+', '_', v['key'])[:80]
        path = os.path.join(rdir, '%s-%s.json' % (args.id, slug))
        with open(path, 'w') as f:
            json.dump(dict(property=args.id, seed=args.seed, tier=args.tier,
                           shard=v.get('shard'), nshards=v.get('nshards'),
                           family=v['family'], index=v['index'],
                           clause=v['clause'], detail=v['detail'],
                           context=v['context'], times=v['times']), f,
                      indent=1)
        print('--- %s (case %s of %s, seen %d times)\n%s\n%s' % (
            v['clause'], v['index'], v['family'], v['times'],
            v['detail'][-3000:], v['context'][-1500:]))
        print('VIOLATION property=%s replay=%s' % (args.id, path))
    for p in problems[:5]:
        print('HARNESS PROBLEM in %s case %s:\n%s\n%s' % (
            p['family'], p['index'], p['detail'][-3000:],
            p.get('context', '')[-1000:]), file=sys.stderr)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, '
          '%d skipped, %.1f s' % (
              args.id, args.tier, args.seed, evaluations,
              len(tot['signatures']), len(new), tot['skipped'], wall))
    if args.v:
        print(json.dumps(evidence['coverage'], indent=1, sort_keys=True))
    sys.exit(1 if new else 2 if problems else 0)


if __name__ == '__main__':
    main()
