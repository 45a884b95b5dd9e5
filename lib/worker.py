"""
Jython worker: runs a slice of the cases of one check, under observation.

usage: worker.py JOB.json   (see run.py)
"""
import codecs
import errno
import imp
import json
import linecache
import os
import re
import shutil
import sys
import threading
import time
import traceback

from java.lang import Runtime, Throwable, OutOfMemoryError

import vlib

CASE_LIMIT = 20  # seconds
IMPORT_LIMIT = 200
QUICK_FACTOR = 5


def is_under(path, root):
    return path.startswith(root + os.sep)


class Watchdog(threading.Thread):
    """Stops the process when a case takes too long"""
    def __init__(self, path, limit):
        threading.Thread.__init__(self)
        self.setDaemon(True)
        self.path = path
        self.limit = limit
        self.case = None
        self.since = 0

    def begin(self, case):
        self.since = time.time()
        self.case = case

    def end(self):
        self.case = None

    def run(self):
        while True:
            time.sleep(0.5)
            case = self.case
            if case is not None and time.time() - self.since > self.limit:
                if self.case is case:
                    with open(self.path, 'w') as f:
                        json.dump(dict(case=case), f)
                    Runtime.getRuntime().halt(97)


class Profiler(object):
    """Collects the functions of the repository that are executed"""
    def __init__(self, repo):
        self.repo = repo
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            code = frame.f_code
            fname = code.co_filename
            if is_under(fname, self.repo):
                self.seen.add('%s:%s' % (
                    os.path.basename(fname)[:-3], code.co_name))


def missing_standin(standins, exc, tb):
    """Say if the error is about a name which a stand-in does not have"""
    m = re.match("'module' object has no attribute '(\\w+)'", str(exc))
    if not m:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    line = linecache.getline(tb.tb_frame.f_code.co_filename, tb.tb_lineno)
    for name in re.findall(r'([\w.]+)\.%s\b' % m.group(1), line) or ['?']:
        try:
            mod = eval(name, tb.tb_frame.f_globals, tb.tb_frame.f_locals)
            fname = os.path.abspath(mod.__file__)
        except Exception:
            return True  # it cannot be excluded
        if is_under(fname, standins):
            return True
    return False


def classify(repo, standins, exc_type, exc, tb):
    """
    Say if an unexpected exception is due to the code under test: either it
    was raised there, or in a monitor looking at what it did (as no monitor
    fails on the outcomes it understands).
    """
    files = [fr[0] for fr in traceback.extract_tb(tb)]
    if issubclass(exc_type, (ImportError, MemoryError)):
        return 'harness'
    if issubclass(exc_type, EnvironmentError) and exc.errno in (
            errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM):
        return 'harness'
    if exc_type is AttributeError and missing_standin(standins, exc, tb):
        return 'harness'
    if exc_type is NotImplementedError and is_under(files[-1], standins):
        return 'harness'
    return 'repo'


def run_case(check, name, func, index, job, obs, res, wd, scratch_root):
    case = [name, index]
    seed = vlib.derive(job['seed'], job['id'], name, index)
    rnd = vlib.random.Random(seed)
    scratch = os.path.join(scratch_root, 'case')
    os.mkdir(scratch)
    obs.start(name, index, scratch)
    wd.begin(case)
    problem = None
    try:
        func(rnd, obs)
    except vlib.Violation as v:
        problem = dict(kind='violation', clause=v.clause, detail=v.detail)
    except vlib.HarnessError as e:
        problem = dict(kind='harness', detail=str(e))
    except (SystemExit, KeyboardInterrupt, Exception) as e:
        et, ev, tb = sys.exc_info()
        kind = classify(job['repo'], job['standins'], et, e, tb)
        problem = dict(
            kind='violation' if kind == 'repo' else 'harness',
            clause='unexpected-exception:%s' % et.__name__,
            detail=vlib.exc_text())
    except OutOfMemoryError:
        with open(job['hang'], 'w') as f:
            json.dump(dict(case=case, oom=True), f)
        Runtime.getRuntime().halt(98)
    except Throwable as e:
        problem = dict(
            kind='violation',
            clause='java-error:%s' % e.getClass().getName(),
            detail=vlib.exc_text())
    except:  # an instance of an old style class
        problem = dict(
            kind='violation',
            clause='unexpected-exception:%s' % getattr(
                sys.exc_info()[0], '__name__', '?'),
            detail=vlib.exc_text())
    wd.end()
    os.chdir(scratch_root)
    shutil.rmtree(scratch, ignore_errors=True)
    if os.path.exists(scratch):
        os.rename(scratch, scratch + '-left-%d' % int(time.time() * 1000))
    for clause, spec, detail in obs.suspects:
        old = res['suspects'].setdefault(clause, dict(
            kind='violation', clause=clause, detail=detail, family=name,
            index=index, key='%s/%s' % (name, clause), solo=spec,
            context=obs.context(), shard=job['shard'],
            nshards=job['nshards']))
        old['times'] = old.get('times', 0) + 1
    if problem:
        problem['context'] = obs.context()
        problem['family'] = name
        problem['index'] = index
        problem['key'] = '%s/%s' % (name, problem.get('clause', 'harness'))
        if problem['kind'] == 'harness':
            res['harness'].append(problem)
        else:
            old = res['violations'].setdefault(problem['key'], problem)
            old['times'] = old.get('times', 0) + 1
    return problem


def main(jobfile):
    with open(jobfile) as f:
        job = json.load(f)
    for k in job:
        if isinstance(job[k], unicode):
            job[k] = job[k].encode('utf8')
    scratch_root = job['scratch']
    os.chdir(scratch_root)
    for p in list(sys.path):
        if p == '' or p == '.':
            sys.path.remove(p)
    t0 = time.time()
    res = dict(violations={}, suspects={}, harness=[], done={}, skipped=0)
    obs = vlib.Obs()
    prof = Profiler(job['repo'])
    out = sys.stdout
    wd = Watchdog(job['hang'], IMPORT_LIMIT)
    wd.begin(['<import>', 0])
    wd.start()
    try:
        check = imp.load_source('check_module', job['module'])
    except Exception as e:
        et, ev, tb = sys.exc_info()
        files = [fr[0] for fr in traceback.extract_tb(tb)]
        problem = dict(kind='harness', family='<import>', index=0,
                       key='import', detail=vlib.exc_text(20), context='')
        if is_under(files[-1], job['repo']) and not isinstance(
                e, SyntaxError) and classify(
                    job['repo'], job['standins'], et, e, tb) == 'repo':
            # the code under test refuses to start
            problem.update(kind='violation', clause='import-fails', times=1,
                           key='<import>/import-fails')
            res['violations'][problem['key']] = problem
        else:
            res['harness'].append(problem)
        check = None
    wd.end()
    wd.limit = job.get('case_limit', CASE_LIMIT)
    if check is not None and job.get('solo'):
        res['done']['solo'] = 1
        run_case(check, 'solo', lambda rnd, obs: check.solo(
            job['solo'], obs), 0, job, obs, res, wd, scratch_root)
    elif check is not None:
        plan = []
        for name, func, quick, thorough in check.FAMILIES:
            res['done'][name] = 0
            if job.get('only'):
                if job['only'][0] != name:
                    continue
                plan.append((0, name, func, job['only'][1]))
                continue
            if job.get('family') and job['family'] != name:
                continue
            n = (min(quick * QUICK_FACTOR, thorough)
                 if job['tier'] == 'quick' else thorough)
            for i in range(job['shard'], n, job['nshards']):
                plan.append(((i + .5) / n, name, func, i))
        plan.sort(key=lambda t: (t[0], t[1]))
        skip = set((n.encode('utf8'), i) for n, i in job.get('skip', []))
        for pos, name, func, i in plan:
            if (name, i) in skip:
                continue
            if time.time() - t0 > job['budget']:
                res['skipped'] += 1
                continue
            profiled = res['done'][name] < 3
            if profiled:
                sys.setprofile(prof)
            try:
                run_case(check, name, func, i, job, obs, res, wd,
                         scratch_root)
            finally:
                if profiled:
                    sys.setprofile(None)
            res['done'][name] += 1
            if len(res['harness']) > 5 or len(res['violations']) > 12:
                break
    res['counts'] = obs.counts
    res['signatures'] = sorted(obs.signatures)
    res['samples'] = obs.samples
    res['reached'] = sorted(prof.seen | getattr(check, 'REACHED', set()))
    res['wall'] = time.time() - t0
    res['rule'] = getattr(check, 'RULE', '')
    res['assumptions'] = getattr(check, 'ASSUMPTIONS', [])
    res['require'] = getattr(check, 'REQUIRE', [])
    with codecs.open(job['out'] + '.tmp', 'w', 'utf8') as f:
        json.dump(clean(res), f)
    os.rename(job['out'] + '.tmp', job['out'])
    sys.stdout.flush()
    Runtime.getRuntime().halt(0)  # do not wait for threads left behind


def clean(obj):
    if isinstance(obj, dict):
        return dict((clean(k), clean(v)) for k, v in obj.items())
    elif isinstance(obj, (list, tuple)):
        return [clean(x) for x in obj]
    elif isinstance(obj, str):
        return obj.decode('utf8', 'replace')
    return obj


if __name__ == '__main__':
    main(sys.argv[1])
