"""C08: the progress reports are truthful"""
import logging
import re
from openquake.commonlib.parallel import map_reduce, TaskManager
import tasks
from pool import any_mode

RULE = ('numbers of tasks from 0 to 450, or some thousands, in any execution mode, with or '
        'without a failing task; the interleaved trace of aggregation and '
        'progress events is checked; the signature is (mode, n, failure)')
REQUIRE = ['percent messages', 'runs in mode script', 'runs in mode threads',
           'runs in mode sequential', 'failed runs', 'complete runs',
           'runs with many tasks']


class Handler(logging.Handler):
    def __init__(self, trace):
        logging.Handler.__init__(self)
        self.trace = trace

    def emit(self, record):
        self.trace.append(('log', record.getMessage()))


def check_trace(obs, trace, name, n, failed):
    "Trace specification; the events are ('log', msg) and ('agg', result)"
    logs = [(pos, ev[1]) for pos, ev in enumerate(trace) if ev[0] == 'log']
    obs.check(logs and logs[0] == (0, 'spawned %d tasks of kind %s' % (
        n, name)), 'spawned-first', trace[:3])
    obs.check(not [1 for pos, msg in logs[1:] if 'spawned' in msg],
              'spawned-once', trace)
    prev, done = 0, 0
    hundred = 0
    for kind, arg in trace[1:]:
        if kind == 'agg':
            obs.check(not hundred, 'aggregation-after-100%', trace)
            done += 1
            continue
        m = re.match(r'^(.*?)\s+(\d+)%$', arg, re.S)
        obs.check(m and m.group(1) == name, 'progress-message', arg)
        percent = int(m.group(2))
        obs.check(percent > prev, 'not-increasing', prev, percent, n)
        obs.check(percent * n <= 100 * done, 'ahead-of-the-work',
                  percent, done, n)
        obs.check(percent <= 100, 'more-than-100', percent)
        hundred += percent == 100
        prev = percent
        obs.ev('percent messages')
    if failed:
        obs.check(not hundred, '100%-in-spite-of-failure', n)
        obs.ev('failed runs')
    else:
        obs.eq(done, n, 'all-aggregated')
        if n:
            obs.eq(hundred, 1, 'final-100%', trace[-3:])
        obs.ev('complete runs')
    # the progress is not silent: at any time the last percentage is near
    # to the fraction of the work which was done
    last, done, pos = 0, 0, 0
    for k, (kind, arg) in enumerate(trace):
        if kind == 'agg':
            if done and not failed:
                obs.check(last >= 100 * done // n - 1, 'late-report',
                          'reported', last, 'done', done, 'of', n)
            done += 1
        elif k:
            last = int(re.search(r'(\d+)%$', arg).group(1))


def many(rnd, obs):
    "Thousands of tasks"
    reports(rnd, obs, rnd.choice([1001, 1500, 2000, 3001]))
    obs.ev('runs with many tasks')


def reports(rnd, obs, n=None):
    if n is None:
        n = rnd.choice([0, 1, 2, 3, 7, 10, 33, 100, 101, 150])
        if rnd.random() < .1:
            n = rnd.choice([200, 299, 450])
    fail = n and rnd.random() < .25
    specs = [(i, None, 'x') for i in range(n)]
    if fail:
        k = rnd.randrange(n)
        specs[k] = (k, 0, 'failed')
    trace = []

    def agg(acc, res):
        trace.append(('agg', res[0]))
        return acc

    tasks.reset()
    name = rnd.choice([None, 'my task', 'risk', 'a: b', '50%'])
    shown = name or 'maybe_fail'
    direct = rnd.random() < .5
    with any_mode(rnd, obs) as (mode, log):
        if direct:
            tm = TaskManager(
                tasks.maybe_fail,
                lambda msg, *args: trace.append(('log', msg % args)), name)
            for spec in specs:
                tm.submit(*spec)
            # several rounds report independently
            def run():
                return tm.aggregate_results(agg, 0)
        else:
            def run():
                return map_reduce(tasks.maybe_fail, specs, agg, 0, name)
        root = logging.getLogger()
        handler = Handler(trace)
        level = root.level
        root.setLevel(logging.INFO)
        if not direct:
            root.addHandler(handler)
        try:
            run()
            failed = False
        except RuntimeError:
            failed = True
        finally:
            root.removeHandler(handler)
            root.setLevel(level)
    obs.check(failed == bool(fail), 'failure-reported')
    obs.note(mode, n, 'fail', fail)
    check_trace(obs, trace, shown, n, failed)
    if direct and not failed:
        # a second round starts again from scratch
        del trace[:]
        tm.submit(0, None, 'again')
        first = len(trace)
        tm.aggregate_results(agg, 0)
        obs.check(first == 0, 'messages-before-aggregation', trace)
        check_trace(obs, trace, shown, 1, False)
    obs.nontrivial(mode, n, fail and k, name)
    obs.sample(trace[:6])


FAMILIES = [('many', many, 8, 120),
            ('reports', reports, 500, 9000)]
