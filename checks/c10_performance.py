"""C10: performance monitoring"""
import logging
import os
import sys
import time
import StringIO
from datetime import datetime
import psutil
import pool
from openquake.commonlib import parallel
from openquake.commonlib.parallel import PerformanceMonitor

RULE = ('programmable process tables (sizes that change between start and '
        'stop, processes that become unreadable before, between or after), '
        'monitors reused several times, blocks that fail; the signature is '
        '(pids, denials, phases)')
REQUIRE = ['monitored blocks', 'deltas observed', 'denied processes',
           'finished processes',
           'failing blocks', 'timed blocks', 'local times', 'warnings', 'silences']
EPS = .01  # seconds, to allow for clocks of different resolution


class Mon(PerformanceMonitor):
    calls = ()

    def on_exit(self):
        self.calls = self.calls + (
            (self.start_time, self.duration, list(self.mem), self.exc),)


class Clock(object):
    def __init__(self):
        self.phase = 0


def monitors(rnd, obs):
    psutil.PROCS.clear()
    pids = rnd.sample(range(2, 60), rnd.choice([1, 1, 2, 3, 5]))
    n_phases = 2 * rnd.choice([1, 2, 3])
    clock = Clock()
    sizes = dict((p, [rnd.randint(0, 10 ** 7) for _ in range(n_phases)])
                 for p in pids)
    denied = dict((p, rnd.choice([999] * 3 + [rnd.randrange(n_phases)]))
                  for p in pids)

    # the process cannot be read anymore or it is finished
    errors = dict((p, rnd.choice([psutil.AccessDenied, psutil.NoSuchProcess]))
                  for p in pids)

    def reader(pid):
        def read():
            if clock.phase >= denied[pid]:
                raise errors[pid](pid)
            return sizes[pid][clock.phase]
        return read
    for p in pids:
        psutil.PROCS[p] = reader(p)
    given = list(pids)
    if rnd.random() < .3:  # null pids are ignored
        given.insert(rnd.randrange(len(given) + 1), rnd.choice([0, None]))
    obs.note('pids', given, 'denied', denied, 'phases', n_phases)
    mon = Mon(given)
    for block in range(n_phases // 2):
        fail = rnd.choice([None, None, ValueError('x'), KeyError('y'),
                           SystemExit(3)])
        seen = len(mon.calls)
        caught = None
        inside, outside = 0, 0
        if rnd.random() < .08:  # the durations cannot be confused
            inside, outside = rnd.choice([(.04, 0), (0, .04), (.03, .03)])
        time.sleep(outside)
        t1 = t2 = t0 = time.time()
        try:
            with mon as m:
                t1 = time.time()
                time.sleep(inside)
                obs.check(m is mon, 'enter-returns-self')
                obs.check(mon.exc is None, 'exc-reset')
                clock.phase += 1
                t2 = time.time()
                if fail:
                    raise fail
        except (ValueError, KeyError, SystemExit) as e:
            caught = e
        t3 = time.time()
        time.sleep(outside)
        obs.check(caught is fail, 'exception-propagated', caught, fail)
        obs.check(mon.exc is fail or (fail is None and mon.exc is None),
                  'exception-recorded', mon.exc, fail)
        start, stop = clock.phase - 1, clock.phase
        expected = [sizes[p][stop] - sizes[p][start] for p in pids
                    if denied[p] > stop]
        obs.eq(list(mon.mem), expected, 'memory-deltas')
        obs.eq(len(mon.calls), seen + 1, 'on-exit-once')
        obs.eq(mon.calls[-1][2], expected, 'on-exit-memory')
        obs.check(mon.calls[-1][3] is mon.exc, 'on-exit-exc')
        obs.check(mon.duration is not None and
                  t2 - t1 - EPS <= mon.duration <= t3 - t0 + EPS,
                  'duration', mon.duration, t2 - t1, t3 - t0)
        obs.check(datetime.fromtimestamp(t0 - EPS) <= mon.start_time
                  <= datetime.fromtimestamp(t1 + EPS), 'start-time',
                  mon.start_time)
        obs.ev('local times', abs(datetime.utcfromtimestamp(t0)
                                  - mon.start_time).seconds > 600)
        obs.ev('timed blocks', inside + outside > 0)
        obs.eq(mon.calls[-1][1], mon.duration, 'on-exit-duration')
        clock.phase += 1
        obs.ev('monitored blocks')
        obs.ev('deltas observed', len(expected))
        obs.ev('denied processes', len(pids) - len(expected))
        obs.ev('finished processes', len(
            [p for p in pids if denied[p] <= stop
             and errors[p] is psutil.NoSuchProcess]))
        obs.ev('failing blocks', fail is not None)
    obs.nontrivial(pids, sorted(denied.items()), n_phases)
    obs.sample((pids, denied, n_phases))


def default_pid(rnd, obs):
    "Without pids the current process is measured and a report is printed"
    psutil.PROCS.clear()
    a, b = rnd.randint(0, 10 ** 6), rnd.randint(0, 10 ** 6)
    values = [a]
    psutil.PROCS[os.getpid()] = lambda: values[0]
    fail = rnd.random() < .5
    out, sys.stdout = sys.stdout, StringIO.StringIO()
    try:
        try:
            with rnd.choice([PerformanceMonitor, lambda: PerformanceMonitor(
                    rnd.choice([None, []]))])() as mon:
                values[0] = b
                if fail:
                    raise ValueError('oops')
        except ValueError:
            pass
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = out
    obs.eq(list(mon.mem), [b - a], 'own-memory')
    obs.check(str([b - a]) in text, 'report-memory', text)
    obs.check(('ValueError(oops)' in text) == fail, 'report-exc', text)
    obs.nontrivial(a, b, fail)


class Handler(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.msgs.append(record.getMessage())


def memory_warning(rnd, obs):
    limit = rnd.choice([80, 80, 50, 95])
    percent = rnd.choice([limit - 30., limit - .5, limit, limit + .5,
                          limit + 4.])
    h = Handler()
    root = logging.getLogger()
    root.addHandler(h)
    old = psutil.MEM_PERCENT
    psutil.MEM_PERCENT = percent
    try:
        if limit == 80 and rnd.random() < .5:
            parallel.check_mem_usage()
        else:
            parallel.check_mem_usage(limit)
    finally:
        psutil.MEM_PERCENT = old
        root.removeHandler(h)
    if percent > limit:
        obs.check(len(h.msgs) == 1 and '%d%%' % percent in h.msgs[0],
                  'warning', percent, limit, h.msgs)
        obs.ev('warnings')
    else:
        obs.eq(h.msgs, [], 'no-warning', percent, limit)
        obs.ev('silences')
    obs.nontrivial(percent, limit)


def square(x):
    return x * x


def tasks_warnings(rnd, obs):
    "The memory is looked at while submitting tasks and collecting results"
    n = rnd.choice([1, 2, 5])
    phase = rnd.choice(['submit', 'collect', 'both', 'none', 'later'])
    high = rnd.choice([81., 95.5])
    h = Handler()
    root = logging.getLogger()
    old = psutil.MEM_PERCENT

    def agg(acc, x):
        if phase == 'later':  # the memory is filled by the first result
            psutil.MEM_PERCENT = high
        return acc + x
    with pool.pool(rnd.choice(['script', 'threads'])):
        tm = parallel.TaskManager(square, lambda *args: None)
        root.addHandler(h)
        try:
            psutil.MEM_PERCENT = high if phase in ('submit', 'both') else 40.
            for i in range(n):
                tm.submit(i)
            before = h.msgs[:]
            psutil.MEM_PERCENT = high if phase in ('collect', 'both') else 40.
            res = tm.aggregate_results(agg, 0)
        finally:
            psutil.MEM_PERCENT = old
            root.removeHandler(h)
    after = h.msgs[len(before):]
    obs.eq(res, sum(i * i for i in range(n)), 'result')
    for name, msgs in [('submit', before), ('collect', after)]:
        exp = phase in (name, 'both') or (
            name == 'collect' and phase == 'later' and n > 1)
        obs.check(bool(msgs) == exp, 'warning-in-phase', name, phase, msgs)
        obs.check(all('%d%%' % high in m for m in msgs), 'warning-text', msgs)
    obs.ev('phases of tasks with much memory' if phase != 'none'
           else 'silences')
    obs.nontrivial(n, phase, high)


REQUIRE.append('phases of tasks with much memory')
FAMILIES = [('tasks_warnings', tasks_warnings, 60, 600),
            ('monitors', monitors, 800, 12000),
            ('default_pid', default_pid, 100, 800),
            ('memory_warning', memory_warning, 100, 800)]
