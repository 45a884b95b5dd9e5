"""Workload control for the emulated process pool"""
import contextlib
import os
import time
import concurrent.futures as cf


def drain(timeout=15):
    "Wait for the calls still running on the threads (after a failure)"
    limit = time.time() + timeout
    while cf.CONFIG['mode'] == 'threads' and time.time() < limit:
        events = [e[0] for e in list(cf.LOG)]
        if events.count('finish') >= events.count('submit'):
            break
        time.sleep(.001)


@contextlib.contextmanager
def pool(mode='script', order=None, workers=4, delay=None):
    old = dict(cf.CONFIG)
    cf.CONFIG.update(mode=mode, order=order, workers=workers, delay=delay)
    del cf.LOG[:]
    try:
        yield cf.LOG
    finally:
        drain()
        cf.CONFIG.clear()
        cf.CONFIG.update(old)


@contextlib.contextmanager
def environ(name, value):
    old = os.environ.get(name)
    if value is None:
        os.environ.pop(name, None)
    else:
        os.environ[name] = value
    try:
        yield
    finally:
        if old is None:
            os.environ.pop(name, None)
        else:
            os.environ[name] = old


def shuffled(rnd):
    def order(futures):
        futures = list(futures)
        how = rnd.randrange(4)
        if how == 0:
            futures.reverse()
        elif how < 3:
            rnd.shuffle(futures)
        return futures
    return order


def random_delay(rnd):
    delays = [rnd.choice([0, 0, .0005, .002]) for _ in range(64)]

    def delay(n):
        d = delays[n % 64]
        if d:
            time.sleep(d)
    return delay


@contextlib.contextmanager
def any_mode(rnd, obs):
    """
    Run the block with one of the execution modes; yields its name
    """
    mode = rnd.choice(['script', 'script', 'threads', 'sequential'])
    if mode == 'sequential':
        word = rnd.choice(['1', 'true', 'yes', 'True', 'YES'])
        with environ('OQ_NO_DISTRIBUTE', word):
            with pool() as log:
                yield mode, log
    else:
        word = rnd.choice([None, '', '0', 'false', 'no'])
        with environ('OQ_NO_DISTRIBUTE', word):
            if mode == 'script':
                with pool('script', order=shuffled(rnd)) as log:
                    yield mode, log
            else:
                with pool('threads', delay=random_delay(rnd)) as log:
                    yield mode, log
    obs.ev('runs in mode ' + mode)
