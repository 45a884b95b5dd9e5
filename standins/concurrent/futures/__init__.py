"""
Stand-in for concurrent.futures: a process pool emulated on threads.

Every call and every result crosses the "process boundary" through pickle,
like in a real pool.  Two modes, chosen by the harness through `CONFIG`:

- mode='script': nothing runs at submit; `as_completed` runs the pending
  calls one by one in the order given by CONFIG['order'](futures) - a
  deterministic, replayable completion order;
- mode='threads' (default): a pool of CONFIG['workers'] threads runs the
  calls concurrently, with CONFIG['delay'](n) called before the n-th run.

`LOG` records submit/start/finish/yield events.
"""
import sys
import cPickle
import itertools
import threading
import Queue
import time

CONFIG = dict(mode='threads', workers=4, order=None, delay=None)
LOG = []
_lock = threading.Lock()
_ids = itertools.count()

PENDING, FINISHED = 'PENDING', 'FINISHED'


class Error(Exception):
    pass


class CancelledError(Error):
    pass


class TimeoutError(Error):
    pass


def _log(*event):
    with _lock:
        LOG.append(event)


class Future(object):
    def __init__(self, payload=None):
        self.ident = _ids.next()
        self._payload = payload
        self._done = threading.Event()
        self._result = None
        self._exception = None
        self._callbacks = []

    def _run(self):
        _log('start', self.ident)
        try:
            func, args, kw = cPickle.loads(self._payload)
            res = func(*args, **kw)
            self._result = cPickle.dumps(res, cPickle.HIGHEST_PROTOCOL)
        except:  # also the instances of old style classes
            self._exception = sys.exc_info()[1]
        _log('finish', self.ident)
        self._done.set()
        for cb in self._callbacks:
            cb(self)

    def done(self):
        return self._done.isSet()

    def running(self):
        return False

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self._callbacks.append(fn)

    def exception(self, timeout=None):
        self._wait(timeout)
        return self._exception

    def _wait(self, timeout):
        if CONFIG['mode'] == 'script' and not self.done():
            self._run()
        self._done.wait(timeout)
        if not self._done.isSet():
            raise TimeoutError()

    def result(self, timeout=None):
        self._wait(timeout)
        if self._exception is not None:
            raise self._exception
        return cPickle.loads(self._result)


class ProcessPoolExecutor(object):
    def __init__(self, max_workers=None):
        self._max_workers = max_workers
        self._queue = Queue.Queue()
        self._threads = []
        self._count = itertools.count()

    def _worker(self):
        while True:
            fut, n = self._queue.get()
            delay = CONFIG.get('delay')
            if delay is not None:
                delay(n)
            fut._run()

    def submit(self, fn, *args, **kwargs):
        fut = Future(cPickle.dumps((fn, args, kwargs),
                                   cPickle.HIGHEST_PROTOCOL))
        _log('submit', fut.ident)
        if CONFIG['mode'] == 'threads':
            while len(self._threads) < CONFIG['workers']:
                t = threading.Thread(target=self._worker)
                t.setDaemon(True)
                t.start()
                self._threads.append(t)
            self._queue.put((fut, self._count.next()))
        return fut

    def map(self, fn, *iterables, **kw):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]
        return (f.result() for f in futs)

    def shutdown(self, wait=True):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


ThreadPoolExecutor = ProcessPoolExecutor


def as_completed(fs, timeout=None):
    fs = list(fs)
    uniq = []
    for f in fs:
        if not any(f is u for u in uniq):
            uniq.append(f)
    if CONFIG['mode'] == 'script':
        order = CONFIG['order'](uniq) if CONFIG['order'] else uniq
        for f in order:
            if not f.done():
                f._run()
            _log('yield', f.ident)
            yield f
        return
    pending = list(uniq)
    while pending:
        done = [f for f in pending if f.done()]
        if not done:
            time.sleep(.0005)
            continue
        for f in done:
            pending.remove(f)
            _log('yield', f.ident)
            yield f


FIRST_COMPLETED = 'FIRST_COMPLETED'
FIRST_EXCEPTION = 'FIRST_EXCEPTION'
ALL_COMPLETED = 'ALL_COMPLETED'


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    fs = list(fs)
    for f in as_completed(fs):
        pass
    return set(fs), set()
