"""
Top level task functions sent to the (emulated) process pool, with a shared
log of what was executed.  The log is the recorded history the offline
checkers of C06-C08 read.
"""
import threading
import time

RUNS = []
_lock = threading.Lock()


def record(*what):
    with _lock:
        RUNS.append(what)


def reset():
    with _lock:
        del RUNS[:]


class CustomError(Exception):
    def __init__(self, code, text):
        Exception.__init__(self, code, text)
        self.code = code

    def __str__(self):
        return 'custom<%s>' % (self.args,)


class OldStyleError:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Derived(CustomError):
    pass


def value(n, result, *rest):
    "Return the given result"
    record('run', n)
    return result


def pair(n, result, *rest):
    "Return (n, result)"
    record('run', n)
    return n, result


def slow_pair(n, result, delay=0):
    record('run', n)
    if delay:
        time.sleep(delay)
    return n, result


def no_args():
    record('run', None)
    return 1


class Unprintable(Exception):
    "Its message cannot be computed"
    def __str__(self):
        raise ZeroDivisionError('in __str__')
    __repr__ = __str__


ERRORS = [ValueError, KeyError, TypeError, ZeroDivisionError, RuntimeError,
          AssertionError, StopIteration, SystemExit, KeyboardInterrupt,
          GeneratorExit, IOError, NotImplementedError, CustomError, Derived,
          OldStyleError]


def failing_inner_function(idx, text):
    cls = ERRORS[idx]
    if issubclass(cls, CustomError):
        raise cls(7, text)
    raise cls(text)


def deeper(levels, idx, text):
    if levels:
        return deeper(levels - 1, idx, text)
    failing_inner_function(idx, text)


def maybe_fail(n, idx, text, levels=0):
    "Fail if idx is not None, return (n, text) otherwise"
    record('run', n)
    if idx is not None:
        deeper(levels, idx, text)
    return n, text


def unprintable(n, fail):
    record('run', n)
    if fail:
        raise Unprintable('x')
    return n


class Callable(object):
    "An instance usable as a task"
    __name__ = 'callable'

    def __call__(self, *args):
        return value(*args)


def bad_signature(a, b):
    record('run', a)
    return a, b


def echo(*args):
    "Return the arguments as they were received"
    record('run', args)
    return args
