"""Stand-in for the few numpy functions oq-commons and its tests use"""
import math
import __builtin__

nan = float('nan')
inf = float('inf')
pi = math.pi
bool_ = bool
float32 = float64 = float
int32 = int64 = int


class ndarray(list):
    @property
    def shape(self):
        return (len(self),)


def array(seq, dtype=None):
    return ndarray(seq)


asarray = array


def _ew(fn):
    def wrapped(x):
        if isinstance(x, (list, tuple)):
            return ndarray(fn(v) for v in x)
        return fn(x)
    return wrapped


isnan = _ew(lambda x: x != x)
isinf = _ew(lambda x: x in (inf, -inf))
isfinite = _ew(lambda x: not (x != x or x in (inf, -inf)))
ceil = _ew(lambda x: float(math.ceil(x)))
floor = _ew(lambda x: float(math.floor(x)))
log10 = _ew(math.log10)
sqrt = _ew(math.sqrt)
abs = absolute = _ew(__builtin__.abs)


def sum(x):
    return __builtin__.sum(x)


def mean(x):
    return __builtin__.sum(x) / float(len(x))


def isclose(a, b, rtol=1e-5, atol=1e-8):
    if a == b:
        return True
    return __builtin__.abs(a - b) <= atol + rtol * __builtin__.abs(b)


def allclose(a, b, rtol=1e-5, atol=1e-8):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(
            isclose(x, y, rtol, atol) for x, y in zip(a, b))
    return isclose(a, b, rtol, atol)


from numpy import testing
