"""
Observation API used by the monitors (Jython side).

A check module defines

    FAMILIES = [(name, function, quick_count, thorough_count), ...]

where ``function(rnd, obs)`` runs *one* case: it builds a workload from the
random stream `rnd`, runs the real code of the repository on it, records what
it sees with `obs.ev` and lets an oracle judge it with `obs.check`.
"""
import hashlib
import random
import sys
import traceback


class Violation(Exception):
    def __init__(self, clause, detail):
        Exception.__init__(self, '%s: %s' % (clause, detail))
        self.clause = clause
        self.detail = detail


class HarnessError(Exception):
    """Something wrong in the machinery, not in the code under test"""


def derive(*parts):
    """A well mixed 48 bit integer from the given parts"""
    text = '/'.join(str(p) for p in parts)
    return int(hashlib.md5(text).hexdigest()[:12], 16)


def short(obj, limit=600):
    try:
        text = obj if isinstance(obj, str) else repr(obj)
    except Exception as e:  # a broken __repr__
        text = '<unprintable %s: %s>' % (type(obj).__name__,
                                         e.__class__.__name__)
    if isinstance(text, unicode):
        text = text.encode('ascii', 'backslashreplace')
    if len(text) > limit:
        text = text[:limit] + '...[%d chars]' % len(text)
    return text


class Obs(object):
    """Collects what the monitors see in the cases of one worker"""
    MAX_SAMPLES = 2

    def __init__(self):
        self.counts = {}
        self.signatures = set()
        self.samples = {}
        self.family = None
        self.index = None
        self.scratch = None
        self._notes = []
        self.suspects = []

    # called by the worker
    def start(self, family, index, scratch):
        self.family = family
        self.index = index
        self.scratch = scratch
        self._notes = []
        self.suspects = []

    # called by the checks
    def ev(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, *sig):
        digest = hashlib.md5(
            '%s|%s' % (self.family, short(sig, 100000))).hexdigest()[:14]
        self.signatures.add(digest)

    def sample(self, obj):
        lst = self.samples.setdefault(self.family, [])
        if len(lst) < self.MAX_SAMPLES:
            lst.append(short(obj, 900))

    def note(self, *what):
        """Context that is put in the message if the case fails"""
        self._notes.append(' '.join(short(w) for w in what))

    def context(self):
        return ' | '.join(self._notes[-6:])

    def fail(self, clause, *detail):
        raise Violation(clause, ' '.join(short(d, 1500) for d in detail))

    def suspect(self, clause, spec, *detail):
        """
        Report what is a violation only if the given specification, run alone
        in a new process (by the function `solo` of the check), does not fail
        """
        self.ev('suspects')
        self.suspects.append((clause, spec, ' '.join(
            short(d, 1500) for d in detail)))

    def check(self, cond, clause, *detail):
        self.ev('oracle judgements')
        if not cond:
            self.fail(clause, *detail)

    def eq(self, got, expected, clause, *detail):
        self.ev('oracle judgements')
        if not (got == expected):
            self.fail(clause, 'got', got, 'expected', expected, *detail)

    def raises(self, exc_types, func, clause, *detail):
        """Check that func() raises one of the exc_types; return the error"""
        self.ev('oracle judgements')
        try:
            res = func()
        except exc_types as e:
            self.ev('expected errors seen')
            return e
        except Exception as e:
            self.fail(clause, 'raised %s: %s instead of %s' % (
                e.__class__.__name__, short(e), exc_types), *detail)
        self.fail(clause, 'no error raised, got', res, *detail)


def exc_text(tb_limit=12):
    return ''.join(traceback.format_exception(*sys.exc_info())[-tb_limit:])


def new_random(*parts):
    return random.Random(derive(*parts))
