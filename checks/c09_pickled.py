"""C09: manual pickling"""
import copy
import gc
import weakref
from openquake.commonlib import parallel
from openquake.commonlib.parallel import Pickled, pickle_sequence
from tasks import CustomError

RULE = ('random nested values and sequences with repeated and already '
        'pickled objects; the signature is the sequence')
REQUIRE = ['round trips', 'shared objects', 'already pickled objects',
           'objects changed after the pickling', 'large objects',
           'temporary objects']


class Thing(object):
    def __init__(self, **kw):
        vars(self).update(kw)

    def __eq__(self, other):
        return type(other) is type(self) and vars(self) == vars(other)

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'Thing(%r)' % sorted(vars(self).items())


def gen(rnd, depth=3):
    how = rnd.randrange(9 if depth else 6)
    if how == 0:
        return rnd.choice([None, True, False, 0, 1, -1, 2 ** 70])
    elif how == 1:
        return rnd.choice(['', 'abc', '\x00\xff', 'x' * 5000])
    elif how == 2:
        return rnd.choice([u'', u'\xe9\u20ac', u'abc'])
    elif how == 3:
        return rnd.choice([0., -1.5, 1e300, 1e-300, 3.141592653589793])
    elif how == 4:
        return rnd.randint(-10 ** 6, 10 ** 6)
    elif how == 5:
        return rnd.choice([ValueError, len, Thing])
    elif how == 6:
        return rnd.choice([list, tuple])(
            gen(rnd, depth - 1) for _ in range(rnd.choice([0, 1, 3])))
    elif how == 7:
        return dict((k, gen(rnd, depth - 1))
                    for k in rnd.sample('abcd', rnd.choice([0, 1, 3])))
    return Thing(x=gen(rnd, depth - 1), y=gen(rnd, depth - 1))


def round_trip(rnd, obs):
    obj = gen(rnd)
    p = Pickled(obj)
    back = p.unpickle()
    obs.check(type(back) is type(obj) and back == obj, 'round-trip', obj,
              back)
    again = p.unpickle()
    obs.check(again == obj, 'unpickle-twice', obj, again)
    if isinstance(obj, (list, dict, Thing)):
        obs.check(back is not obj and back is not again, 'fresh-copy', obj)
    obs.check(len(p) > 0, 'length', len(p))
    big = Pickled([obj, 'x' * 3000])
    obs.check(len(big) - len(p) >= 3000, 'length-in-bytes', len(big), len(p))
    name = obj.__class__.__name__
    obs.check(name in repr(p) and '%dK' % (len(p) // 1024) in repr(p),
              'repr', repr(p))
    # pickled objects can be pickled
    obs.check(Pickled(p).unpickle().unpickle() == obj, 'nested', obj)
    obs.ev('round trips')
    obs.nontrivial(obj)
    obs.sample(obj)


def large(rnd, obs):
    "Big objects and long sequences"
    sequences(rnd, obs, 200)
    obj = rnd.choice(['x' * 10 ** 6, range(20000), dict.fromkeys(
        range(5000), u'\u20ac'), [Thing(a=i) for i in range(1000)]])
    pik = Pickled(obj)
    obs.check(pik.unpickle() == obj, 'round-trip-large', len(obj))
    obs.check(len(pik) >= len(obj), 'length-large', len(pik))
    obs.check('%dK' % (len(pik) // 1024) in repr(pik), 'repr', repr(pik))
    obs.ev('large objects')


def sequences(rnd, obs, n=None):
    pool = [gen(rnd, 2) for _ in range(n or rnd.choice([1, 2, 4]))]
    pool += [Pickled(gen(rnd, 1)) for _ in range(rnd.choice([0, 1, 2]))]
    pool += [[], [], Thing(a=1), Thing(a=1)]  # equal but not the same
    seq = [rnd.choice(pool) for _ in range(n or rnd.choice(
        [0, 1, 3, 8, 20]))]
    out = pickle_sequence(rnd.choice([list, tuple, iter])(seq))
    obs.eq(len(out), len(seq), 'sequence-length')
    for a, p in zip(seq, out):
        obs.check(isinstance(p, Pickled), 'pickled', p)
        if isinstance(a, Pickled):
            obs.check(p is a, 'already-pickled', a)
            obs.ev('already pickled objects')
        else:
            back = p.unpickle()
            obs.check(type(back) is type(a) and back == a,
                      'sequence-value', a, back)
    for i in range(len(seq)):
        for j in range(i):
            if seq[i] is seq[j]:
                obs.check(out[i] is out[j], 'pickled-once', i, j)
                obs.ev('shared objects')
    # independent calls do not share anything stale
    out2 = pickle_sequence([gen(rnd, 1), pool[-1]])
    obs.check(out2[1].unpickle() == pool[-1], 'second-call')
    obs.nontrivial(seq)


def change(rnd, obj):
    """Modify an object in place, if possible; True if it was changed"""
    if isinstance(obj, list):
        obj.append('changed')
    elif isinstance(obj, dict):
        obj['changed'] = 1
    elif isinstance(obj, Thing):
        obj.x = 'changed'
        obj.changed = True
    elif isinstance(obj, tuple):
        return any([change(rnd, el) for el in obj])
    else:
        return False
    return True


def snapshots(rnd, obs):
    """
    A Pickled object is the object as it was when it was pickled: changing
    the original or an unpickled copy afterwards has no effect on it.
    """
    objs = []
    while len(objs) < 3:
        obj = gen(rnd)
        if isinstance(obj, (list, dict, Thing, tuple)):
            objs.append(obj)
    expected = copy.deepcopy(objs)
    pickles = [Pickled(obj) for obj in objs]
    pickles += pickle_sequence(objs)
    lengths = map(len, pickles) if rnd.random() < .5 else None
    used = [rnd.random() < .3 for _ in pickles]
    for p, exp, first in zip(pickles, expected * 2, used):
        if first:
            back = p.unpickle()
            obs.eq(back, exp, 'snapshot-before')
            change(rnd, back)
    changed = [change(rnd, obj) for obj in objs]
    for p, exp in zip(pickles, expected * 2):
        obs.check(p.unpickle() == exp, 'snapshot', exp)
    if lengths is not None:
        obs.eq(map(len, pickles), lengths, 'snapshot-length')
    if any(changed):
        obs.ev('objects changed after the pickling')
        obs.nontrivial(repr(expected))


class ReusedIds(object):
    """
    An `id` giving the identity of a dead object to a new one, as CPython
    does all the time (and Jython never): what is pickled has not to depend
    on identities which are no more valid.
    """
    def __init__(self):
        self.refs = []

    def __call__(self, obj):
        try:
            ref = weakref.ref(obj)
        except TypeError:
            return id(obj)
        for i, old in enumerate(self.refs):
            if old() is obj:
                return i
        gc.collect()
        for i, old in enumerate(self.refs):
            if old() is None:
                self.refs[i] = ref
                return i
        self.refs.append(ref)
        return len(self.refs) - 1


def temporaries(rnd, obs):
    """
    Sequences of objects existing only while they are pickled, some of them
    consecutively repeated
    """
    values = [gen(rnd, 1) for _ in range(rnd.choice([2, 3, 6]))]
    times = [rnd.choice([1, 1, 2]) for _ in values]

    def objects():
        for value, n in zip(values, times):
            obj = Thing(value=value)
            for _ in range(n):
                yield obj
            del obj
    parallel.id = ReusedIds()
    try:
        out = pickle_sequence(objects())
    finally:
        del parallel.id
    expected = [value for value, n in zip(values, times) for _ in range(n)]
    obs.eq([p.unpickle().value for p in out], expected, 'temporary-values')
    obs.ev('temporary objects', len(out))
    obs.nontrivial(values)


FAMILIES = [('temporaries', temporaries, 8, 60),
            ('large', large, 5, 100),
            ('snapshots', snapshots, 300, 4000),
            ('round_trip', round_trip, 800, 10000),
            ('sequences', sequences, 500, 8000)]
