"""C04: deep comparison of objects"""
from openquake.commonlib.general import deep_eq

RULE = ('random nested values (numbers, strings, None, lists, tuples, dicts, '
        'plain and slotted objects, one-shot iterators) compared with a '
        'rebuilt copy having zero or one local change; the signature is '
        '(shape, change)')
REQUIRE = ['equal pairs', 'different pairs', 'excluded differences',
           'tolerated numeric differences', 'slotted objects',
           'plain objects', 'iterators', 'inherited slots', 'large structures',
           'other keys', 'excluded key against another key']
EXCL = ['skip', 'hidden']
OTHER_KEYS = [0, 1, (), (1, 'a'), None, '', -1, 2.5, u'\xe9']


class Plain(object):
    def __init__(self, **kw):
        vars(self).update(kw)


class Plain2(Plain):
    pass


class Old:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slotted(object):
    __slots__ = ['x', 'y', 'skip']


class Slotted2(object):
    __slots__ = ['x', 'y', 'skip']


class SlottedChild(Slotted):
    "It inherits x, y, skip"
    __slots__ = ['z']


class SlottedPlain(Slotted):
    "It inherits the slots and it has a __dict__"


class OneSlot(object):
    __slots__ = 'x'


class Private(object):
    __slots__ = ('x', '__y')

    def __setattr__(self, name, value):
        object.__setattr__(
            self, '_Private__y' if name == 'y' else name, value)


class OldSlots:
    "The slots are ignored by Python in old style classes"
    __slots__ = ['x']

    def __init__(self, **kw):
        self.__dict__.update(kw)


SLOTS = dict(slotted=('x', 'y', 'skip'), slotted2=('x', 'y', 'skip'),
             slottedchild=('x', 'y', 'skip', 'z'), oneslot=('x',),
             private=('x', 'y'))


# a spec is a pure description: a tree of tuples (tag, ...)
def gen(rnd, depth):
    leaf = depth <= 0 or rnd.random() < .25
    if leaf:
        tag = rnd.choice(['int', 'float', 'str', 'unicode', 'none', 'long',
                          'float', 'negative'])
        if tag == 'int':
            return ('num', rnd.randint(0, 1000))
        elif tag == 'long':
            return ('num', rnd.choice([2 ** 40, -2 ** 35, 2 ** 60, -2 ** 70]))
        elif tag == 'float':
            return ('num', rnd.choice([0., .5, 1e-3, 12.25, 1e3, 3.141592]))
        elif tag == 'negative':
            return ('num', rnd.choice([-1, -2.5, -100]))
        elif tag == 'none':
            return ('none',)
        return (tag, rnd.choice(['', 'a', 'abc', 'x y', '1', '%s', '%(a)s',
                                 'A', ' a', 'a ', 'y' * 400]))
    n = rnd.choice([0, 1, 2, 3])
    tag = rnd.choice(['list', 'tuple', 'dict', 'plain', 'plain2', 'old',
                      'slotted', 'slotted2', 'iter', 'slottedchild',
                      'slottedplain', 'oneslot', 'private', 'oldslots'])
    if tag in ('list', 'tuple', 'iter'):
        return (tag, tuple(gen(rnd, depth - 1) for _ in range(n)))
    if tag in SLOTS:  # some slots can be unset
        prob = rnd.choice([1, 1, .6])
        return (tag, tuple((k, gen(rnd, depth - 1))
                           for k in SLOTS[tag] if rnd.random() < prob))
    keys = ['a', 'b', 'x', 'skip', 'hidden', 'k1'][:]
    if tag == 'dict':
        keys += rnd.choice([[], [], OTHER_KEYS])
    rnd.shuffle(keys)
    return (tag, tuple((k, gen(rnd, depth - 1)) for k in keys[:n]))


OBJ = dict(plain=Plain, plain2=Plain2, old=Old, slotted=Slotted,
           slotted2=Slotted2, slottedchild=SlottedChild, oneslot=OneSlot,
           slottedplain=SlottedPlain, private=Private, oldslots=OldSlots)


def build(spec, rnd):
    tag = spec[0]
    if tag in ('num', 'str'):
        return spec[1]
    elif tag == 'unicode':
        return unicode(spec[1])
    elif tag == 'none':
        return None
    elif tag == 'list':
        return [build(s, rnd) for s in spec[1]]
    elif tag == 'tuple':
        return tuple(build(s, rnd) for s in spec[1])
    elif tag == 'iter':
        return (x for x in [build(s, rnd) for s in spec[1]])
    items = list(spec[1])
    rnd.shuffle(items)  # the insertion order must not matter
    if tag == 'dict':
        return dict((k, build(s, rnd)) for k, s in items)
    obj = OBJ[tag]()
    for k, s in items:
        setattr(obj, k, build(s, rnd))
    return obj


def nodes(spec, path=()):
    "All the positions inside a spec"
    yield path, spec
    if spec[0] in ('list', 'tuple', 'iter'):
        for i, s in enumerate(spec[1]):
            for x in nodes(s, path + (i,)):
                yield x
    elif spec[0] in ('dict',) or spec[0] in OBJ:
        for i, (k, s) in enumerate(spec[1]):
            for x in nodes(s, path + (i,)):
                yield x


def replace(spec, path, new):
    if not path:
        return new
    i = path[0]
    children = list(spec[1])
    if spec[0] in ('list', 'tuple', 'iter'):
        children[i] = replace(children[i], path[1:], new)
    else:
        k, s = children[i]
        children[i] = (k, replace(s, path[1:], new))
    return (spec[0], tuple(children))


def hidden(spec, path, exclude):
    "True if the path goes through an excluded key"
    for i in path:
        child = spec[1][i]
        if spec[0] not in ('list', 'tuple', 'iter'):
            if child[0] in exclude:
                return True
            child = child[1]
        spec = child
    return False


def change(rnd, spec, decimal):
    """
    Return (new spec, is it really different?, description)
    """
    tag = spec[0]
    if tag == 'num':
        how = rnd.randrange(5)
        if how == 0 and abs(spec[1]) < 1e6:
            eps = .01 * 10. ** -decimal
            return ('num', float(spec[1]) + eps), False, 'tolerated'
        elif how == 1:
            return ('num', spec[1] + 1), True, 'number'
        elif how == 2 and abs(spec[1]) < 1e6:
            return ('num', spec[1] - 100. * 10 ** -decimal), True, 'small'
        elif how == 3:
            return ('str', str(spec[1])), True, 'number to string'
        return rnd.choice([('none',), ('list', ()), ('dict', ())]), True, \
            'number to other'
    if tag in ('str', 'unicode'):
        how = rnd.randrange(3)
        if how == 0:
            return (dict(str='unicode', unicode='str')[tag], spec[1]), \
                False, 'str/unicode'
        elif how == 1:
            text = spec[1]
            other = rnd.choice([text + 'z', ' ' + text, text + ' ', text[1:],
                                text.swapcase(), text[:-1]])
            return (tag, other), other != text, 'string'
        return rnd.choice([('none',), ('num', 1), ('list', ()),
                           ('dict', ())]), True, 'string to other'
    if tag == 'none':
        return rnd.choice([('num', 0), ('str', ''), ('list', ())]), True, \
            'none'
    if tag in ('list', 'tuple', 'iter'):
        how = rnd.randrange(4)
        if how == 0:
            return (tag, spec[1] + (('num', 1),)), True, 'longer'
        elif how == 1 and spec[1]:
            return (tag, spec[1][:-1]), True, 'shorter'
        elif how == 2 and tag != 'iter':
            return (dict(list='tuple', tuple='list')[tag], spec[1]), \
                False, 'list/tuple'
        if tag == 'iter':  # anything iterable could be taken for equal
            return rnd.choice([('num', 1), ('none',)]), True, 'iter to other'
        return rnd.choice([('num', 1), ('none',), ('str', 'a'),
                           ('dict', (('a', ('num', 1)),))]), True, \
            'sequence to other'
    # dictionaries and objects
    how = rnd.randrange(4)
    if tag in SLOTS:
        free = [k for k in SLOTS[tag] if k not in dict(spec[1])
                and k not in EXCL]
        if how == 0 and free:
            return (tag, spec[1] + ((free[-1], ('num', 1)),)), True, \
                'slot set'
        elif how == 1 and spec[1] and spec[1][-1][0] not in EXCL:
            return (tag, spec[1][:-1]), True, 'slot unset'
    else:
        free = [k for k in ('b', 'zz') if k not in dict(spec[1])]
        if how == 0:
            return (tag, spec[1] + ((free[-1], ('num', 1)),)), True, \
                'extra key'
        elif how == 1 and spec[1] and spec[1][-1][0] not in EXCL:
            return (tag, spec[1][:-1]), True, 'missing key'
        elif how == 2 and spec[1] and spec[1][-1][0] not in EXCL:
            k, s = spec[1][-1]
            return (tag, spec[1][:-1] + (('other', s),)), True, 'renamed key'
    if tag == 'dict':
        return rnd.choice([('num', 1), ('none',), ('str', 'a'),
                           ('list', ())]), True, 'dict to other'
    twin = dict(slotted='slotted2', slotted2='slotted', plain='plain2',
                plain2='plain', old='plain', slottedchild='slottedplain',
                slottedplain='plain', oneslot='slotted', private='slotted',
                oldslots='old')[tag]
    return (twin, spec[1]), True, 'class'


def swapped(rnd, obs):
    """
    The left side has an excluded key more, the right side has another key
    more: the number of the keys is the same, but the keys are not
    """
    tag = rnd.choice(['dict', 'plain', 'old', 'plain2', 'slottedplain'])
    shared = tuple((k, gen(rnd, 1)) for k in ['a', 'b', 'k1'][:rnd.randrange(4)])
    left = (tag, shared + ((rnd.choice(EXCL), gen(rnd, 1)),))
    right = (tag, shared + ((rnd.choice(['zz', 'other']), gen(rnd, 1)),))
    for _ in range(rnd.randrange(3)):
        wrap = rnd.choice(['list', 'tuple', 'dict', 'plain'])
        left, right = [
            (wrap, (s,)) if wrap in ('list', 'tuple') else (wrap, (('w', s),))
            for s in (left, right)]
    obs.note('swapped', left, right)
    for x, y in ((left, right), (right, left)):
        a, b = build(x, rnd), build(y, rnd)
        try:
            ok, msg = deep_eq(a, b, exclude=EXCL)
        except Exception as e:
            obs.fail('raises', '%s: %s' % (e.__class__.__name__, e), x, y)
        obs.check(ok is False, 'verdict', 'got', (ok, msg), 'expected False',
                  x, y)
        obs.check(isinstance(msg, basestring) and msg,
                  'message-when-different', repr(msg), x, y)
    obs.ev('excluded key against another key')
    obs.nontrivial(left, right)


def gen_large(rnd):
    "A deep or wide structure"
    spec = gen(rnd, 2)
    tags = ['list', 'tuple', 'dict', 'plain', 'slotted', 'old']
    if rnd.random() < .5:  # deep
        for i in range(rnd.choice([12, 25])):
            tag = rnd.choice(tags)
            if tag in ('list', 'tuple'):
                spec = (tag, (('num', i), spec) if rnd.random() < .5
                        else (spec, ('str', 'a')))
            else:
                spec = (tag, (('x', spec), ('y', ('num', i))))
    else:  # wide
        n = rnd.choice([50, 150, 400])
        items = tuple(gen(rnd, rnd.choice([0, 0, 1])) for _ in range(n))
        tag = rnd.choice(tags[:4] + ['iter'])
        if tag in ('list', 'tuple', 'iter'):
            spec = (tag, items)
        else:
            spec = (tag, tuple(('n%d' % i, s) for i, s in enumerate(items)))
    return spec


def large(rnd, obs):
    pairs(rnd, obs, gen_large(rnd))
    obs.ev('large structures')


def pairs(rnd, obs, spec=None):
    spec = spec or gen(rnd, rnd.choice([0, 1, 2, 3, 4]))
    decimal = rnd.choice([7, 7, 3, 1])
    exclude = rnd.choice([None, None, [], EXCL, ['skip']])
    if rnd.random() < .25:
        other, differ, what, path = spec, False, 'same', ()
    else:
        positions = [p for p in nodes(spec)]
        path, sub = rnd.choice(positions)
        new, differ, what = change(rnd, sub, decimal)
        other = replace(spec, path, new)
        if hidden(spec, path, exclude or []):
            if differ:
                obs.ev('excluded differences')
            differ = False
    kw = {}
    if decimal != 7 or rnd.random() < .5:
        kw['decimal'] = decimal
    if exclude is not None:
        kw['exclude'] = exclude
    obs.note('spec', spec, 'change', what, 'at', path, kw)
    for left, right in ((spec, other), (other, spec)):
        a, b = build(left, rnd), build(right, rnd)
        try:
            res = deep_eq(a, b, **kw)
        except Exception as e:
            obs.fail('raises', '%s: %s' % (e.__class__.__name__, e), left,
                     right)
        ok, msg = res
        obs.check(ok is (not differ), 'verdict', 'got', res, 'expected',
                  not differ, left, right)
        if ok:
            obs.eq(msg, '', 'message-when-equal')
        else:
            obs.check(isinstance(msg, basestring) and msg,
                      'message-when-different', repr(msg), left, right)
    obs.ev('different pairs' if differ else 'equal pairs')
    if what == 'tolerated':
        obs.ev('tolerated numeric differences')
    text = repr(spec)
    for name, tag in [('slotted objects', "'slotted'"),
                      ('inherited slots', "'slottedchild"),
                      ('plain objects', "'plain"), ('iterators', "'iter'")]:
        if tag in text:
            obs.ev(name)
    if "((1, 'a'), (" in text:
        obs.ev('other keys')
    if exclude is not None:
        obs.check(exclude in ([], EXCL, ['skip']), 'exclude-modified')
    obs.nontrivial(spec, path, what, exclude)
    obs.sample((spec, what, path, exclude, differ))


FAMILIES = [('large', large, 60, 1500),
            ('swapped keys', swapped, 120, 3000),
            ('pairs', pairs, 4000, 80000)]
