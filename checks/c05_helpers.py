"""C05: distinct, ceil, str2bool, writetmp"""
import os
import collections
from openquake.commonlib.general import distinct, ceil, str2bool, writetmp

RULE = ('random key streams, fractions, words and file contents; the '
        'signature is the input')
REQUIRE = ['keys', 'quotients', 'words', 'temporary files',
           'descriptor counts']


class Collision(object):
    "Different keys with the same hash"
    def __init__(self, value):
        self.value = value

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Collision) and self.value == other.value

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'Collision(%d)' % self.value


def distinct_(rnd, obs):
    pool = rnd.choice([range(5), 'abc', [(1, 2), (1,), ()], [None, 0, '', 1],
                       range(100), ['Aa', 'BB', 'AaAa', 'BBBB', 'AaBB', 'a'],
                       [Collision(i) for i in range(4)],
                       [-1, -2, 2 ** 64, 2 ** 32, 0, 1 << 61],
                       [1, 1.0, True, '1', u'1', 2L, 2],
                       [frozenset([1]), frozenset([1, 2]), frozenset()],
                       [float(i) / 8 for i in range(9)],
                       range(1000)])
    keys = [rnd.choice(list(pool)) for _ in range(rnd.choice(
        [0, 1, 2, 5, 20, 60, 300, 3000]))]
    how = rnd.choice([list, tuple, iter])
    got = distinct(how(keys))
    expected = list(collections.OrderedDict.fromkeys(keys))
    got = list(got)
    obs.eq(got, expected, 'distinct', keys)
    # the first of the equal keys is returned
    obs.eq(map(type, got), map(type, expected), 'distinct-first', keys)
    obs.ev('keys', len(keys))
    obs.nontrivial(keys)
    obs.sample(keys)


def ceil_(rnd, obs):
    b = rnd.choice([1, 2, 3, 7, 10, 64, 999, rnd.randint(1, 10 ** 6)])
    a = rnd.choice([0, 1, b, b + 1, b - 1, 2 * b, 5 * b - 1,
                    rnd.randint(-1000, 10 ** 9),
                    -1, -b, 1 - 2 * b, rnd.randint(-10 ** 7, 0)])
    got = ceil(a, b)
    obs.eq(got, -(-a // b), 'ceil', a, b)
    obs.check(isinstance(got, (int, long)), 'ceil-integer', got)
    q = rnd.choice([.5, .25, 2., 1.5])
    n = rnd.randint(-1000, 1000)
    obs.eq(ceil(n * .25, q), -(-n * 25 // int(q * 100)), 'ceil-float',
           n * .25, q)
    obs.raises(Exception, lambda: ceil(a, rnd.choice([0, -1, -2.5])),
               'ceil-nonpositive-divisor')
    obs.ev('quotients', 2)
    obs.nontrivial(a, b, n, q)


def str2bool_(rnd, obs):
    word = rnd.choice(['true', 'yes', 't', '1', 'false', 'no', 'f', '0', '',
                       'tru', 'y', 'on', 'yess', '10', 'true ', 'n', 'true1'])
    word = ''.join(rnd.choice([c.lower(), c.upper()]) for c in word)
    if rnd.random() < .2:
        word = unicode(word)
    obs.check(str2bool(word) is (word.lower() in [
        'true', 'yes', 't', '1']), 'str2bool', word)
    obs.ev('words')
    obs.nontrivial(word)


def n_fds():
    return len(os.listdir('/proc/self/fd'))


def writetmp_(rnd, obs):
    "The content is on the disk when writetmp returns"
    paths = []
    for _ in range(rnd.choice([1, 3])):
        content = rnd.choice([None, '', 'x', 'a,b\n1,2\n', 'x' * 70000,
                              '\r\n\x00\xff\n', '0', u'ascii', '\n', ' ',
                              '\x00', 'ab\r\n' * 300000, 'x' * 8192])
        kw = {}
        if rnd.random() < .6:
            kw['dir'] = os.path.join(obs.scratch, *rnd.choice(
                [[], ['new'], ['new', 'nested', 'deep']]))
        if rnd.random() < .5:
            kw['prefix'] = rnd.choice(['pre', 'a.b-', ''])
        if rnd.random() < .5:
            kw['suffix'] = rnd.choice(['.xml', '', '_end'])
        path = (writetmp(content, **kw) if content is not None or
                rnd.random() < .5 else writetmp(**kw))
        try:
            obs.check(os.path.isfile(path), 'file-exists', path)
            with open(path, 'rb') as f:
                data = f.read()
            obs.check(data == (content or ''), 'file-content',
                      'got', len(data), 'expected', len(content or ''))
            name = os.path.basename(path)
            obs.check(name.startswith(kw.get('prefix', 'tmp')) and
                      name.endswith(kw.get('suffix', 'tmp')), 'file-name',
                      path, kw)
            if 'dir' in kw:
                obs.eq(os.path.dirname(os.path.abspath(path)),
                       os.path.abspath(kw['dir']), 'file-dir')
            obs.check(path not in paths, 'file-unique', path)
            paths.append(path)
        finally:
            if 'dir' not in kw and os.path.exists(path):
                os.remove(path)
                paths.remove(path)
        obs.ev('temporary files')
        obs.nontrivial(content and len(content), sorted(kw))


def descriptors(rnd, obs):
    "No file descriptor is left open"
    content = rnd.choice([None, '', 'some content'])
    writetmp(content, dir=obs.scratch)
    before = n_fds()
    for _ in range(60):
        writetmp(content, dir=obs.scratch)
    after = n_fds()
    obs.check(after - before < 40, 'descriptor-leak',
              'content', content, 'open before', before, 'after', after)
    obs.ev('descriptor counts')
    obs.nontrivial(content, before)


FAMILIES = [('distinct', distinct_, 600, 8000),
            ('ceil', ceil_, 600, 8000),
            ('str2bool', str2bool_, 300, 1000),
            ('writetmp', writetmp_, 300, 3000),
            ('descriptors', descriptors, 12, 40)]
