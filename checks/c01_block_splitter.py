"""C01: splitting a weighted stream of items in blocks"""
import itertools
from openquake.commonlib.general import block_splitter

RULE = ('random streams of items (duplicated, falsy, big, zero weight items, '
        'integer and dyadic float weights, runs of kinds) given as lists, '
        'tuples or one-shot iterators; the signature is (limit, weights, '
        'kinds)')
REQUIRE = ['oversized items', 'zero weight items', 'kind changes',
           'blocks closed by weight', 'limits passed by a hair', 'rejected weights', 'rejected limits', 'large streams']


class Item(object):
    """An item with identity; never equal to another one"""
    def __init__(self, n, w, k):
        self.n, self.w, self.k = n, w, k

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __hash__(self):
        return self.n

    def __repr__(self):
        return 'Item(%s, %s, %r)' % (self.n, self.w, self.k)


def expected_blocks(items, limit):
    "Reference: greedy grouping of the items with nonzero weight"
    blocks = []
    total = 0
    kind = None
    for it in items:
        if it.w == 0:
            continue
        if blocks and it.k == kind and total + it.w <= limit:
            blocks[-1].append(it)
            total += it.w
        else:
            blocks.append([it])
            total = it.w
        kind = it.k
    return blocks


KINDS = [['a'], ['a', 'b'], ['a', 'b', 'c'], [None, 'Unspecified'],
         [('x', 1), ('x', 2)], ['', 'a'], [0, 1, 2], ['Unspecified']]


def gen_items(rnd, n=None):
    if n is None:
        n = rnd.choice([0, 1, 2, 3, 5, 8, 13, 40])
    kinds = rnd.choice(KINDS)
    stay = rnd.choice([0., .5, .8, .95])
    wmax = rnd.choice([1, 2, 5, 12])
    zero = rnd.choice([0., 0., .2, .6])
    scale = rnd.choice([1, 1, .5, .125])
    # differences of a hair, still summed exactly
    hair = rnd.choice([0, 0, 0, 0, 0, 2. ** -36])
    k = rnd.choice(kinds)
    items = []
    for i in range(n):
        if rnd.random() > stay:
            k = rnd.choice(kinds)
        w = 0 if rnd.random() < zero else rnd.randint(1, wmax) * scale
        if w and hair:
            w = rnd.choice([w, w, hair, w + hair, w - hair])
        if w == 0 and rnd.random() < .5:
            k0 = rnd.choice(kinds + ['other'])
            items.append(Item(i, rnd.choice([0, 0.]), k0))
        else:
            items.append(Item(i, w, k))
    if items and rnd.random() < .3:  # the same object more than once
        for _ in range(rnd.randint(1, 3)):
            items.insert(rnd.randrange(len(items) + 1), rnd.choice(items))
    return items, scale


def wrap(rnd, items):
    how = rnd.randrange(4)
    return [list, tuple, iter, lambda x: (i for i in x)][how](items)


def judge(obs, items, limit, blocks, bw):
    flat = list(itertools.chain(*bw))
    nonzero = [it for it in items if it.w]
    obs.check(len(flat) == len(nonzero) and
              all(a is b for a, b in zip(flat, nonzero)),
              'conservation', 'limit', limit, 'items', items, 'blocks', bw)
    for b, ws in zip(bw, blocks):
        obs.check(len(b) > 0, 'empty-block', items, limit, bw)
        obs.check(len(set([it.k for it in b])) == 1, 'mixed-kinds', b)
        tot = sum(it.w for it in b)
        obs.check(ws.weight == tot, 'block-weight', ws.weight, tot, b)
        obs.check(tot <= limit or len(b) == 1, 'overweight', limit, b)
        obs.check(len(ws) == len(b), 'block-length', len(ws), b)
    expected = expected_blocks(items, limit)
    obs.check(bw == expected, 'greedy', 'limit', limit, 'got', bw,
              'expected', expected)


def large(rnd, obs):
    random_split(rnd, obs, 1500, [1, 7, 100, 1000, 3000, 10 ** 6])
    obs.ev('large streams')


def random_split(rnd, obs, n=None, limits=(1, 2, 3, 4, 7, 10, 100)):
    items, scale = gen_items(rnd, n)
    limit = rnd.choice(limits) * rnd.choice([1, scale])
    use_kind = rnd.random() < .7
    if not use_kind:
        for it in items:
            it.k = 'Unspecified'
        blocks = list(block_splitter(wrap(rnd, items), limit,
                                     lambda it: it.w))
    else:
        blocks = list(block_splitter(wrap(rnd, items), limit,
                                     lambda it: it.w, lambda it: it.k))
    bw = [list(b) for b in blocks]
    obs.note('limit', limit, 'items', items)
    judge(obs, items, limit, blocks, bw)
    obs.ev('items split', len(items))
    obs.ev('blocks observed', len(blocks))
    obs.ev('zero weight items', sum(it.w == 0 for it in items))
    obs.ev('oversized items', sum(it.w > limit for it in items))
    for b1, b2 in zip(bw, bw[1:]):
        if b1[-1].k != b2[0].k:
            obs.ev('kind changes')
        else:
            obs.ev('blocks closed by weight')
            if limit < sum(it.w for it in b1) + b2[0].w < limit + 1E-6:
                obs.ev('limits passed by a hair')
    if len(bw) > 1:
        obs.nontrivial(limit, [(it.w, it.k) for it in items])
        obs.sample(dict(limit=limit, blocks=[
            [(it.w, it.k) for it in b] for b in bw]))


def default_weights(rnd, obs):
    values = [rnd.choice([0, '', None, 'a', 1, (), 2.5])
              for _ in range(rnd.choice([0, 1, 4, 9, 17]))]
    limit = rnd.choice([1, 2, 3, 5, 2.5, 30])
    blocks = list(block_splitter(wrap(rnd, values), limit))
    flat = list(itertools.chain(*blocks))
    obs.eq(flat, values, 'conservation')
    size = int(limit)
    obs.eq([len(b) for b in blocks],
           [len(values[i:i + size]) for i in range(0, len(values), size)],
           'default-weight-one', limit, values)
    obs.eq([b.weight for b in blocks], [len(b) for b in blocks],
           'block-weight')
    if len(blocks) > 1:
        obs.nontrivial(limit, values)


def errors(rnd, obs):
    items, scale = gen_items(rnd)
    if rnd.random() < .5:
        limit = rnd.choice([0, -1, -.5, 0., -100])
        obs.raises(ValueError, lambda: list(block_splitter(
            wrap(rnd, items), limit, lambda it: it.w, lambda it: it.k)),
            'nonpositive-limit', limit)
        obs.ev('rejected limits')
    else:
        bad = Item(99, rnd.choice([-1, -.5, -1e-9, -100]), 'a')
        pos = rnd.randrange(len(items) + 1)
        items.insert(pos, bad)
        e = obs.raises(ValueError, lambda: list(block_splitter(
            wrap(rnd, items), rnd.choice([1, 5, 100]), lambda it: it.w,
            lambda it: it.k)), 'negative-weight', items)
        obs.check(str(bad.w) in str(e), 'negative-weight-message', str(e))
        obs.ev('rejected weights')
    obs.nontrivial([(it.w, it.k) for it in items])


FAMILIES = [('random_split', random_split, 4000, 90000),
            ('default_weights', default_weights, 600, 10000),
            ('large', large, 6, 150),
            ('errors', errors, 600, 10000)]
