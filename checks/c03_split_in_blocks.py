"""C03: splitting in about N blocks"""
import itertools
import math
from fractions import Fraction
from openquake.commonlib.general import split_in_blocks
from c01_block_splitter import gen_items, wrap, judge, Item

RULE = ('random weighted streams (see C01) with a nonzero total weight and '
        'random hints; the signature is (hint, weights, kinds)')
REQUIRE = ['single kind splits', 'multi kind splits', 'ideal splits',
           'large streams']


def exact_limit(items, hint):
    total = sum(Fraction(it.w) for it in items)
    q = total / hint
    return int(-((-q.numerator) // q.denominator))


def large(rnd, obs):
    random_split(rnd, obs, 1200)
    obs.ev('large streams')


def random_split(rnd, obs, n=None):
    items, scale = gen_items(rnd, n)
    if not any(it.w for it in items):
        items.append(Item(1000, 1, 'a'))
    hint = rnd.choice([1, 1, 2, 3, 5, 10, 50, len(items)])
    single = rnd.random() < .4
    if single:
        for it in items:
            it.k = 'Unspecified'
    seq = wrap(rnd, items)
    if single:
        blocks = list(split_in_blocks(seq, hint, lambda it: it.w))
    else:
        blocks = list(split_in_blocks(seq, hint, lambda it: it.w,
                                      lambda it: it.k))
    limit = exact_limit(items, hint)
    bw = [list(b) for b in blocks]
    obs.note('hint', hint, 'limit', limit, 'items', items)
    judge(obs, items, limit, blocks, bw)
    if single:
        obs.check(len(blocks) <= 2 * hint - 1, 'too-many-blocks',
                  'hint', hint, bw)
        obs.ev('single kind splits')
    else:
        obs.ev('multi kind splits')
    obs.ev('blocks observed', len(bw))
    if len(bw) > 1:
        obs.nontrivial(hint, [(it.w, it.k) for it in items])
        obs.sample(dict(hint=hint, blocks=[[(it.w, it.k) for it in b]
                                           for b in bw]))


def unit_weights(rnd, obs):
    "With unit weights and one kind the size of the blocks is n/hint"
    n = rnd.choice([1, 2, 3, 7, 10, 64, 101])
    hint = rnd.randint(1, 2 * n)
    values = range(n)
    blocks = list(split_in_blocks(wrap(rnd, values), hint))
    obs.eq(list(itertools.chain(*blocks)), values, 'conservation', n, hint)
    size = -(-n // hint)
    obs.eq([len(b) for b in blocks],
           [len(values[i:i + size]) for i in range(0, n, size)],
           'balanced-sizes', n, hint)
    obs.check(len(blocks) <= hint, 'more-blocks-than-hint', n, hint)
    if n % hint == 0:
        obs.eq(len(blocks), hint, 'exact-number-of-blocks', n, hint)
        obs.ev('ideal splits')
    obs.nontrivial(n, hint)


def bad_hints(rnd, obs):
    "The number of blocks must be positive"
    items, scale = gen_items(rnd)
    items.append(Item(1000, 1, 'a'))
    hint = rnd.choice([0, -1, -rnd.randint(2, 100)])
    obs.raises(Exception, lambda: list(split_in_blocks(
        wrap(rnd, items), hint, lambda it: it.w)), 'hint-accepted', hint)
    obs.ev('rejected hints')
    obs.nontrivial(hint, len(items))


REQUIRE.append('rejected hints')
FAMILIES = [('bad_hints', bad_hints, 20, 200),
            ('large', large, 5, 100),
            ('random_split', random_split, 2500, 60000),
            ('unit_weights', unit_weights, 500, 5000)]
