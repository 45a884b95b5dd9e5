"""C35: the sources are filtered, split and grouped in blocks, none is lost"""
from sources import Params, gen_source, expected, same, snap, difference, TRTS
from scale import scale, big as make_big
from openquake.hazardlib import source
from openquake.commonlib.source import SourceCollector, split_source

RULE = ('random collections of sources of a single tectonic region are '
        'filtered with random filters and divided in blocks, with random '
        'limits and discretization steps; the blocks are compared with the '
        'pieces of the accepted sources, computed one by one; the signature '
        'is the list of sources, the filter and the limit')
REQUIRE = ['blocks', 'collections with many blocks', 'sources kept',
           'sources discarded', 'trailing sources discarded',
           'everything discarded', 'oversized pieces', 'pieces',
           'filtered collections', 'no sources', 'second division',
           'lazy sources', 'sources with the same id', 'many sources']


def gen_sources(rnd, par, trt, n):
    kinds = rnd.choice([None, None, ['simple', 'complex'], ['point'],
                        ['area', 'point', 'char_simple']])
    similar = rnd.random() < .3  # different sources with the same id
    return [expected(gen_source(
        rnd, 's%d' % (rnd.randrange(2) if similar else i), kind=kinds and rnd.choice(kinds), trt=trt,
        zeros=.1), par) for i in range(n)]


class Filter(object):
    "A filter recording its calls"
    def __init__(self, rnd, sources):
        prob = rnd.choice([0, .2, .5, .9, 1])
        self.sources = list(sources)
        self.accepted = [rnd.random() >= prob for s in sources]
        self.calls = []
        self.sites = rnd.choice([['sites'], ['sites'], []])

    def keeps(self, src):
        return [ok for s, ok in zip(self.sources, self.accepted)
                if s is src][0]

    def __call__(self, src):
        self.calls.append(src.source_id)
        # whatever is not None is a set of sites
        return self.sites if self.keeps(src) else None

    def summary(self):
        return [(s.source_id, ok) for s, ok in zip(
            self.sources, self.accepted)]


def pieces_of(src, discr):
    return list(split_source(src, discr))


def compare(obs, got, exp, clause):
    obs.eq([s.source_id for s in got], [s.source_id for s in exp], clause)
    for a, b in zip(got, exp):
        diff = difference(snap(a), snap(b))
        obs.check(diff is None, clause, diff)


def judge_division(obs, coll, src_filter, max_weight, discr, rnd):
    sources = list(coll.sources)
    n = len(sources)
    before = [snap(s) for s in sources]
    rup0 = coll.num_ruptures
    kept = [s for s in sources if src_filter.keeps(s)]
    exp = [p for s in kept for p in pieces_of(s, discr)]
    weights = [p.count_ruptures() for p in exp]
    ids = [s.source_id for s in kept]
    if len(set(ids)) < len(ids):
        obs.ev('sources with the same id')
    limit = float(max_weight) * n / (n + 100)
    blocks = []
    gen = coll.gen_blocks(src_filter, max_weight, discr)
    for block in gen:
        blocks.append(block)
        done = sum(len(b) for b in blocks)
        obs.check(done <= len(exp), 'too-many-pieces')
    flat = [s for b in blocks for s in b]
    heavy = [p for p, w in zip(exp, weights) if w]
    heavy_weights = [w for w in weights if w]
    compare(obs, flat, heavy, 'pieces-lost-or-repeated')
    start, prev = 0, None
    for i, block in enumerate(blocks):
        tot = sum(heavy_weights[start:start + len(block)])
        obs.check(len(block), 'empty-block')
        obs.eq(block.weight, tot, 'block-weight')
        obs.check(tot <= limit or len(block) == 1, 'overweight', tot, limit,
                  max_weight, n)
        if tot > limit:
            obs.ev('oversized pieces')
        if i:
            obs.check(prev + heavy_weights[start] > limit,
                      'block-too-small', prev, limit, max_weight, n)
        start, prev = start + len(block), tot
    obs.ev('blocks', len(blocks))
    obs.ev('pieces', len(flat))
    if len(blocks) > 1:
        obs.ev('collections with many blocks')
    obs.eq(coll.num_ruptures - rup0, sum(weights), 'num-ruptures')
    obs.eq(tuple(coll.filtered_sources), (len(exp), len(exp) + n - len(kept)),
           'filtered-sources')
    compare(obs, coll.sources, exp, 'sources-after')
    for s, snp in zip(sources, before):
        same(obs, s, snp, 'source-changed')
    obs.ev('sources kept', len(kept))
    obs.ev('sources discarded', n - len(kept))
    if not kept:
        obs.ev('everything discarded')
    elif sources[-1] is not kept[-1]:
        obs.ev('trailing sources discarded')


def blocks(rnd, obs):
    par = Params(rnd)
    trt = rnd.choice(TRTS)
    n = scale(rnd, [1, 1, 2, 3, 5, 8], [30, 60])
    sources = gen_sources(rnd, par, trt, n)
    if rnd.random() < .3:
        obs.ev('lazy sources')
        coll = SourceCollector(trt, iter(sources))
    else:
        coll = SourceCollector(trt, sources)
    obs.eq(len(coll.sources), n, 'sources')
    flt = Filter(rnd, sources)
    discr = rnd.choice([15., 30., 60.])
    if n > 20:
        obs.ev('many sources')
    max_weight = rnd.choice([1, 7, 49, 50, 120, 101, 300, 1000, 1000000,
                             200., 33.3])
    obs.note(flt.summary(), max_weight, discr)
    judge_division(obs, coll, flt, max_weight, discr, rnd)
    if coll.sources and rnd.random() < .4:  # the pieces can be divided again
        obs.ev('second division')
        flt2 = Filter(rnd, coll.sources)
        judge_division(obs, coll, flt2, rnd.choice([50, 500]), discr, rnd)
    obs.nontrivial(flt.summary(), max_weight, discr,
                   [snap(s) for s in sources])
    obs.sample((flt.summary(), max_weight, discr))


def filtered(rnd, obs):
    par = Params(rnd)
    trt = rnd.choice(TRTS)
    sources = gen_sources(rnd, par, trt, rnd.choice([0, 1, 3, 6]))
    coll = SourceCollector(trt, sources)
    flt = Filter(rnd, sources)
    rng = coll.min_mag, coll.max_mag
    new = coll.filter_sources(flt)
    kept = [s for s in sources if flt.keeps(s)]
    obs.check(isinstance(new, SourceCollector) and new is not coll,
              'new-collector')
    obs.eq([s.source_id for s in new.sources],
           [s.source_id for s in kept], 'filtered')
    obs.check(all(a is b for a, b in zip(new.sources, kept)), 'filtered')
    obs.eq(new.trt, trt, 'trt')
    obs.eq([s.source_id for s in coll.sources],
           [s.source_id for s in sources], 'collector-changed')
    obs.eq((coll.min_mag, coll.max_mag), rng, 'collector-changed')
    ranges = [s.mfd.get_min_max_mag() for s in kept]
    obs.eq((new.min_mag, new.max_mag),
           (min(r[0] for r in ranges), max(r[1] for r in ranges))
           if kept else (None, None), 'range')
    obs.ev('filtered collections')
    obs.ev('sources kept', len(kept))
    obs.ev('sources discarded', len(sources) - len(kept))
    # the given list belongs to the caller
    given = list(sources)
    one, two = SourceCollector(trt, given), SourceCollector(trt, given)
    extra = gen_sources(rnd, par, trt, 1)[0]
    one.update(extra)
    obs.check(len(one.sources) == len(sources) + 1 and
              one.sources[-1] is extra, 'updated')
    for other in (two.sources, given):
        obs.check(len(other) == len(sources) and all(
            a is b for a, b in zip(other, sources)), 'shared-list')
    obs.eq((two.min_mag, two.max_mag), rng, 'shared-list')
    # the ruptures are counted source by source
    counter = SourceCollector(trt, sources, num_ruptures=5)
    weights = [counter.update_num_ruptures(s) for s in sources]
    obs.eq(weights, [s.count_ruptures() for s in sources], 'weights')
    obs.eq(counter.num_ruptures, 5 + sum(weights), 'num-ruptures')
    # without sources there is nothing to divide
    for empty in (SourceCollector(trt), SourceCollector(trt, []),
                  SourceCollector(trt, sources).filter_sources(
                      lambda s: None)):
        exc = obs.raises(AssertionError, lambda: list(empty.gen_blocks(
            flt, 100, 10.)), 'division-of-nothing')
        obs.check(trt in str(exc), 'region-not-in-message', exc)
        obs.ev('no sources')
    obs.nontrivial(flt.summary(), trt, [snap(s) for s in sources])


def big(rnd, obs):
    make_big(blocks)(rnd, obs)


FAMILIES = [('big', big, 24, 400),
            ('blocks', blocks, 200, 5000),
            ('filtered', filtered, 150, 3000)]
