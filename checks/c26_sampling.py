"""C26: random sampling of weighted objects and of logic trees"""
import random
from decimal import Decimal
import trees
from scale import scale, big as make_big
from c25_tree_paths import build
from openquake.commonlib import logictree

RULE = ('scripted random streams (including the borders of the intervals) '
        'for the sampling of weighted sequences and of random logic trees, '
        'and seeded streams whose draws are recorded; every object drawn is '
        'checked against the interval of its cumulative weights; the '
        'signature is weights and draws')
REQUIRE = ['draws', 'draws of a missing weight', 'draws on a border', 'sampled paths', 'realizations',
           'frequencies', 'sequences of weighted objects', 'big trees']
MAX_ROLL = 1 - 2. ** -53


class Obj(object):
    def __init__(self, name, weight):
        self.name, self.weight = name, weight

    def __repr__(self):
        return '<%s %s>' % (self.name, self.weight)


class Scripted(object):
    "A random stream known in advance"
    def __init__(self, rolls):
        self.rolls = rolls
        self.drawn = []

    def random(self):
        self.drawn.append(self.rolls[len(self.drawn)])
        return self.drawn[-1]


class Recorder(random.Random):
    "A random stream which is recorded"
    def __init__(self, seed):
        self.drawn = []
        random.Random.__init__(self, seed)

    def random(self):
        r = random.Random.random(self)
        self.drawn.append(r)
        return r


def rolls(rnd, weights, n):
    borders = [0.]
    acc = Decimal(0)
    for w in weights:
        acc += w
        borders.append(min(float(acc), MAX_ROLL))
    out = []
    for _ in range(n):
        r = rnd.random()
        if rnd.random() < .4:
            b = rnd.choice(borders)
            r = b + rnd.choice([0, 0, 1e-12, -1e-12, 2. ** -53, -2. ** -54])
        out.append(min(max(r, 0.), MAX_ROLL))
    return out


def in_interval(weights, i, roll):
    "The closed interval of the i-th weight contains the roll"
    roll = Decimal(roll)
    lo = sum(weights[:i], Decimal(0))
    return lo <= roll <= lo + weights[i]


def objects(rnd, obs):
    ws = [w for w, _t in trees.weights(
        rnd, scale(rnd, [1, 2, 3, 5, 20], [100, 300]))]
    objs = [Obj('o%d' % i, w) for i, w in enumerate(ws)]
    if rnd.random() < .3:
        objs = tuple(objs)
    n = scale(rnd, [0, 1, 5, 30], [200, 1000])
    script = Scripted(rolls(rnd, ws, n + 5))
    got = logictree.sample(objs, n, script)
    obs.eq(len(got), n, 'number-of-samples')
    obs.eq(len(script.drawn), n, 'number-of-draws')
    for obj, roll in zip(got, script.drawn):
        obs.check(any(obj is o for o in objs), 'foreign-object', obj)
        i = list(objs).index(obj)
        obs.check(in_interval(ws, i, roll), 'wrong-interval', roll, obj, ws)
        if not in_interval(ws, i, roll + 1e-9) or not in_interval(
                ws, i, roll - 1e-9):
            obs.ev('draws on a border')
    obs.ev('draws', n)
    # the same stream gives the same samples
    again = logictree.sample(objs, n, Scripted(script.rolls))
    obs.check(all(a is b for a, b in zip(again, got)), 'not-repeatable')
    obs.ev('sequences of weighted objects')
    if len(objs) > 1 and ws[-1] > Decimal('1e-6'):
        # a part of the weight is missing: never a wrong object
        roll = float(1 - ws[-1] * Decimal('%.2f' % rnd.uniform(.02, .98)))
        obs.raises(Exception, lambda: logictree.sample(
            objs[:-1], 1, Scripted([roll])), 'missing-weight', ws, roll)
        obs.ev('draws of a missing weight')
    obs.nontrivial(ws, script.drawn)


def check_path(obs, tree, rolls, ids):
    "Follow the path in the tree, with one draw per level"
    bset = tree.root
    rolls = list(rolls)
    for branch_id in ids:
        obs.check(bset is not None, 'path-too-long', ids)
        bids = [b.id for b in bset.branches]
        obs.check(branch_id in bids, 'branch-not-in-the-branchset',
                  branch_id, bids)
        i = bids.index(branch_id)
        roll = rolls.pop(0)
        obs.check(in_interval([b.weight for b in bset.branches], i, roll),
                  'wrong-interval', roll, branch_id,
                  [(b.id, b.weight) for b in bset.branches])
        bset = bset.branches[i].child
    obs.check(bset is None, 'path-too-short', ids)
    obs.eq(rolls, [], 'unused-draws')


def scripted_tree(rnd, obs):
    tree, _infos = trees.smlt(rnd, obs.scratch)
    text = tree.xml(rnd)
    obs.note(text)
    _how, lt = build(rnd, obs, logictree.SourceModelLogicTree, text,
                     obs.scratch)
    allw = [b.weight for bs in tree.bsets() for b in bs.branches]
    for _ in range(scale(rnd, [1, 5, 20], [100])):
        script = Scripted(rolls(rnd, allw, 20))
        name, ids = lt.sample_path(script)
        check_path(obs, tree, script.drawn, ids)
        [first] = [b for b in tree.root.branches if b.id == ids[0]]
        obs.eq(name, first.value, 'model-name')
        obs.ev('sampled paths')
    obs.nontrivial(text, script.drawn)
    obs.sample((script.drawn, ids))


def seeded_tree(rnd, obs):
    tree, _infos = trees.smlt(rnd, obs.scratch)
    text = tree.xml(rnd)
    seed = rnd.choice([0, 1, 42, rnd.randint(-2 ** 31, 2 ** 31 - 1)])
    num = scale(rnd, [1, 2, 10, 50], [101, 500])
    how, lt = build(rnd, obs, logictree.SourceModelLogicTree, text,
                    obs.scratch, seed=seed, num_samples=num)
    obs.note(text, how, seed, num)
    first = list(lt)
    obs.eq(len(first), num, 'number-of-realizations')
    # independent of the global random state
    random.seed(rnd.random())
    obs.eq(list(lt), first, 'not-repeatable')
    _how, lt2 = build(rnd, obs, logictree.SourceModelLogicTree, text,
                      obs.scratch, seed=seed, num_samples=num)
    it1, it2 = iter(lt), iter(lt2)
    obs.eq([(it1.next(), it2.next()) for _ in range(num)],
           [(r, r) for r in first], 'not-repeatable-in-parallel')
    valid = dict((tuple(b.id for b in p), p) for p in tree.paths())
    for rlz in first:
        obs.check(rlz.lt_path in valid, 'invalid-path', rlz)
        path = valid[rlz.lt_path]
        obs.eq((rlz.value, rlz.weight), (path[0].value, None), 'realization')
        obs.check(all(b.weight > 0 for b in path), 'zero-weight', rlz)
        obs.ev('realizations')
    # the draws of the seeded stream, if they are observable
    rec = Recorder(seed)
    real = getattr(logictree, 'random', None)
    again = None
    if real is random:
        logictree.random = Spy(rec)
        try:
            again = list(lt)
        finally:
            logictree.random = real
    if rec.drawn:
        obs.eq(again, first, 'not-repeatable')
        drawn = rec.drawn[:]
        for rlz in first:
            k = len(rlz.lt_path)
            check_path(obs, tree, drawn[:k], rlz.lt_path)
            drawn = drawn[k:]
        obs.eq(drawn, [], 'unused-draws')
        obs.ev('draws', len(rec.drawn))
    obs.nontrivial(text, seed, num)


class Spy(object):
    "Module random with a known stream"
    def __init__(self, rec):
        self.rec = rec

    def Random(self, seed=None):
        self.rec.seed(seed)
        return self.rec

    def __getattr__(self, name):
        return getattr(random, name)


def frequency(rnd, obs):
    "The frequencies of the branches are compatible with the weights"
    tree, _infos = trees.smlt(rnd, obs.scratch, zeros=False, max_paths=30)
    num = 2000
    _how, lt = build(rnd, obs, logictree.SourceModelLogicTree, tree.xml(),
                     obs.scratch, seed=rnd.randint(0, 10 ** 6),
                     num_samples=num)
    counts = {}
    for rlz in lt:
        counts[rlz.lt_path] = counts.get(rlz.lt_path, 0) + 1
    for path in tree.paths():
        p = float(trees.product(b.weight for b in path))
        n = counts.get(tuple(b.id for b in path), 0)
        sigma = (num * p * (1 - p)) ** .5
        obs.check(abs(n - num * p) <= 7 * sigma + 7, 'frequency',
                  [b.id for b in path], n, num * p)
        obs.ev('frequencies')
    obs.nontrivial(sorted(counts.items()))


def big(rnd, obs):
    "Many objects, branches, levels or samples"
    make_big(rnd.choice([objects, scripted_tree, seeded_tree]))(rnd, obs)
    obs.ev('big trees')


FAMILIES = [('big', big, 30, 500),
            ('objects', objects, 400, 8000),
            ('scripted_tree', scripted_tree, 120, 2500),
            ('seeded_tree', seeded_tree, 120, 2500),
            ('frequency', frequency, 12, 150)]
