"""C30: the GSIM logic tree"""
import itertools
import os
from decimal import Decimal
import trees
from scale import scale, big as make_big
from c29_gmpe_tree import GSIMS
from openquake.commonlib import logictree

RULE = ('random GSIM logic tree files with branchsets in any order, read for '
        'random sets of tectonic region types; the realizations are compared '
        'with an independent product; damaged trees must be rejected; the '
        'signature is the document with the tectonic region types')
REQUIRE = ['realizations', 'trees', 'skipped branchsets',
           'shared branch identifiers', 'unordered branchsets',
           'no tectonic region types', 'repeated arguments',
           'nothing relevant', 'wrong weights', 'many branchsets',
           'wrong type', 'repeated type', 'big trees']


def gsim_tree(rnd, nmax=4):
    k = scale(rnd, [1, 2, 3, 5], [6, 7])
    many = k > 5
    trts = rnd.sample(trees.TRTS + trees.REGIONS * many, k)
    numbers = rnd.sample(range(1, 25), len(trts))
    if rnd.random() < .5:
        numbers.sort()
    levels = []
    shared = rnd.random() < .4
    total = 10 if many else trees.many_digits(rnd, len(trts))
    ids = trees.Ids(rnd)
    for n, trt in zip(numbers, trts):
        if shared:  # the same branch ids in different branchsets
            ids = trees.Ids(rnd)
        n_gsims = rnd.choice([1, 2]) if many else scale(
            rnd, [1, 1, 2, 3, nmax], [11, 25])
        gsims = rnd.sample(list(GSIMS), min(n_gsims, len(GSIMS)))
        if rnd.random() < .2:  # the same model in more branches
            gsims = [rnd.choice(gsims[:2]) for _ in gsims]
        bs = trees.BranchSet(rnd.choice(['bs%d', 'bs%02d']) % n, 'gmpeModel',
                             {'applyToTectonicRegionType': trt},
                             trees.add_branches(rnd, ids, [
                                 rnd.choice(['%s', ' %s', '\n  %s\n']) % g
                                 for g in gsims], total=total))
        levels.append([bs])
    seen = set(bs.id for [bs] in levels)
    if len(seen) < len(levels):
        return gsim_tree(rnd, nmax)
    return trees.Tree(levels), trts, shared


def save(obs, text):
    fname = os.path.join(obs.scratch, 'gsim.xml')
    with open(fname, 'w') as f:
        f.write(text)
    return fname


def good(rnd, obs):
    tree, trts, shared = gsim_tree(rnd)
    keys = rnd.sample(trts, rnd.randint(0, len(trts)))
    extra = rnd.choice([[], [], ['Unknown']]) if keys else []
    text = tree.xml(rnd)
    obs.note(keys, text)
    fname = save(obs, text)
    filter_keys = rnd.choice([list, tuple, set])(keys + extra)
    lt = logictree.GsimLogicTree(
        fname, 'applyToTectonicRegionType', filter_keys)
    used = [bs for [bs] in tree.levels
            if bs.filters['applyToTectonicRegionType'] in keys]
    if [bs.id for bs in used] != sorted(bs.id for bs in used):
        obs.ev('unordered branchsets')
    used.sort(key=lambda bs: bs.id)
    expected = []
    for branches in itertools.product(*[bs.branches for bs in used]):
        value = dict((bs.filters['applyToTectonicRegionType'],
                      br.value.strip()) for bs, br in zip(used, branches))
        expected.append((value, trees.product(br.weight for br in branches),
                         tuple(br.id for br in branches)))
    for _ in range(2):
        rlzs = list(lt)
        obs.eq(len(rlzs), len(expected), 'number-of-realizations')
        for rlz, (value, weight, path) in zip(rlzs, expected):
            obs.eq((rlz.value, rlz.weight, rlz.lt_path),
                   (value, weight, path), 'realization')
            obs.ev('realizations')
    obs.eq(sum(r.weight for r in rlzs), 1, 'total-weight')
    obs.eq(lt.get_num_paths(), len(expected), 'number-of-paths')
    obs.eq(lt.get_num_branches(), dict((bs.id, len(bs.branches))
                                       for bs in used), 'number-of-branches')
    obs.eq(dict((k, v) for k, v in lt.values.items() if v),
           dict((bs.filters['applyToTectonicRegionType'],
                 [br.value.strip() for br in bs.branches]) for bs in used),
           'values')
    obs.ev('trees')
    obs.ev('skipped branchsets', len(tree.levels) - len(used))
    if not keys:
        obs.ev('no tectonic region types')
    allids = [br.id for bs in used for br in bs.branches]
    if len(set(allids)) < len(allids):
        obs.ev('shared branch identifiers')
    obs.nontrivial(sorted(keys), text)
    obs.sample((keys, text))


def bad(rnd, obs):
    tree, trts, _shared = gsim_tree(rnd)
    keys = rnd.sample(trts, rnd.randint(1, len(trts)))
    what = ['repeated arguments', 'nothing relevant', 'wrong weights',
            'many branchsets', 'wrong type', 'repeated type'][obs.index % 6]
    bs = rnd.choice([bs for [bs] in tree.levels
                     if bs.filters['applyToTectonicRegionType'] in keys])
    exc = logictree.InvalidLogicTree
    if what == 'repeated arguments':
        exc = ValueError
        keys.insert(rnd.randint(0, len(keys)), rnd.choice(keys))
    elif what == 'nothing relevant':
        keys = ['Unknown', keys[0].lower()][:rnd.choice([1, 2])]
    elif what == 'wrong weights':
        br = rnd.choice(bs.branches)
        br.wtext = str(br.weight + rnd.choice(
            [Decimal('0.0001'), 1, Decimal('-0.001')]))
        exc = Exception
    elif what == 'many branchsets':  # in any level
        new = trees.BranchSet('new', 'gmpeModel', {
            'applyToTectonicRegionType': 'Other'}, bs.branches)
        level = rnd.choice(tree.levels)
        level.insert(rnd.choice([0, 1]), new)
    elif what == 'wrong type':
        bs = rnd.choice(tree.levels)[0]
        bs.type = rnd.choice(['sourceModel', 'bGRRelative'])
    else:
        bs = rnd.choice(tree.levels)[0]
        new = trees.BranchSet('new', 'gmpeModel', dict(bs.filters), [
            trees.Branch('new_b', Decimal(1), '1', 'SadighEtAl1997')])
        tree.levels.insert(rnd.randint(0, len(tree.levels)), [new])
    text = tree.xml(rnd)
    fname = save(obs, text)
    obs.note(what, keys, text)
    obs.raises(exc, lambda: logictree.GsimLogicTree(
        fname, 'applyToTectonicRegionType', keys), 'mistake-not-reported',
        what)
    obs.ev(what)
    obs.nontrivial(keys, text)


def big(rnd, obs):
    "Many branches or regions"
    make_big(rnd.choice([good, good, bad]))(rnd, obs)
    obs.ev('big trees')


FAMILIES = [('big', big, 20, 400),
            ('good', good, 300, 6000),
            ('bad', bad, 120, 2000)]
