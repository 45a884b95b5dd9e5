"""C29: the GMPE logic tree"""
import os
from decimal import Decimal
import trees
from scale import scale, big as make_big
from c25_tree_paths import HC
from c26_sampling import Scripted, rolls, check_path
from openquake.hazardlib.gsim import get_available_gsims
from openquake.commonlib import logictree

RULE = ('random GMPE logic trees with relevant and irrelevant tectonic '
        'region types; realizations, samples and the association from '
        'tectonic region types to models are compared with an independent '
        'computation; damaged trees must be rejected where they are damaged; '
        'the signature is the document with the tectonic region types')
GSIMS = get_available_gsims()
REQUIRE = ['realizations', 'skipped branchsets', 'sampled paths',
           'associations', 'trees without validation',
           'trees from a calculation', 'big trees']
FAULTS = []


def gmpe_tree(rnd, relevant, irrelevant=(), nmax=4):
    ids = trees.Ids(rnd)
    trts = list(relevant) + list(irrelevant)
    rnd.shuffle(trts)
    levels = []
    parents = []
    many = len(relevant) > 5
    total = 10 if many else trees.many_digits(rnd, len(relevant))
    for i, trt in enumerate(trts):
        n = rnd.choice([1, 2]) if many else scale(
            rnd, [1, 1, 2, 3, nmax], [11, 25])
        values = [rnd.choice(['%s', '%s', ' %s ', '\n%s\n']) %
                  rnd.choice(list(GSIMS)) for _ in range(n)]
        bs = trees.BranchSet('bs%d' % i, 'gmpeModel',
                             {'applyToTectonicRegionType': trt},
                             trees.add_branches(rnd, ids, values, total=total))
        levels.append([bs])
        if trt in relevant:
            for p in parents:
                p.child = bs
            parents = bs.branches
    tree = trees.Tree(levels)
    return tree


def relevant_root(tree, trts):
    for [bs] in tree.levels:
        if bs.filters['applyToTectonicRegionType'] in trts:
            return bs


def good(rnd, obs):
    k = scale(rnd, [1, 1, 2, 3, 4], [6, 7])
    pool = trees.TRTS + trees.REGIONS if k > 4 else trees.TRTS
    trts = rnd.sample(pool, k)
    others = [t for t in pool if t not in trts]
    others = rnd.sample(others, rnd.choice([0, 0, 1, len(others)]))
    others += rnd.choice([[], [], ['Unknown'], ['']])
    tree = gmpe_tree(rnd, trts, others)
    text = tree.xml(rnd)
    obs.note(trts, text)
    cont = rnd.choice([set, list, tuple, frozenset])(trts)
    num = rnd.choice([0, 0, 5, 30])
    lt = make(rnd, obs, text, cont, num)
    root = relevant_root(tree, trts)
    paths = tree.paths(root)
    valid = dict((tuple(b.id for b in p), p) for p in paths)
    rlzs = list(lt)
    if num:
        obs.eq(len(rlzs), num, 'number-of-samples')
        obs.eq(list(lt), rlzs, 'not-repeatable')
    else:
        obs.eq([(r.weight, r.lt_path) for r in rlzs],
               [(trees.product(b.weight for b in p),
                 tuple(b.id for b in p)) for p in paths], 'realizations')
        obs.eq(sum(r.weight for r in rlzs), Decimal(1), 'total-weight')
    for r in rlzs:
        obs.check(r.lt_path in valid, 'invalid-path', r)
        path = valid[r.lt_path]
        obs.check(r.value is GSIMS[path[0].value.strip()], 'value', r)
        obs.ev('realizations')
    obs.ev('skipped branchsets', len(others))
    for path in rnd.sample(paths, min(len(paths), 10)):
        ids = [b.id for b in path]
        got = lt.make_trt_to_gsim(rnd.choice([ids, tuple(ids)]))
        exp = {}
        for [bs] in tree.levels:
            for b in bs.branches:
                if b in path:
                    exp[bs.filters['applyToTectonicRegionType']] = GSIMS[
                        b.value.strip()]
        obs.eq(got, exp, 'association', ids)
        obs.eq(sorted(got), sorted(trts), 'trts')
        obs.ev('associations')
    tree.levels[0][:1] = [root]  # only for check_path
    allw = [b.weight for p in paths for b in p]
    script = Scripted(rolls(rnd, allw, 10))
    _name, ids = lt.sample_path(script)
    check_path(obs, tree, script.drawn, ids)
    obs.ev('sampled paths')
    obs.nontrivial(trts, text)
    obs.sample((trts, text))


def make(rnd, obs, text, trts, num):
    "Instantiate a tree in one of the possible ways"
    seed = rnd.randint(0, 99)

    if rnd.random() < .4:
        path = os.path.join(obs.scratch, 'gsim.xml')
        with open(path, 'w') as f:
            f.write(text)
        obs.ev('trees from a calculation')
        return logictree.GMPELogicTree.from_hc(
            HC(obs.scratch, path, num, seed), trts)
    validate = rnd.random() < .7
    if not validate:
        obs.ev('trees without validation')
    return logictree.GMPELogicTree(
        trts, rnd.choice([text, unicode(text)]), obs.scratch, 'gsim.xml',
        validate=validate, num_samples=num, seed=seed)


class Skip(Exception):
    pass


def fault(func):
    FAULTS.append(func)
    REQUIRE.append(func.__name__)
    return func


def anyset(rnd, tree, trts):
    return rnd.choice([bs for [bs] in tree.levels if bs.filters[
        'applyToTectonicRegionType'] in trts])


@fault
def unknown_model(rnd, tree, trts):
    bs = anyset(rnd, tree, trts)
    br = rnd.choice(bs.branches)
    br.value = rnd.choice(['Unknown', 'sadighetal1997', '', 'GMPE',
                           br.value.strip() + 'x', br.value.strip()[:-1],
                           'openquake.hazardlib.gsim.' + br.value.strip()])
    return lambda: br.value_line


@fault
def missing_type(rnd, tree, trts):
    bs = anyset(rnd, tree, trts)
    if len(trts) == 1:
        there = [b.filters['applyToTectonicRegionType']
                 for [b] in tree.levels]
        trts.append([t for t in trees.TRTS if t not in there][0])
    else:
        tree.levels.remove([bs])
    return lambda: tree.line


@fault
def repeated_type(rnd, tree, trts):
    bs = anyset(rnd, tree, trts)
    new = trees.BranchSet('new', 'gmpeModel', dict(bs.filters), [
        trees.Branch('new_b', Decimal(1), '1', 'SadighEtAl1997')])
    i = tree.levels.index([bs])
    tree.levels.insert(rnd.randint(i + 1, len(tree.levels)), [new])
    return lambda: new.line


@fault
def wrong_type(rnd, tree, trts):
    bs = anyset(rnd, tree, trts)
    bs.type = rnd.choice(['sourceModel', 'bGRRelative', 'abGRAbsolute'])
    return lambda: bs.line


@fault
def many_branchsets(rnd, tree, trts):
    if len(trts) == 1:
        raise Skip
    levels = [lev for lev in tree.levels
              if lev[0].filters['applyToTectonicRegionType'] in trts]
    i = rnd.randrange(len(levels) - 1)
    bs = levels[i + 1][0]
    levels[i].append(bs)
    tree.levels.remove([bs])
    return lambda: bs.line


@fault
def wrong_filters(rnd, tree, trts):
    bs = anyset(rnd, tree, trts)
    how = rnd.randrange(3)
    if how == 0:
        bs.filters.clear()
    elif how == 1:
        bs.filters['applyToSourceType'] = 'area'
    else:
        bs.filters.clear()
        bs.filters['applyToSources'] = 's1'
    return lambda: bs.line


@fault
def wrong_weights(rnd, tree, trts):
    bs = anyset(rnd, tree, trts)
    br = rnd.choice(bs.branches)
    br.wtext = str(br.weight + rnd.choice(
        [Decimal('0.0001'), 1, Decimal('-0.001')]))
    return lambda: bs.line


@fault
def repeated_branch(rnd, tree, trts):
    allb = [b for [bs] in tree.levels for b in bs.branches
            if bs.filters['applyToTectonicRegionType'] in trts]
    if len(allb) < 2:
        raise Skip
    i, j = sorted(rnd.sample(range(len(allb)), 2))
    allb[j].id = allb[i].id
    return lambda: allb[j].line


def damaged(rnd, obs):
    func = FAULTS[obs.index % len(FAULTS)]
    while True:
        trts = rnd.sample(trees.TRTS, rnd.choice([1, 2, 3]))
        others = [t for t in trees.TRTS if t not in trts]
        tree = gmpe_tree(rnd, trts, rnd.sample(others, rnd.choice([0, 1])))
        try:
            line = func(rnd, tree, trts)
        except Skip:
            continue
        break
    text = tree.xml(rnd)
    line = line()
    obs.note(func.__name__, trts, text)
    exc = obs.raises(
        logictree.ValidationError,
        lambda: logictree.GMPELogicTree(trts, text, obs.scratch, 'g.xml'),
        'mistake-not-reported', func.__name__)
    obs.eq(exc.lineno, line, 'line', func.__name__, str(exc))
    obs.eq((exc.filename, exc.basepath), ('g.xml', obs.scratch), 'file')
    obs.ev(func.__name__)
    obs.nontrivial(trts, text)


def big(rnd, obs):
    "Many branches or regions"
    make_big(rnd.choice([good, good, damaged]))(rnd, obs)
    obs.ev('big trees')


FAMILIES = [('big', big, 20, 400),
            ('good', good, 250, 5000),
            ('damaged', damaged, 160, 3000)]
