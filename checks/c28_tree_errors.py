"""C28: mistakes in a source model logic tree are reported where they are"""
import os
from decimal import Decimal
import trees
from scale import big as make_big
from openquake.commonlib import logictree

RULE = ('a random valid source model logic tree is damaged in one of many '
        'ways and must be rejected with the right kind of error, file name, '
        'base path and line; undamaged trees must be accepted; the signature '
        'is the document')
FAULTS = []
REQUIRE = ['valid trees']


def fault(func):
    FAULTS.append(func)
    REQUIRE.append(func.__name__)
    return func


class Expected(object):
    "The error must be in one of the lines"
    def __init__(self, *lines, **kw):
        self.lines = lines
        self.always = kw.get('always', False)  # even without validation


class Skip(Exception):
    pass


def pick(rnd, items):
    items = list(items)
    if not items:
        raise Skip
    return rnd.choice(items)


def later(tree):
    return [bs for level in tree.levels[1:] for bs in level]


@fault
def duplicated_branch(rnd, tree, infos):
    allb = [b for bs in tree.bsets() for b in bs.branches]
    if len(allb) < 2:
        raise Skip
    i, j = sorted(rnd.sample(range(len(allb)), 2))
    # the references to the second branch would be different errors
    for bs in tree.bsets():
        if bs.apply_to and allb[j].id in bs.apply_to.split():
            raise Skip
    allb[j].id = allb[i].id
    return lambda: Expected(allb[j].line, always=True)


@fault
def wrong_weights(rnd, tree, infos):
    bs = rnd.choice(tree.bsets())
    br = rnd.choice(bs.branches)
    old = br.weight
    new = rnd.choice([old + Decimal('0.0001'), old + 1, old * 2,
                      old - Decimal('0.001'), Decimal(0)])
    if new == old:
        raise Skip
    br.wtext = str(new)
    return lambda: Expected(bs.line, always=True)


@fault
def filtered_source_model(rnd, tree, infos):
    name, value = rnd.choice([('applyToSources', 's0'),
                              ('applyToTectonicRegionType', trees.TRTS[0]),
                              ('applyToSourceType', 'area')])
    tree.root.filters[name] = value
    return lambda: Expected(tree.root.line)


@fault
def many_filters(rnd, tree, infos):
    bs = pick(rnd, [b for b in later(tree) if b.filters])
    sid, trt, kind = rnd.choice(infos)
    allf = {'applyToSources': sid, 'applyToTectonicRegionType': trt,
            'applyToSourceType': kind}
    for name in rnd.sample(sorted(allf), 3)[:rnd.choice([2, 3])]:
        bs.filters.setdefault(name, allf[name])
    if len(bs.filters) < 2:
        raise Skip
    return lambda: Expected(bs.line)


@fault
def unknown_filter_value(rnd, tree, infos):
    bs = pick(rnd, [b for b in later(tree) if b.filters])
    [name] = bs.filters
    known = set(dict(applyToSources=[i[0] for i in infos],
                     applyToTectonicRegionType=[i[1] for i in infos],
                     applyToSourceType=[i[2] for i in infos])[name])
    if name == 'applyToSources':
        ids = bs.filters[name].split()
        new = rnd.choice(['s', 'unknown', ids[0] + 'x', ids[0] + '00000'])
        ids[rnd.randrange(len(ids))] = new
        bs.filters[name] = ' '.join(ids)
    else:
        pool = trees.TRTS + ['volcanic'] if name != 'applyToSourceType' else (
            trees.KINDS)
        bs.filters[name] = pick(rnd, [v for v in pool if v not in known])
    return lambda: Expected(bs.line)


@fault
def absolute_without_source(rnd, tree, infos):
    bs = pick(rnd, [b for b in later(tree) if 'Absolute' in b.type])
    how = rnd.randrange(5)
    ids = sorted(set(i[0] for i in infos))
    if how == 0:
        bs.filters.clear()
    elif how == 3:
        bs.filters['applyToSources'] = rnd.choice(['', ' ', '  '])
    elif how == 4:  # the same one twice
        bs.filters['applyToSources'] = rnd.choice(['%s %s', ' %s  %s']) % (
            (rnd.choice(ids), ) * 2)
    elif how == 1 and len(ids) > 1:
        bs.filters['applyToSources'] = ' '.join(rnd.sample(ids, 2))
    else:
        bs.filters.clear()
        _sid, trt, kind = rnd.choice(infos)
        name, value = rnd.choice([('applyToTectonicRegionType', trt),
                                  ('applyToSourceType', kind)])
        bs.filters[name] = value
    return lambda: Expected(bs.line)


@fault
def two_root_branchsets(rnd, tree, infos):
    bs = trees.BranchSet('second', 'sourceModel', {}, [
        trees.Branch('second_branch', Decimal(1), '1.0',
                     tree.root.branches[0].value)])
    tree.levels[0].append(bs)
    return lambda: Expected(bs.line)


@fault
def wrong_root(rnd, tree, infos):
    tree.root.type = rnd.choice(
        ['bGRRelative', 'maxMagGRRelative', 'gmpeModel'])
    for br in tree.root.branches:
        br.value = '0.1'
    return lambda: Expected(tree.root.line)


@fault
def wrong_type(rnd, tree, infos):
    bs = pick(rnd, later(tree))
    bs.type = rnd.choice(['sourceModel', 'gmpeModel'])
    bs.filters.clear()
    name = tree.root.branches[0].value
    for br in bs.branches:
        br.value = name if bs.type == 'sourceModel' else 'SadighEtAl1997'
    return lambda: Expected(bs.line)


@fault
def unknown_branch(rnd, tree, infos):
    bs = pick(rnd, [b for b in later(tree) if b.apply_to])
    ids = bs.apply_to.split()
    ids[rnd.randrange(len(ids))] = rnd.choice(
        ['unknown', ids[0] + 'x', 'b', ids[0][:-1] or 'x'])
    allids = [b.id for s in tree.bsets() for b in s.branches]
    if set(ids) <= set(allids):
        raise Skip
    bs.apply_to = ' '.join(ids)
    return lambda: Expected(bs.line, always=True)


@fault
def branch_used_twice(rnd, tree, infos):
    "A branch with two children, in the same level or in the same set"
    bs = pick(rnd, [b for b in later(tree) if b.apply_to])
    if rnd.random() < .5:
        ids = bs.apply_to.split()
        bs.apply_to += ' ' + rnd.choice(ids)
        return lambda: Expected(bs.line, always=True)
    [level] = [lev for lev in tree.levels if bs in lev]
    other = pick(rnd, [b for b in level if b is not bs and b.apply_to])
    other.apply_to += ' ' + rnd.choice(bs.apply_to.split())
    last = max(level.index(bs), level.index(other))
    return lambda: Expected(level[last].line, always=True)


@fault
def old_branch(rnd, tree, infos):
    "A reference to a branch which is not of the previous level"
    cands = []
    for i, level in enumerate(tree.levels):
        if i < 2:
            continue
        old = [br for lev in tree.levels[:i - 1] for bs in lev
               for br in bs.branches]
        cands += [(bs, br) for bs in level if bs.apply_to for br in old]
    bs, br = pick(rnd, cands)
    ids = bs.apply_to.split()
    ids.insert(rnd.randint(0, len(ids)), br.id)
    bs.apply_to = ' '.join(ids)
    return lambda: Expected(bs.line, always=True)


@fault
def own_branch(rnd, tree, infos):
    "A reference to a branch of the same set or of the same level"
    bs = pick(rnd, [b for b in later(tree) if b.apply_to])
    [level] = [lev for lev in tree.levels if bs in lev]
    before = level[:level.index(bs) + 1]
    br = rnd.choice([br for b in before for br in b.branches])
    bs.apply_to = rnd.choice([br.id, bs.apply_to + ' ' + br.id])
    return lambda: Expected(bs.line, always=True)


@fault
def wrong_value(rnd, tree, infos):
    bs = pick(rnd, later(tree))
    br = rnd.choice(bs.branches)
    if bs.type == 'abGRAbsolute':
        br.value = rnd.choice(['1', '1 2 3', 'a b', '1,2', '1 x', '2 nan',
                               '--1 2', '1 1e', '', ' '])
    else:
        br.value = rnd.choice(['1 2', 'x', '', '1,5', '--1', 'nan', '1.2.3',
                               '0x10', ' ', '1d'])
    return lambda: Expected(br.value_line)


def damaged(rnd, obs):
    func = FAULTS[obs.index % len(FAULTS)]
    while True:
        tree, infos = trees.smlt(rnd, obs.scratch, zeros=False)
        try:
            expected = func(rnd, tree, infos)
        except Skip:
            continue
        break
    text = tree.xml(rnd)
    exp = expected()
    obs.note(func.__name__, text)
    fname, base = rnd.choice(['tree.xml', 'x/tree.xml']), obs.scratch
    validate = not exp.always or rnd.random() < .5
    args = (text, base, fname) + rnd.choice(
        [(validate,), (validate, 42, 10)])
    exc = obs.raises(logictree.ValidationError,
                     lambda: logictree.SourceModelLogicTree(*args),
                     'mistake-not-reported', func.__name__)
    obs.check(isinstance(exc, logictree.LogicTreeError), 'error-type')
    obs.check(exc.lineno in exp.lines, 'line', func.__name__, exc.lineno,
              exp.lines, exc)
    obs.eq((exc.filename, exc.basepath), (fname, base), 'file')
    for piece in (fname, base, str(exc.lineno)):
        obs.check(piece in str(exc), 'message', str(exc))
    obs.ev(func.__name__)
    obs.nontrivial(text)
    obs.sample((func.__name__, str(exc)))


def undamaged(rnd, obs):
    tree, infos = trees.smlt(rnd, obs.scratch)
    text = tree.xml(rnd)
    obs.note(text)
    for validate in (True, False):
        lt = logictree.SourceModelLogicTree(text, obs.scratch, 'x', validate)
        obs.eq(sorted(lt.branches), sorted(
            b.id for bs in tree.bsets() for b in bs.branches), 'branches')
    obs.ev('valid trees')
    obs.nontrivial(text)


def broken(rnd, obs):
    "Documents that cannot be read"
    tree, infos = trees.smlt(rnd, obs.scratch)
    how = obs.index % 6
    text = tree.xml(rnd)
    fname = 'tree.xml'
    if how == 0:  # truncated
        text = text[:rnd.randint(1, len(text) - 9)]
    elif how == 1:  # against the schema
        text = text.replace(*rnd.choice([
            ('<uncertaintyModel>', '<model>'), ('branchSetID', 'branchset'),
            ('logicTreeID="lt1"', ''), ('sourceModel"', 'sourcemodel"')]))
        text = text.replace('</uncertaintyModel>', '</model>'
                            if '<model>' in text else '</uncertaintyModel>')
    else:
        br = rnd.choice(tree.root.branches)
        path = os.path.join(obs.scratch, br.value)
        fname = br.value
        with open(path) as f:
            content = f.read()
        if how == 2:
            os.remove(path)  # missing
        elif how == 3:
            content = content[:rnd.randint(0, len(content) - 9)]
        elif how == 4:  # against the schema
            content = content.replace(*rnd.choice([
                ('tectonicRegion="', 'trt="'), ('Source id="', 'Source ID="'),
                ('<nrml', '<NRML'), (' name="x" tec', ' tec')]))
            content = content.replace('</nrml>', '</NRML>'
                                      if '<NRML' in content else '</nrml>')
        else:
            content = rnd.choice(['', 'x', '<a></b>', '<?xml foo'])
        if how != 2:
            with open(path, 'w') as f:
                f.write(content)
        obs.note(content)
    obs.note(text)
    exc = obs.raises(
        logictree.ParsingError,
        lambda: logictree.SourceModelLogicTree(text, obs.scratch, 'tree.xml'),
        'broken-document', how)
    obs.eq((exc.filename, exc.basepath), (fname, obs.scratch), 'file', how)
    obs.check(fname in str(exc), 'message', str(exc))
    if how >= 2:  # the source models are not read without validation
        logictree.SourceModelLogicTree(text, obs.scratch, 'tree.xml', False)
    obs.ev('broken documents')
    obs.nontrivial(text, how)


def big(rnd, obs):
    "The same in big trees"
    make_big(rnd.choice([damaged, damaged, undamaged]))(rnd, obs)
    obs.ev('big trees')


REQUIRE += ['broken documents', 'big trees']
FAMILIES = [('big', big, 30, 600),
            ('damaged', damaged, 450, 9000),
            ('undamaged', undamaged, 60, 1500),
            ('broken', broken, 60, 1200)]
