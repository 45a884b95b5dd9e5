"""C27: uncertainties are applied to the right sources, and only to them"""
import copy
import trees
from scale import big as make_big
from c25_tree_paths import build
from openquake.hazardlib import mfd, source, geo, pmf, scalerel, tom
from openquake.commonlib import logictree

RULE = ('for random source model logic trees and random paths the function '
        'applying the uncertainties is called on sources of all kinds, with '
        'truncated Gutenberg-Richter and other distributions; the parameters '
        'of the distributions are then compared with an independent '
        'computation; the signature is the tree, the path and the sources')
REQUIRE = ['unknown filters and uncertainties', 'sources changed',
           'sources not changed', 'uncertainties applied',
           'uncertainties filtered out', 'filters applyToSources',
           'filters applyToSourceType', 'filters applyToTectonicRegionType',
           'no filters', 'type abGRAbsolute', 'type bGRRelative',
           'type maxMagGRAbsolute', 'type maxMagGRRelative',
           'other distributions', 'big trees']


def make_source(rnd, sid, trt, kind):
    if rnd.random() < .75:
        m = mfd.TruncatedGRMFD(4., 8., .1, round(rnd.uniform(-4, 4), 2),
                               round(rnd.uniform(2, 4), 2))
    else:
        m = mfd.EvenlyDiscretizedMFD(5., .1, [.1, .2, .3])
    msr = scalerel.WC1994()
    pois = tom.PoissonTOM(50.)
    ndist = pmf.PMF([(1, geo.NodalPlane(0, 90, 0))])
    hdist = pmf.PMF([(1, 5.)])
    line = geo.Line([geo.Point(0, 0), geo.Point(0, 1)])
    if kind == 'point':
        return source.PointSource(sid, 'x', trt, m, 1., msr, 1., pois, 0.,
                                  10., geo.Point(0, 0), ndist, hdist)
    elif kind == 'area':
        poly = geo.Polygon([geo.Point(0, 0), geo.Point(0, 1),
                            geo.Point(1, 1)])
        return source.AreaSource(sid, 'x', trt, m, 1., msr, 1., pois, 0.,
                                 10., ndist, hdist, poly, 20.)
    elif kind == 'simpleFault':
        return source.SimpleFaultSource(sid, 'x', trt, m, 1., msr, 1., pois,
                                        0., 10., line, 45., 0.)
    elif kind == 'complexFault':
        return source.ComplexFaultSource(sid, 'x', trt, m, 1., msr, 1., pois,
                                         [line, line], 0.)
    return source.CharacteristicFaultSource(
        sid, 'x', trt, m, geo.SimpleFaultSurface.from_fault_data(
            line, 0., 10., 45., 1.), 0., pois)


def state(m):
    return sorted(vars(m).items())


def others(src):
    dic = dict((k, v) for k, v in vars(src).items() if k != 'mfd')
    return sorted((k, id(v) if not isinstance(v, (str, float)) else v)
                  for k, v in dic.items())


def applies(bset, sid, trt, kind):
    for key, value in bset.filters.items():
        obsval = {'applyToSources': sid in value.split(),
                  'applyToTectonicRegionType': value == trt,
                  'applyToSourceType': value == kind}[key]
        if not obsval:
            return False
    return True


def expected_params(obs, path_bsets, sid, trt, kind, m):
    "Independent computation; returns the attributes and a count"
    par = dict(vars(m))
    n = 0
    for bset, br in path_bsets:
        if bset.type == 'sourceModel':
            continue
        for key in bset.filters or ['no']:
            obs.ev('filters ' + key if key != 'no' else 'no filters')
        if not applies(bset, sid, trt, kind):
            obs.ev('uncertainties filtered out')
            continue
        obs.ev('type ' + bset.type)
        obs.ev('uncertainties applied')
        n += 1
        if bset.type == 'abGRAbsolute':
            par['a_val'], par['b_val'] = map(float, br.value.split())
        elif bset.type == 'bGRRelative':
            par['b_val'] += float(br.value)
        elif bset.type == 'maxMagGRRelative':
            par['max_mag'] += float(br.value)
        else:
            par['max_mag'] = float(br.value)
    return sorted(par.items()), n


def follow(tree, ids):
    bset, out = tree.root, []
    for i in ids:
        [br] = [b for b in bset.branches if b.id == i]
        out.append((bset, br))
        bset = br.child
    return out


def applied(rnd, obs):
    tree, infos = trees.smlt(rnd, obs.scratch)
    # more sources with similar ids
    extra = [(sid + rnd.choice(['0', '_', 'x']), trt, kind)
             for sid, trt, kind in infos]
    extra += [(sid[:-1] or 's', trt, kind) for sid, trt, kind in infos]
    extra += [('z%d' % i, rnd.choice(trees.TRTS), rnd.choice(trees.KINDS))
              for i in range(3)]
    text = tree.xml(rnd)
    obs.note(text)
    _how, lt = build(rnd, obs, logictree.SourceModelLogicTree, text,
                     obs.scratch)
    functions = []
    for path in rnd.sample(tree.paths(), min(3, len(tree.paths()))):
        ids = [b.id for b in path]
        if rnd.random() < .5:
            ids = tuple(ids)
        before_ids = list(ids)
        functions.append((ids, lt.make_apply_uncertainties(ids)))
        obs.eq(list(ids), before_ids, 'path-changed')
    # each function stays bound to its own path
    rnd.shuffle(functions)
    functions.append(rnd.choice(functions))
    for ids, apply_uncertainties in functions:
        steps = follow(tree, ids)
        todo = [(make_source(rnd, *info), info) for info in infos + extra]
        rnd.shuffle(todo)
        for src, info in todo:
            orig = copy.deepcopy(src.mfd)
            m = src.mfd
            rest = others(src)
            apply_uncertainties(src)
            obs.check(type(src.mfd) is type(m), 'distribution-replaced')
            obs.eq(others(src), rest, 'source-changed')
            if isinstance(m, mfd.TruncatedGRMFD):
                exp, n = expected_params(obs, steps, *(info + (orig,)))
            else:
                exp, n = state(orig), 0
                obs.ev('other distributions')
            obs.eq(state(src.mfd), exp, 'parameters', info, state(orig), ids)
            obs.ev('sources changed' if n else 'sources not changed')
    obs.nontrivial(text, ids, sorted(infos + extra))
    obs.sample((text, ids))


SIMILAR_IDS = ['s1', 's10', 's100', 's', '1', 'S1', 's1_0',
               '01', '10', 's01', 'as1', 's1.0']
SIMILAR_TRTS = [trt[:-1] for trt in trees.TRTS] + [
    trt.lower() for trt in trees.TRTS] + [
    trees.TRTS[0] + ' ' + trees.TRTS[2], trees.TRTS[0].split()[0]]


def single(rnd, obs):
    "A branch set applied to sources, without a tree around it"
    infos = [(sid, rnd.choice(trees.TRTS), kind) for sid, kind in zip(
        rnd.sample(SIMILAR_IDS, 10), trees.KINDS * 2)]
    typ, filters, value = trees.uncertainty(
        rnd, [i[0] for i in infos], trees.TRTS + SIMILAR_TRTS, trees.KINDS)
    text = value()
    val = (tuple(map(float, text.split())) if typ == 'abGRAbsolute'
           else float(text))
    parsed = dict(filters)
    if 'applyToSources' in parsed:
        parsed['applyToSources'] = parsed['applyToSources'].split()
    bset = logictree.BranchSet(typ, parsed)
    model = trees.BranchSet('bs', typ, filters, [])
    for info in infos:
        src = make_source(rnd, *info)
        obs.eq(bool(bset.filter_source(src)), applies(model, *info),
               'filter', filters, info)
        orig = copy.deepcopy(src.mfd)
        bset.apply_uncertainty(val, src)
        if isinstance(orig, mfd.TruncatedGRMFD):
            exp, n = expected_params(
                obs, [(model, trees.Branch('b', 1, '1', text))],
                *(info + (orig,)))
        else:
            exp, n = state(orig), 0
        obs.eq(state(src.mfd), exp, 'parameters', info, filters)
        obs.ev('sources changed' if n else 'sources not changed')
    # what is unknown is refused and nothing changes
    src = make_source(rnd, 's0', rnd.choice(trees.TRTS), trees.KINDS[0])
    orig = state(src.mfd)
    wrong = rnd.choice([
        (typ, dict(applyToSourceType='fault')), (typ, dict(applyTo='s0'))
    ] + [('maxMagGR', {}), ('bGRAbsolute', {})] * isinstance(
        src.mfd, mfd.TruncatedGRMFD))
    obs.raises(Exception, lambda: logictree.BranchSet(
        *wrong).apply_uncertainty(val, src), 'unknown-accepted', wrong)
    obs.eq(state(src.mfd), orig, 'parameters', wrong)
    obs.ev('unknown filters and uncertainties')
    # branches by identifier
    ids = rnd.sample(['b1', 'b2', 'B1', 'b1 ', 'b', 'b11', ''], 5)
    branches = [logictree.Branch(i, 0.25, 'x') for i in ids[:4]]
    bset.branches.extend(branches)
    for b in branches:
        obs.check(bset.get_branch_by_id(b.branch_id) is b, 'branch-by-id')
    obs.raises(Exception, lambda: bset.get_branch_by_id(ids[4]),
               'branch-by-unknown-id', ids)
    obs.nontrivial(typ, filters, text)


def big(rnd, obs):
    "Many branches, levels or sources"
    make_big(applied)(rnd, obs)
    obs.ev('big trees')


FAMILIES = [('big', big, 15, 300),
            ('applied', applied, 200, 4000),
            ('single', single, 200, 3000)]
