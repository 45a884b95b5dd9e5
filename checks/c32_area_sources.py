"""C32: splitting an area source in point sources conserves the seismicity"""
import copy
from sources import Params, gen_source, expected, same, snap
from scale import big as make_big
from openquake.hazardlib import source
from openquake.commonlib.source import area_to_point_sources, split_source

RULE = ('random area sources, with both kinds of magnitude distribution, are '
        'split with random discretization steps, directly or as a part of '
        'the generic splitting; the point sources are compared with the mesh '
        'of the polygon and their rates are summed magnitude by magnitude; '
        'the signature is the source and the step')
REQUIRE = ['mfd inc', 'mfd tgr', 'single points', 'many points',
           'interleaved splits', 'rates compared', 'big sources',
           'sources with more than 1000 points']


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def judge(obs, area, before, step, pts):
    mesh = list(area.polygon.discretize(step))
    obs.eq(len(pts), len(mesh), 'number-of-points', step)
    obs.ev('single points' if len(pts) == 1 else 'many points')
    rates = area.mfd.get_annual_occurrence_rates()
    totals = [0.] * len(rates)
    for i, (pt, loc) in enumerate(zip(pts, mesh)):
        obs.check(type(pt) is source.PointSource, 'not-a-point', pt)
        obs.eq(pt.source_id, '%s-%d' % (area.source_id, i), 'source-id')
        obs.eq(pt.name, area.name + '-%d' % i, 'name')
        same(obs, pt.location, loc, 'location', i)
        for attr in ('tectonic_region_type', 'rupture_mesh_spacing',
                     'magnitude_scaling_relationship', 'rupture_aspect_ratio',
                     'upper_seismogenic_depth', 'lower_seismogenic_depth',
                     'nodal_plane_distribution', 'hypocenter_distribution',
                     'temporal_occurrence_model'):
            same(obs, getattr(pt, attr), getattr(area, attr),
                 'attribute-' + attr, i)
        pt_rates = pt.mfd.get_annual_occurrence_rates()
        obs.eq(len(pt_rates), len(rates), 'number-of-magnitudes')
        obs.check(all(close(a, b) for a, b in zip(
            pt.mfd.get_min_max_mag(), area.mfd.get_min_max_mag())),
            'magnitude-range', pt.mfd.get_min_max_mag())
        for j, ((mag, rate), (amag, arate)) in enumerate(
                zip(pt_rates, rates)):
            obs.check(close(mag, amag), 'magnitude', mag, amag)
            obs.check(close(rate * len(pts), arate), 'rate-share', rate,
                      arate, len(pts))
            totals[j] += rate
    obs.check(all(close(t, r[1]) for t, r in zip(totals, rates)),
              'rates-not-conserved', totals, rates)
    obs.ev('rates compared', len(rates) * len(pts))
    same(obs, area, before, 'area-changed')


def split(rnd, obs):
    par = Params(rnd)
    spec = gen_source(rnd, rnd.choice(['a', '1', u'z\xe9', '%s']), 'area')
    area = expected(spec, par)
    before = snap(area)
    obs.ev('mfd ' + spec.mfd[0])
    steps = [rnd.choice([8., 10., 15., 20., 50., 300.])
             for _ in range(rnd.choice([1, 2, 3]))]
    obs.note(spec, steps)
    splitter = rnd.choice([area_to_point_sources, split_source])
    if len(steps) > 1 and rnd.random() < .5:  # interleaved
        obs.ev('interleaved splits')
        gens = [(step, splitter(area, step), []) for step in steps]
        alive = list(gens)
        while alive:
            tup = rnd.choice(alive)
            try:
                tup[2].append(next(tup[1]))
            except StopIteration:
                alive.remove(tup)
        for step, _gen, pts in gens:
            judge(obs, area, before, step, pts)
    else:
        for step in steps:
            judge(obs, area, before, step, list(splitter(area, step)))
    obs.nontrivial(spec, steps)
    obs.sample((spec, steps))


def modified(rnd, obs):
    "The distribution of the area has been changed by an uncertainty"
    par = Params(rnd)
    spec = gen_source(rnd, 'a', 'area')
    spec.mfd = ('tgr', 2., 1., 4.5, 6.5)
    area = expected(spec, par)
    points0 = list(area_to_point_sources(area, 20.))
    rates0 = [p.mfd.get_annual_occurrence_rates() for p in points0]
    area.mfd = copy.copy(area.mfd)
    area.mfd.modify(*rnd.choice([
        ('increment_max_mag', {'value': rnd.choice([1., -.5])}),
        ('set_max_mag', {'value': 7.5}),
        ('increment_b', {'value': rnd.choice([.1, -.1])}),
        ('set_ab', {'a_val': 3.3, 'b_val': 1.2})]))
    before = snap(area)
    obs.ev('mfd tgr')
    judge(obs, area, before, 20., list(area_to_point_sources(area, 20.)))
    obs.eq([p.mfd.get_annual_occurrence_rates() for p in points0], rates0,
           'points-changed')
    obs.nontrivial(spec, before)


def big(rnd, obs):
    "Wide areas, many magnitudes"
    make_big(split)(rnd, obs)
    obs.ev('big sources')


def many(rnd, obs):
    "Areas discretized in a thousand points and more"
    area = expected(wide(rnd), Params(rnd))
    before = snap(area)
    for step in rnd.choice([[5.], [6.], [4.], [6., 5.]]):
        pts = list(area_to_point_sources(area, step))
        obs.ev('sources with more than 1000 points', len(pts) > 1000)
        judge(obs, area, before, step, pts)
        obs.nontrivial(repr(area.polygon.lons), step)


def wide(rnd):
    spec = gen_source(rnd, rnd.choice(['a', '1']), 'area')
    spec.mfd = rnd.choice([('tgr', 2., 1., 4.5, 6.5),
                           ('inc', 5., .1, [.1, .02])])
    lon, lat = rnd.randint(-170, 160), rnd.randint(-40, 30)
    w, h = rnd.choice([(2., 2.), (4., 1.), (1.5, 2.5)])
    spec.polygon = [(lon, lat), (lon + w, lat), (lon + w, lat + h),
                    (lon, lat + h)]
    return spec


FAMILIES = [('many', many, 2, 40),
            ('big', big, 12, 300),
            ('split', split, 150, 5000),
            ('modified', modified, 60, 1500)]
