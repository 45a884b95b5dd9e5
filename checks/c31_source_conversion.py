"""C31: NRML sources and ruptures are converted faithfully for the hazard"""
from sources import (Params, gen_source, gen_rupture, to_nrml, expected, same,
                     snap, KINDS, num)
from scale import scale, big as make_big
from shapely.geos import ReadingError
from openquake.commonlib.source import NrmlHazardlibConverter

RULE = ('random NRML sources of the seven kinds and ruptures of the two kinds '
        'are converted with random parameters, several times and in random '
        'order by the same converter, and compared attribute by attribute '
        'with objects built by an independent oracle; the inputs are compared '
        'with a snapshot; sources with an error in one attribute are '
        'converted to check the error; the signature is the source and the '
        'parameters')
REQUIRE = ['kind ' + k for k in KINDS + ['simple_rupture',
                                         'complex_rupture']] + [
    'mfd inc', 'mfd tgr', 'without investigation time',
    'converted twice', 'errors reported', 'big sources']


def converter(par):
    return NrmlHazardlibConverter(*par.args())


def note_kind(obs, spec):
    obs.ev('kind ' + spec.kind)
    if hasattr(spec, 'mfd'):
        obs.ev('mfd ' + spec.mfd[0])


def convert(rnd, obs):
    par = Params(rnd)
    conv = converter(par)
    specs = [gen_source(rnd, rnd.choice(['s%d' % i, '%d' % i, u'\xe0%d' % i]))
             if rnd.random() < .8 else gen_rupture(rnd)
             for i in range(scale(rnd, [1, 2, 4], [30]))]
    obs.note(par, specs)
    if par.time is None:
        obs.ev('without investigation time')
    todo = [(spec, to_nrml(spec)) for spec in specs]
    todo += rnd.sample(todo, rnd.randint(0, len(todo)))
    obs.ev('converted twice', len(todo) - len(specs))
    results = []
    for spec, src in todo:
        before = snap(src)
        note_kind(obs, spec)
        got = conv(src)
        same(obs, got, expected(spec, par), 'conversion', spec, par)
        same(obs, src, before, 'input-changed', spec)
        results.append((got, snap(got), spec))
        obs.nontrivial(spec, par)
        obs.sample((spec, par))
    for got, before, spec in results:  # not touched by later conversions
        same(obs, got, before, 'result-changed', spec)


def spoil(rnd, spec, src, par):
    "Introduce an error in the source; return the expected exception types"
    ways = []
    if spec.mfd[0] == 'inc':
        ways += ['rates', 'norates']
    else:
        ways += ['magnitudes', 'width']
    if hasattr(spec, 'msr'):
        ways += ['msr', 'rar']
    if spec.kind in ('point', 'area'):
        ways += ['nodal', 'probability', 'hypo', 'wkt', 'depths']
    if spec.kind in ('simple', 'char_simple'):
        ways += ['trace', 'depths']
    if spec.kind in ('complex', 'char_complex'):
        ways += ['edge']
    how = rnd.choice(ways)
    geometry = (src.surface if spec.kind.startswith('char')
                else src.geometry)
    if how == 'rates':
        src.mfd.occur_rates[rnd.randrange(len(src.mfd.occur_rates))] = -.1
    elif how == 'norates':
        src.mfd.occur_rates[:] = []
    elif how == 'magnitudes':
        src.mfd.min_mag, src.mfd.max_mag = src.mfd.max_mag, src.mfd.min_mag
    elif how == 'width':
        par.width = None
        return how, AssertionError
    elif how == 'msr':
        src.mag_scale_rel = rnd.choice(['WC1995', '', 'wc1994'])
        return how, KeyError
    elif how == 'rar':
        src.rupt_aspect_ratio = rnd.choice([0., -1.5])
    elif how == 'nodal':
        rnd.choice(src.nodal_plane_dist).strike = 361.
    elif how == 'probability':
        rnd.choice(src.nodal_plane_dist).probability *= 2
    elif how == 'hypo':
        rnd.choice(src.hypo_depth_dist).probability /= 2
    elif how == 'wkt':
        geometry.wkt = rnd.choice(['POINT(1', 'xxx(1 2)', ''])
        return how, ReadingError
    elif how == 'trace':
        geometry.wkt = rnd.choice(['LINESTRING(1 95, 2 3)',
                                   'LINESTRING(-181. 1., 0. 0.)'])
    elif how == 'edge':
        geometry.bottom_edge_wkt = 'LINESTRING(1 95 3, 2 3 4)'
    else:
        geometry.lower_seismo_depth = geometry.upper_seismo_depth - rnd.choice(
            [0., 1.])
    return how, ValueError


def errors(rnd, obs):
    par = Params(rnd)
    spec = gen_source(rnd, rnd.choice(['s1', '33', 'x-y']), names=[
        'Mount Diablo Thrust', 'R 1', 'A & B', '100%', '', '%s', "'"],
        kind=rnd.choice([k for k in KINDS if k != 'char_planar']))
    src = to_nrml(spec)
    how, etype = spoil(rnd, spec, src, par)
    before = snap(src)
    obs.note(how, spec, par)
    conv = converter(par)
    exc = obs.raises(etype, lambda: conv(src), 'wrong-error', how)
    msg = exc.args[0] if exc.args else ''
    obs.check("source id='%s'" % spec.id in msg, 'id-not-in-message', msg)
    obs.check("name='%s'" % spec.name in msg, 'name-not-in-message', msg)
    if how == 'msr':
        obs.check(src.mag_scale_rel in msg, 'cause-not-in-message', msg)
    elif how == 'rar':
        obs.check('aspect ratio' in msg, 'cause-not-in-message', msg)
    same(obs, src, before, 'input-changed', how)
    obs.ev('errors reported')
    obs.nontrivial(how, spec)
    # the converter still works
    good = gen_source(rnd, 'good', rnd.choice(KINDS))
    if par.width is not None or good.mfd[0] == 'inc':
        same(obs, conv(to_nrml(good)), expected(good, par), 'conversion',
             good)


def big(rnd, obs):
    "Many sources, points, magnitudes or planes"
    make_big(convert)(rnd, obs)
    obs.ev('big sources')


FAMILIES = [('big', big, 40, 600),
            ('convert', convert, 400, 12000),
            ('errors', errors, 200, 4000)]
