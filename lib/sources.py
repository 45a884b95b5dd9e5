"""
Random seismic sources.

A `Spec` describes a source with plain data; the same specification is
rendered as nrmllib model objects, as NRML text, and as the hazardlib object
which is expected from the conversion.  The latter is the oracle: it is built
here with explicit arguments, without using the code under test.
"""
from decimal import Decimal
from scale import scale
from openquake.nrmllib import models as nm
from openquake.hazardlib import geo, mfd, pmf, scalerel, source, tom
from openquake.hazardlib.source.rupture import Rupture

TRTS = ['Active Shallow Crust', 'Stable Shallow Crust', 'Volcanic',
        'Subduction Interface', 'Subduction IntraSlab']
KINDS = ['point', 'area', 'simple', 'complex', 'char_simple', 'char_complex',
         'char_planar']
MSRS = sorted(scalerel.get_available_magnitude_scalerel())


class Spec(object):
    def __init__(self, **kw):
        vars(self).update(kw)

    def __repr__(self):
        return 'Spec(%s)' % ', '.join(
            '%s=%r' % it for it in sorted(vars(self).items()))


def num(rnd, lo, hi, digits=None):
    return round(rnd.uniform(lo, hi), rnd.choice([0, 1, 2, 4])
                 if digits is None else digits)


def gen_mfd(rnd, zeros=.2):
    if rnd.random() < .5:
        n = scale(rnd, [1, 1, 2, 3, 5, 9], [25, 60])
        rates = [rnd.choice([0., 0]) if rnd.random() < zeros
                 else rnd.uniform(1e-6, .5) for _ in range(n)]
        if rnd.random() < .8 and not any(rates):
            rates[rnd.randrange(n)] = .25
        return ('inc', num(rnd, 4, 7, 2), rnd.choice([.1, .2, .25, .5]),
                rates)
    digits = rnd.choice([1, 1, 2, 4])
    lo = num(rnd, 4, 6, digits)
    return ('tgr', num(rnd, -4, 4, 2), num(rnd, .5, 2, 2), lo,
            round(lo + rnd.choice([1., 1.2, 1.5, 2., 2.7,
                                   num(rnd, 1, 2, digits)]), digits))


def gen_nodal(rnd):
    return [(p, rnd.choice([0., num(rnd, 0, 359, 1)]),
             rnd.choice([90., num(rnd, 1, 90, 1)]),
             rnd.choice([180., num(rnd, -179, 180, 1)]))
            for p in probabilities(rnd)]


def probabilities(rnd):
    parts = scale(rnd, [[10], [5, 5], [3, 7], [1, 2, 7], [2, 2, 2, 4]],
                  [[1] * 40, [3, 1] * 15 + [40]])
    parts = list(parts)
    rnd.shuffle(parts)
    return [Decimal(p) / sum(parts) for p in parts]


def gen_line(rnd, dim, n=None):
    lon, lat = num(rnd, -170, 160), num(rnd, -80, 70)
    pts = []
    for i in range(n or scale(rnd, [2, 2, 3, 5], [15, 40])):
        pt = (round(lon + i * .3, 4), round(lat + num(rnd, 0, 1), 4))
        pts.append(pt if dim == 2 else pt + (num(rnd, 0, 60),))
    return pts


def gen_polygon(rnd):
    lon, lat = num(rnd, -170, 160), num(rnd, -60, 50)
    w, h = scale(rnd, [.3, .6, 1.], [1.8]), scale(rnd, [.3, .5, 1.], [1.8])
    pts = [(lon, lat), (round(lon + w, 4), lat),
           (round(lon + w, 4), round(lat + h, 4)), (lon, round(lat + h, 4))]
    shape = rnd.randrange(3)
    if shape == 0:
        pts.pop(rnd.randrange(4))
    elif shape == 1:
        pts[2] = (round(lon + w * .6, 4), round(lat + h * .4, 4))
    return pts


def gen_edges(rnd):
    n = rnd.choice([2, 3])
    return [gen_line(rnd, 3, n) for _ in range(scale(
        rnd, [2, 2, 3, 4, 6], [12, 20]))]


def gen_depths(rnd):
    usd = num(rnd, 0, 20, 1)
    return usd, usd + num(rnd, 1, 30, 1)


def gen_planar(rnd):
    return (num(rnd, 0, 359, 1), num(rnd, 1, 90, 1),
            [(num(rnd, -170, 170), num(rnd, -80, 80), num(rnd, 0, 60))
             for _corner in range(4)])  # tl, tr, bl, br


NAMES = ['fault', 'Mount Diablo Thrust', u'R\xe9gion 1', 'x', 'A & B <1>',
         '100%s', 'a-0', '']


def gen_source(rnd, sid, kind=None, trt=None, zeros=.2, names=NAMES):
    kind = kind or rnd.choice(KINDS)
    spec = Spec(kind=kind, id=sid, name=rnd.choice(names),
                trt=trt or rnd.choice(TRTS), mfd=gen_mfd(rnd, zeros))
    if not kind.startswith('char'):
        spec.msr = rnd.choice(MSRS)
        spec.rar = rnd.choice([1., 1.5, 2., num(rnd, .5, 4, 2)])
    if kind in ('point', 'area'):
        spec.nodal = gen_nodal(rnd)
        spec.hypo = [(p, num(rnd, 1, 30, 1)) for p in probabilities(rnd)]
    else:
        spec.rake = rnd.choice([0., num(rnd, -179, 180, 1)])
    if kind in ('point', 'area', 'simple', 'char_simple'):
        spec.usd, spec.lsd = gen_depths(rnd)
    if kind == 'point':
        spec.point = (num(rnd, -180, 180), num(rnd, -90, 90))
    elif kind == 'area':
        spec.polygon = gen_polygon(rnd)
    elif kind in ('simple', 'char_simple'):
        spec.trace = gen_line(rnd, 2)
        spec.dip = num(rnd, 1, 90, 1)
    elif kind in ('complex', 'char_complex'):
        spec.edges = gen_edges(rnd)
    else:
        spec.planar = [gen_planar(rnd) for _ in range(scale(
            rnd, [1, 2, 4], [12, 30]))]
    return spec


def gen_rupture(rnd):
    kind = rnd.choice(['simple_rupture', 'complex_rupture'])
    spec = Spec(kind=kind, id='rup', mag=num(rnd, 4, 9, 2),
                rake=num(rnd, -179, 180, 1),
                hypocenter=(num(rnd, -170, 170), num(rnd, -80, 80),
                            num(rnd, 0, 60)))
    if kind == 'simple_rupture':
        spec.usd, spec.lsd = gen_depths(rnd)
        spec.trace = gen_line(rnd, 2)
        spec.dip = num(rnd, 1, 90, 1)
    else:
        spec.edges = gen_edges(rnd)
    return spec


# ############################## nrmllib objects ########################### #

def _wkt(pts):
    return ', '.join(' '.join(repr(x) for x in p) for p in pts)


def _line_wkt(pts):
    return 'LINESTRING(%s)' % _wkt(pts)


def nrml_mfd(m):
    if m[0] == 'inc':
        return nm.IncrementalMFD(m[1], m[2], list(m[3]))
    return nm.TGRMFD(*m[1:])


def _simple_geometry(spec):
    return nm.SimpleFaultGeometry(
        wkt=_line_wkt(spec.trace), dip=spec.dip,
        upper_seismo_depth=spec.usd, lower_seismo_depth=spec.lsd)


def _complex_geometry(spec):
    edges = map(_line_wkt, spec.edges)
    return nm.ComplexFaultGeometry(
        top_edge_wkt=edges[0], bottom_edge_wkt=edges[-1],
        int_edges=edges[1:-1])


def to_nrml(spec):
    kind = spec.kind
    if kind == 'simple_rupture':
        return nm.SimpleFaultRuptureModel(
            spec.id, spec.mag, spec.rake, list(spec.hypocenter),
            _simple_geometry(spec))
    elif kind == 'complex_rupture':
        return nm.ComplexFaultRuptureModel(
            spec.id, spec.mag, spec.rake, list(spec.hypocenter),
            _complex_geometry(spec))
    dic = dict(id=spec.id, name=spec.name, trt=spec.trt,
               mfd=nrml_mfd(spec.mfd))
    if not kind.startswith('char'):
        dic['mag_scale_rel'] = spec.msr
        dic['rupt_aspect_ratio'] = spec.rar
    if kind in ('point', 'area'):
        dic['nodal_plane_dist'] = [nm.NodalPlane(*t) for t in spec.nodal]
        dic['hypo_depth_dist'] = [nm.HypocentralDepth(*t) for t in spec.hypo]
    else:
        dic['rake'] = spec.rake
    if kind == 'point':
        return nm.PointSource(geometry=nm.PointGeometry(
            'POINT(%s)' % _wkt([spec.point]), spec.usd, spec.lsd), **dic)
    elif kind == 'area':
        return nm.AreaSource(geometry=nm.AreaGeometry(
            'POLYGON((%s))' % _wkt(spec.polygon + spec.polygon[:1]),
            spec.usd, spec.lsd), **dic)
    elif kind == 'simple':
        return nm.SimpleFaultSource(geometry=_simple_geometry(spec), **dic)
    elif kind == 'complex':
        return nm.ComplexFaultSource(geometry=_complex_geometry(spec), **dic)
    elif kind == 'char_simple':
        return nm.CharacteristicSource(surface=_simple_geometry(spec), **dic)
    elif kind == 'char_complex':
        return nm.CharacteristicSource(surface=_complex_geometry(spec), **dic)
    return nm.CharacteristicSource(surface=[
        nm.PlanarSurface(
            strike, dip, top_left=nm.Point(*c[0]), top_right=nm.Point(*c[1]),
            bottom_left=nm.Point(*c[2]), bottom_right=nm.Point(*c[3]))
        for strike, dip, c in spec.planar], **dic)


# ############################## expected objects ########################## #

class Params(object):
    "The parameters of a conversion"
    def __init__(self, rnd):
        self.time = rnd.choice([50., 50., 1., 10000., None, .5, .02, 7,
                                50.125])
        self.spacing = rnd.choice([.5, 1., 2., 5., 2.345, 12.5])
        self.width = rnd.choice([.1, .2, .25, .5, .125, 1., .333])
        self.discr = rnd.choice([5., 10., 20., 60., 7.625, 33.3])

    def args(self):
        return self.time, self.spacing, self.width, self.discr

    def __repr__(self):
        return 'Params%s' % (self.args(),)


def points(pts):
    return [geo.Point(*p) for p in pts]


def hazard_mfd(m, width):
    if m[0] == 'inc':
        return mfd.EvenlyDiscretizedMFD(
            min_mag=m[1], bin_width=m[2], occurrence_rates=list(m[3]))
    return mfd.TruncatedGRMFD(a_val=m[1], b_val=m[2], min_mag=m[3],
                              max_mag=m[4], bin_width=width)


def expected(spec, par):
    "The expected result of the conversion of the given source"
    kind = spec.kind
    if kind in ('char_simple', 'simple_rupture'):
        surface = geo.SimpleFaultSurface.from_fault_data(
            geo.Line(points(spec.trace)), spec.usd, spec.lsd, spec.dip,
            par.spacing)
    elif kind in ('char_complex', 'complex_rupture'):
        surface = geo.ComplexFaultSurface.from_fault_data(
            [geo.Line(points(e)) for e in spec.edges], par.spacing)
    elif kind == 'char_planar':
        surface = geo.MultiSurface([
            geo.PlanarSurface(
                mesh_spacing=par.spacing, strike=strike, dip=dip,
                top_left=geo.Point(*c[0]), top_right=geo.Point(*c[1]),
                bottom_left=geo.Point(*c[2]), bottom_right=geo.Point(*c[3]))
            for strike, dip, c in spec.planar])
    if kind.endswith('rupture'):
        return Rupture(
            mag=spec.mag, rake=spec.rake, tectonic_region_type=None,
            hypocenter=geo.Point(*spec.hypocenter), surface=surface,
            source_typology=source.SimpleFaultSource
            if kind == 'simple_rupture' else source.ComplexFaultSource)
    dic = dict(source_id=spec.id, name=spec.name,
               tectonic_region_type=spec.trt,
               mfd=hazard_mfd(spec.mfd, par.width),
               temporal_occurrence_model=None if par.time is None
               else tom.PoissonTOM(par.time))
    if kind.startswith('char'):
        return source.CharacteristicFaultSource(
            surface=surface, rake=spec.rake, **dic)
    dic.update(
        rupture_mesh_spacing=par.spacing, rupture_aspect_ratio=spec.rar,
        magnitude_scaling_relationship=
        scalerel.get_available_magnitude_scalerel()[spec.msr]())
    if kind == 'complex':
        return source.ComplexFaultSource(
            edges=[geo.Line(points(e)) for e in spec.edges],
            rake=spec.rake, **dic)
    dic.update(upper_seismogenic_depth=spec.usd,
               lower_seismogenic_depth=spec.lsd)
    if kind == 'simple':
        return source.SimpleFaultSource(
            fault_trace=geo.Line(points(spec.trace)), dip=spec.dip,
            rake=spec.rake, **dic)
    dic.update(
        nodal_plane_distribution=pmf.PMF(
            [(n[0], geo.NodalPlane(strike=n[1], dip=n[2], rake=n[3]))
             for n in spec.nodal]),
        hypocenter_distribution=pmf.PMF(list(spec.hypo)))
    if kind == 'point':
        return source.PointSource(location=geo.Point(*spec.point), **dic)
    return source.AreaSource(polygon=geo.Polygon(points(spec.polygon)),
                             area_discretization=par.discr, **dic)


def snap(obj):
    """
    A comparable snapshot of an object graph: two snapshots are equal if and
    only if the objects have the same kind and the same contents
    """
    if isinstance(obj, (list, tuple)):
        return ('seq', tuple(snap(x) for x in obj))
    elif isinstance(obj, type):
        return ('type', obj.__name__)
    elif hasattr(obj, '__dict__'):
        return (type(obj).__name__, tuple(
            (k, snap(v)) for k, v in sorted(vars(obj).items())))
    return obj


def difference(got, exp, path=''):
    "Where two snapshots differ"
    if got == exp:
        return None
    if not (isinstance(got, tuple) and isinstance(exp, tuple)) or \
            len(got) != 2 or len(exp) != 2 or got[0] != exp[0] or \
            len(got[1]) != len(exp[1]):
        return '%s: got %.400r, expected %.400r' % (path, got, exp)
    for i, (g, e) in enumerate(zip(got[1], exp[1])):
        if got[0] == 'seq':
            diff = difference(g, e, '%s[%d]' % (path, i))
        elif g[0] != e[0]:
            return '%s: attribute %s instead of %s' % (path, g[0], e[0])
        else:
            diff = difference(g[1], e[1], '%s.%s' % (path, g[0]))
        if diff:
            return diff
    return '%s: %.400r != %.400r' % (path, got, exp)


def same(obs, got, exp, clause, *detail):
    diff = difference(snap(got), exp if isinstance(exp, tuple) else snap(exp))
    obs.check(diff is None, clause, diff, *detail)


# ############################## NRML documents ############################ #

def esc(text):
    for a, b in [('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'),
                 ('"', '&quot;')]:
        text = text.replace(a, b)
    return text


def _pos(pts):
    return ' '.join(' '.join(repr(x) for x in p) for p in pts)


def _mfd_xml(m):
    if m[0] == 'inc':
        return ('<incrementalMFD minMag="%r" binWidth="%r"><occurRates>%s'
                '</occurRates></incrementalMFD>' % (
                    m[1], m[2], ' '.join(repr(r) for r in m[3])))
    return ('<truncGutenbergRichterMFD aValue="%r" bValue="%r" minMag="%r" '
            'maxMag="%r"/>' % m[1:])


def _ls(pts):
    return ('<gml:LineString><gml:posList>%s</gml:posList></gml:LineString>'
            % _pos(pts))


def _depths_xml(spec):
    return ('<upperSeismoDepth>%r</upperSeismoDepth><lowerSeismoDepth>%r'
            '</lowerSeismoDepth>' % (spec.usd, spec.lsd))


def _simple_xml(spec):
    return ('<simpleFaultGeometry>%s<dip>%r</dip>%s</simpleFaultGeometry>' % (
        _ls(spec.trace), spec.dip, _depths_xml(spec)))


def _complex_xml(spec):
    ints = ''.join('<intermediateEdge>%s</intermediateEdge>' % _ls(e)
                   for e in spec.edges[1:-1])
    return ('<complexFaultGeometry><faultTopEdge>%s</faultTopEdge>%s'
            '<faultBottomEdge>%s</faultBottomEdge></complexFaultGeometry>' % (
                _ls(spec.edges[0]), ints, _ls(spec.edges[-1])))


def _corner(tag, c):
    return '<%s lon="%r" lat="%r" depth="%r"/>' % ((tag,) + c)


def to_xml(spec):
    kind = spec.kind
    tag = {'simple': 'simpleFault', 'complex': 'complexFault'}.get(
        kind, 'characteristicFault' if kind.startswith('char') else kind)
    head = u'<%sSource id="%s" name="%s" tectonicRegion="%s">' % (
        tag, esc(spec.id), esc(spec.name), esc(spec.trt))
    tail = u'</%sSource>' % tag
    mfdx = _mfd_xml(spec.mfd)
    if kind.startswith('char'):
        if kind == 'char_simple':
            surf = _simple_xml(spec)
        elif kind == 'char_complex':
            surf = _complex_xml(spec)
        else:
            surf = ''.join(
                '<planarSurface strike="%r" dip="%r">%s</planarSurface>' % (
                    s, d, ''.join(_corner(*x) for x in zip(
                        ['topLeft', 'topRight', 'bottomLeft', 'bottomRight'],
                        c))) for s, d, c in spec.planar)
        return head + mfdx + '<rake>%r</rake><surface>%s</surface>' % (
            spec.rake, surf) + tail
    if kind == 'point':
        geom = ('<pointGeometry><gml:Point><gml:pos>%s</gml:pos></gml:Point>'
                '%s</pointGeometry>' % (_pos([spec.point]),
                                        _depths_xml(spec)))
    elif kind == 'area':
        geom = ('<areaGeometry><gml:Polygon><gml:exterior><gml:LinearRing>'
                '<gml:posList>%s</gml:posList></gml:LinearRing>'
                '</gml:exterior></gml:Polygon>%s</areaGeometry>' % (
                    _pos(spec.polygon), _depths_xml(spec)))
    elif kind == 'simple':
        geom = _simple_xml(spec)
    else:
        geom = _complex_xml(spec)
    geom += ('<magScaleRel>%s</magScaleRel><ruptAspectRatio>%r'
             '</ruptAspectRatio>' % (spec.msr, spec.rar)) + mfdx
    if kind in ('point', 'area'):
        geom += '<nodalPlaneDist>%s</nodalPlaneDist>' % ''.join(
            '<nodalPlane probability="%s" strike="%r" dip="%r" rake="%r"/>'
            % n for n in spec.nodal)
        geom += '<hypoDepthDist>%s</hypoDepthDist>' % ''.join(
            '<hypoDepth probability="%s" depth="%r"/>' % h
            for h in spec.hypo)
    else:
        geom += '<rake>%r</rake>' % spec.rake
    return head + geom + tail


def document(specs):
    return (u'''<?xml version="1.0" encoding="utf-8"?>
<nrml xmlns:gml="http://www.opengis.net/gml"
      xmlns="http://openquake.org/xmlns/nrml/0.4">
<sourceModel name="Some Source Model">
%s
</sourceModel>
</nrml>
''' % '\n'.join(map(to_xml, specs))).encode('utf-8')
