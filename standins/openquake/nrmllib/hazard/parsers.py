"""Stand-in for openquake.nrmllib.hazard.parsers.SourceModelParser"""
from decimal import Decimal
from lxml import etree
from openquake import nrmllib
from openquake.nrmllib import models

NS = '{%s}' % nrmllib.NAMESPACE
GML = '{%s}' % nrmllib.GML_NAMESPACE


def _txt(elem, path):
    return elem.find(path).text.strip()


def _coords(text, dim):
    vals = text.split()
    return ', '.join(' '.join(vals[i:i + dim])
                     for i in range(0, len(vals), dim))


def _linestring(elem, dim):
    pos = elem.find(GML + 'LineString/' + GML + 'posList')
    return 'LINESTRING(%s)' % _coords(pos.text, dim)


class SourceModelParser(object):
    def __init__(self, source):
        self.source = source

    def parse(self):
        root = etree.parse(self.source).getroot()
        sm = root.find(NS + 'sourceModel')
        sources = [self._source(el) for el in sm]
        return models.SourceModel(sm.get('name'), iter(sources))

    def _source(self, el):
        kind = el.tag[len(NS):]
        return getattr(self, '_' + kind)(el)

    def _mfd(self, el):
        inc = el.find(NS + 'incrementalMFD')
        if inc is not None:
            return models.IncrementalMFD(
                float(inc.get('minMag')), float(inc.get('binWidth')),
                map(float, _txt(inc, NS + 'occurRates').split()))
        gr = el.find(NS + 'truncGutenbergRichterMFD')
        return models.TGRMFD(*[float(gr.get(k)) for k in (
            'aValue', 'bValue', 'minMag', 'maxMag')])

    def _common(self, el, src):
        src.id, src.name = el.get('id'), el.get('name')
        src.trt = el.get('tectonicRegion')
        src.mfd = self._mfd(el)
        msr = el.find(NS + 'magScaleRel')
        if msr is not None:
            src.mag_scale_rel = msr.text.strip()
            src.rupt_aspect_ratio = float(_txt(el, NS + 'ruptAspectRatio'))
        rake = el.find(NS + 'rake')
        if rake is not None:
            src.rake = float(rake.text)
        return src

    def _dists(self, el, src):
        src.nodal_plane_dist = [
            models.NodalPlane(Decimal(n.get('probability')),
                              float(n.get('strike')), float(n.get('dip')),
                              float(n.get('rake')))
            for n in el.find(NS + 'nodalPlaneDist')]
        src.hypo_depth_dist = [
            models.HypocentralDepth(Decimal(n.get('probability')),
                                    float(n.get('depth')))
            for n in el.find(NS + 'hypoDepthDist')]

    def _depths(self, geom, obj):
        obj.upper_seismo_depth = float(_txt(geom, NS + 'upperSeismoDepth'))
        obj.lower_seismo_depth = float(_txt(geom, NS + 'lowerSeismoDepth'))
        return obj

    def _pointSource(self, el):
        src = self._common(el, models.PointSource())
        geom = el.find(NS + 'pointGeometry')
        pos = _txt(geom, GML + 'Point/' + GML + 'pos')
        src.geometry = self._depths(
            geom, models.PointGeometry('POINT(%s)' % _coords(pos, 2)))
        self._dists(el, src)
        return src

    def _areaSource(self, el):
        src = self._common(el, models.AreaSource())
        geom = el.find(NS + 'areaGeometry')
        vals = geom.find('/'.join(
            GML + t for t in ('Polygon', 'exterior', 'LinearRing',
                              'posList'))).text.split()
        vals += vals[:2]  # close the polygon
        src.geometry = self._depths(geom, models.AreaGeometry(
            'POLYGON((%s))' % _coords(' '.join(vals), 2)))
        self._dists(el, src)
        return src

    def _simple_geom(self, geom):
        obj = models.SimpleFaultGeometry(
            _linestring(geom, 2), float(_txt(geom, NS + 'dip')))
        return self._depths(geom, obj)

    def _complex_geom(self, geom):
        return models.ComplexFaultGeometry(
            _linestring(geom.find(NS + 'faultTopEdge'), 3),
            _linestring(geom.find(NS + 'faultBottomEdge'), 3),
            [_linestring(e, 3)
             for e in geom.findall(NS + 'intermediateEdge')])

    def _simpleFaultSource(self, el):
        src = self._common(el, models.SimpleFaultSource())
        src.geometry = self._simple_geom(el.find(NS + 'simpleFaultGeometry'))
        return src

    def _complexFaultSource(self, el):
        src = self._common(el, models.ComplexFaultSource())
        src.geometry = self._complex_geom(
            el.find(NS + 'complexFaultGeometry'))
        return src

    def _point(self, el):
        return models.Point(float(el.get('lon')), float(el.get('lat')),
                            float(el.get('depth')))

    def _characteristicFaultSource(self, el):
        src = self._common(el, models.CharacteristicSource())
        for attr in ('mag_scale_rel', 'rupt_aspect_ratio'):
            vars(src).pop(attr, None)
        surf = el.find(NS + 'surface')
        simple = surf.find(NS + 'simpleFaultGeometry')
        cmplx = surf.find(NS + 'complexFaultGeometry')
        if simple is not None:
            src.surface = self._simple_geom(simple)
        elif cmplx is not None:
            src.surface = self._complex_geom(cmplx)
        else:
            src.surface = [
                models.PlanarSurface(
                    float(p.get('strike')), float(p.get('dip')),
                    *[self._point(p.find(NS + t)) for t in (
                        'topLeft', 'topRight', 'bottomLeft', 'bottomRight')])
                for p in surf.findall(NS + 'planarSurface')]
        return src
