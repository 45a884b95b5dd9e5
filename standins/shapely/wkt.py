"""Stand-in for shapely.wkt.loads: points, line strings and polygons"""
import re
from shapely.geos import ReadingError

_rx = re.compile(r'^\s*([A-Za-z]+)\s*(?:Z\s*)?\((.*)\)\s*$', re.S)
_ERR = 'Could not create geometry because of errors while reading input.'


def _coords(text):
    try:
        pts = [tuple(float(x) for x in p.split()) for p in text.split(',')]
    except ValueError:
        raise ReadingError(_ERR)
    if len(set(map(len, pts))) != 1 or len(pts[0]) not in (2, 3):
        raise ReadingError(_ERR)
    return pts


class _Geom(object):
    def __init__(self, coords):
        self.coords = coords


class Point(_Geom):
    geom_type = 'Point'
    x = property(lambda self: self.coords[0][0])
    y = property(lambda self: self.coords[0][1])
    z = property(lambda self: self.coords[0][2])


class LineString(_Geom):
    geom_type = 'LineString'


class Polygon(object):
    geom_type = 'Polygon'

    def __init__(self, shell, holes):
        self.exterior = _Geom(shell)
        self.interiors = [_Geom(h) for h in holes]


def loads(data):
    mo = _rx.match(data)
    if mo is None:
        raise ReadingError(_ERR)
    kind, body = mo.group(1).upper(), mo.group(2)
    if kind == 'POINT':
        pts = _coords(body)
        if len(pts) != 1:
            raise ReadingError(_ERR)
        return Point(pts)
    elif kind == 'LINESTRING':
        pts = _coords(body)
        if len(pts) < 2:
            raise ReadingError(_ERR)
        return LineString(pts)
    elif kind == 'POLYGON':
        rings = [_coords(r) for r in re.findall(r'\(([^()]*)\)', body)]
        if not rings:
            raise ReadingError(_ERR)
        for r in rings:
            if len(r) < 4 or r[0] != r[-1]:
                raise ReadingError(_ERR)
        return Polygon(rings[0], rings[1:])
    raise ReadingError(_ERR)
