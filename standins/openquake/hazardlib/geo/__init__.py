"""Stand-in for openquake.hazardlib.geo"""
import math

EARTH_KM_PER_DEG = 111.19492664455873


class Point(object):
    def __init__(self, longitude, latitude, depth=0.0):
        if not -180 <= longitude <= 180:
            raise ValueError('longitude %.6f outside range' % longitude)
        if not -90 <= latitude <= 90:
            raise ValueError('latitude %.6f outside range' % latitude)
        self.longitude = longitude
        self.latitude = latitude
        self.depth = depth

    x = property(lambda self: self.longitude)
    y = property(lambda self: self.latitude)
    z = property(lambda self: self.depth)

    def _key(self):
        return (self.longitude, self.latitude, self.depth)

    def __eq__(self, other):
        return isinstance(other, Point) and self._key() == other._key()

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return '<Latitude=%.6f, Longitude=%.6f, Depth=%.4f>' % (
            self.latitude, self.longitude, self.depth)


class Line(object):
    def __init__(self, points):
        points = list(points)
        if len(points) < 1:
            raise ValueError('One point needed to create a line!')
        self.points = points

    def __len__(self):
        return len(self.points)

    def __getitem__(self, i):
        return self.points[i]


class NodalPlane(object):
    def __init__(self, strike, dip, rake):
        if not 0 <= strike < 360:
            raise ValueError('strike is out of range [0, 360)')
        if not 0 < dip <= 90:
            raise ValueError('dip is out of range (0, 90]')
        if not -180 < rake <= 180:
            raise ValueError('rake is out of range (-180, 180]')
        self.strike, self.dip, self.rake = strike, dip, rake


class Mesh(object):
    def __init__(self, lons, lats, depths=None):
        self.lons = lons
        self.lats = lats
        self.depths = depths

    def __len__(self):
        return len(self.lons)

    def __iter__(self):
        for lon, lat in zip(self.lons, self.lats):
            yield Point(lon, lat)


class Polygon(object):
    def __init__(self, points):
        points = list(points)
        if len(points) < 3:
            raise ValueError('polygon must have at least 3 unique vertices')
        self.lons = [p.longitude for p in points]
        self.lats = [p.latitude for p in points]

    def _inside(self, x, y):
        inside = False
        n = len(self.lons)
        for i in range(n):
            x1, y1 = self.lons[i], self.lats[i]
            x2, y2 = self.lons[(i + 1) % n], self.lats[(i + 1) % n]
            if (y1 > y) != (y2 > y):
                if x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
                    inside = not inside
        return inside

    def discretize(self, mesh_spacing):
        west, east = min(self.lons), max(self.lons)
        south, north = min(self.lats), max(self.lats)
        mid = math.radians((south + north) / 2.)
        height = (north - south) * EARTH_KM_PER_DEG
        width = (east - west) * EARTH_KM_PER_DEG * math.cos(mid)
        ny = int(height / mesh_spacing) + 1
        nx = max(1, int(width / mesh_spacing))
        lons, lats = [], []
        for i in range(ny):
            lat = south + (north - south) * (i + .5) / ny
            for j in range(nx):
                lon = west + (east - west) * (j + .5) / nx
                if self._inside(lon, lat):
                    lons.append(lon)
                    lats.append(lat)
        if not lons:
            lons = [sum(self.lons) / len(self.lons)]
            lats = [sum(self.lats) / len(self.lats)]
        return Mesh(lons, lats)


class BaseSurface(object):
    pass


class SimpleFaultSurface(BaseSurface):
    @classmethod
    def from_fault_data(cls, fault_trace, upper_seismogenic_depth,
                        lower_seismogenic_depth, dip, mesh_spacing):
        if lower_seismogenic_depth <= upper_seismogenic_depth:
            raise ValueError('lower seismogenic depth must be greater than '
                             'upper seismogenic depth')
        self = cls()
        self.fault_trace = fault_trace
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.dip = dip
        self.mesh_spacing = mesh_spacing
        return self


class ComplexFaultSurface(BaseSurface):
    @classmethod
    def from_fault_data(cls, edges, mesh_spacing):
        if len(edges) < 2:
            raise ValueError('at least two edges are required')
        self = cls()
        self.edges = edges
        self.mesh_spacing = mesh_spacing
        return self


class PlanarSurface(BaseSurface):
    def __init__(self, mesh_spacing, strike, dip, top_left, top_right,
                 bottom_right, bottom_left):
        self.mesh_spacing = mesh_spacing
        self.strike = strike
        self.dip = dip
        corners = (top_left, top_right, bottom_left, bottom_right)
        self.corner_lons = [p.longitude for p in corners]
        self.corner_lats = [p.latitude for p in corners]
        self.corner_depths = [p.depth for p in corners]


class MultiSurface(BaseSurface):
    def __init__(self, surfaces):
        self.surfaces = surfaces


from openquake.hazardlib.geo import surface, point, line, polygon
from openquake.hazardlib.geo import nodalplane, mesh
