from openquake.hazardlib.geo import Polygon
