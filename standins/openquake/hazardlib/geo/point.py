from openquake.hazardlib.geo import Point
