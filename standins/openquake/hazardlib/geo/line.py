from openquake.hazardlib.geo import Line
