from openquake.hazardlib.geo import NodalPlane
