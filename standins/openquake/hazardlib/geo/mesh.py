from openquake.hazardlib.geo import Mesh
