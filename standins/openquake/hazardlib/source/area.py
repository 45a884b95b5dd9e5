from openquake.hazardlib.source import AreaSource
