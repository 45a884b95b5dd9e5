from openquake.hazardlib.source import PointSource
