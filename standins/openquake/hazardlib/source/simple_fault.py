from openquake.hazardlib.source import SimpleFaultSource
