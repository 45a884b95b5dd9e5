from openquake.hazardlib.source import ComplexFaultSource
