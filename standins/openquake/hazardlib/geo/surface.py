from openquake.hazardlib.geo import SimpleFaultSurface, ComplexFaultSurface, PlanarSurface, MultiSurface, BaseSurface
