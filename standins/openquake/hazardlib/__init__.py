"""Stand-in for openquake.hazardlib"""
from openquake.hazardlib import (
    const, geo, mfd, pmf, scalerel, tom, site, source, gsim)
