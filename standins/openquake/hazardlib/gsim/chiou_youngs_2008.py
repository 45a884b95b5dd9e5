from openquake.hazardlib.gsim.base import GMPE


class ChiouYoungs2008(GMPE):
    pass
