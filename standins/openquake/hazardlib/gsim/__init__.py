from collections import OrderedDict
from openquake.hazardlib.gsim import base
from openquake.hazardlib.gsim.sadigh_1997 import SadighEtAl1997
from openquake.hazardlib.gsim.chiou_youngs_2008 import ChiouYoungs2008

_extra = [type(name, (base.GMPE,), {}) for name in (
    'AkkarBommer2010', 'AtkinsonBoore2003SInter', 'AtkinsonBoore2003SSlab',
    'BooreAtkinson2008', 'Campbell2003SHARE', 'CauzziFaccioli2008',
    'FaccioliEtAl2010', 'LinLee2008SInter', 'LinLee2008SSlab',
    'ToroEtAl2002SHARE', 'YoungsEtAl1997SInter', 'YoungsEtAl1997SSlab',
    'ZhaoEtAl2006Asc', 'ZhaoEtAl2006SInter', 'ZhaoEtAl2006SSlab')]


def get_available_gsims():
    classes = _extra + [SadighEtAl1997, ChiouYoungs2008]
    return OrderedDict(sorted((c.__name__, c) for c in classes))
