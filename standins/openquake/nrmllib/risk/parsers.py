"""Stand-in for openquake.nrmllib.risk.parsers"""
from lxml import etree
from openquake import nrmllib

NS = '{%s}' % nrmllib.NAMESPACE


class VulnerabilityModelParser(object):
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        root = etree.parse(self.source).getroot()
        for vset in root.find(NS + 'vulnerabilityModel'):
            iml = vset.find(NS + 'IML')
            for vf in vset.findall(NS + 'discreteVulnerability'):
                yield dict(
                    ID=vf.get('vulnerabilityFunctionID'),
                    vulnerabilitySetID=vset.get('vulnerabilitySetID'),
                    assetCategory=vset.get('assetCategory'),
                    lossCategory=vset.get('lossCategory'),
                    IMT=iml.get('IMT'),
                    IML=map(float, iml.text.split()),
                    probabilisticDistribution=vf.get(
                        'probabilisticDistribution'),
                    lossRatio=map(float, vf.find(
                        NS + 'lossRatio').text.split()),
                    coefficientsVariation=map(float, vf.find(
                        NS + 'coefficientsVariation').text.split()))


class FragilityModelParser(object):
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        root = etree.parse(self.source).getroot()
        model = root.find(NS + 'fragilityModel')
        fmt = model.get('format')
        limit_states = model.find(NS + 'limitStates').text.split()
        yield fmt, limit_states
        for ffs in model.findall(NS + 'ffs'):
            taxonomy = ffs.find(NS + 'taxonomy').text.strip()
            ndl = ffs.get('noDamageLimit')
            ndl = None if ndl is None else float(ndl)
            iml = ffs.find(NS + 'IML')
            if fmt == 'discrete':
                attrs = dict(IMT=iml.get('IMT'), imlUnit=iml.get('imlUnit'),
                             imls=map(float, iml.text.split()))
                params = [map(float, ffd.find(NS + 'poEs').text.split())
                          for ffd in ffs.findall(NS + 'ffd')]
            else:
                attrs = dict(IMT=iml.get('IMT'), imlUnit=iml.get('imlUnit'),
                             minIML=iml.get('minIML'),
                             maxIML=iml.get('maxIML'), imls=None)
                params = []
                for ffc in ffs.findall(NS + 'ffc'):
                    p = ffc.find(NS + 'params')
                    params.append((float(p.get('mean')),
                                   float(p.get('stddev'))))
            yield taxonomy, attrs, params, ndl
