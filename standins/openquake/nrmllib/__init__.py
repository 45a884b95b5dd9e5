"""Stand-in for openquake.nrmllib"""
import os

NAMESPACE = 'http://openquake.org/xmlns/nrml/0.4'
GML_NAMESPACE = 'http://www.opengis.net/gml'
PARSE_NS_MAP = {'nrml': NAMESPACE, 'gml': GML_NAMESPACE}
SERIALIZE_NS_MAP = {None: NAMESPACE, 'gml': GML_NAMESPACE}


def nrml_schema_file():
    return os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        'schema', 'nrml.xsd')


class InvalidFile(Exception):
    """Raised from custom file validators"""
