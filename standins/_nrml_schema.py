"""
A structural stand-in for the part of the NRML 0.4 schema the logic tree and
source model parsers lean on: allowed children, required attributes and a few
enumerations.  Elements outside the described part are not constrained.
"""
import re

NS = 'http://openquake.org/xmlns/nrml/0.4'
GML = 'http://www.opengis.net/gml'
SOURCES = ('areaSource pointSource simpleFaultSource complexFaultSource '
           'characteristicFaultSource').split()
UNCERTAINTIES = ('gmpeModel sourceModel maxMagGRRelative bGRRelative '
                 'abGRAbsolute maxMagGRAbsolute').split()
SOURCETYPES = ('area point simpleFault complexFault '
               'characteristicFault').split()

# tag -> (allowed child tags or None for anything, required attributes)
ELEMENTS = {
    'nrml': (('logicTree sourceModel exposureModel vulnerabilityModel '
              'fragilityModel gmfSet gmfCollection siteModel '
              'simpleFaultRupture complexFaultRupture hazardCurves').split(),
             []),
    'logicTree': (['logicTreeBranchingLevel'], ['logicTreeID']),
    'logicTreeBranchingLevel': (['logicTreeBranchSet'],
                                ['branchingLevelID']),
    'logicTreeBranchSet': (['logicTreeBranch'],
                           ['branchSetID', 'uncertaintyType']),
    'logicTreeBranch': (['uncertaintyModel', 'uncertaintyWeight'],
                        ['branchID']),
    'uncertaintyModel': ([], []),
    'uncertaintyWeight': ([], []),
    'sourceModel': (SOURCES, []),
}
for s in SOURCES:
    ELEMENTS[s] = (None, ['id', 'name', 'tectonicRegion'])
REQUIRED_CHILDREN = {
    'logicTreeBranch': ['uncertaintyModel', 'uncertaintyWeight'],
    'logicTreeBranchSet': ['logicTreeBranch'],
    'logicTreeBranchingLevel': ['logicTreeBranchSet'],
    'logicTree': ['logicTreeBranchingLevel'],
}
ENUMS = {('logicTreeBranchSet', 'uncertaintyType'): UNCERTAINTIES,
         ('logicTreeBranchSet', 'applyToSourceType'): SOURCETYPES}
_decimal = re.compile(r'^\s*[+-]?(\d+(\.\d*)?|\.\d+)\s*$')


def first_error(root):
    if root.tag != '{%s}nrml' % NS:
        return ("Element '%s': No matching global declaration available for "
                "the validation root." % root.tag, root.sourceline)
    return _check(root)


def _check(el):
    if not el.tag.startswith('{%s}' % NS):
        return None
    local = el.tag[len(NS) + 2:]
    spec = ELEMENTS.get(local)
    if spec is None:
        return None
    children, required = spec
    for name in required:
        if el.get(name) is None:
            return ("Element '%s': The attribute '%s' is required but missing."
                    % (el.tag, name), el.sourceline)
    for name, value in el.items():
        allowed = ENUMS.get((local, name))
        if allowed and value not in allowed:
            return ("Element '%s', attribute '%s': [facet 'enumeration'] The "
                    "value '%s' is not an element of the set {%s}." % (
                        el.tag, name, value,
                        ', '.join(map(repr, allowed))), el.sourceline)
    if local == 'uncertaintyWeight' and not _decimal.match(el.text or ''):
        return ("Element '%s': '%s' is not a valid value of the atomic type "
                "'xs:decimal'." % (el.tag, el.text), el.sourceline)
    if children is None:
        return None
    for child in el:
        if child.tag not in ['{%s}%s' % (NS, c) for c in children]:
            return ("Element '%s': This element is not expected." % child.tag,
                    child.sourceline)
        err = _check(child)
        if err:
            return err
    for name in REQUIRED_CHILDREN.get(local, ()):
        if el.find('{%s}%s' % (NS, name)) is None:
            return ("Element '%s': Missing child element(s). Expected is "
                    "( {%s}%s )." % (el.tag, NS, name), el.sourceline)
    return None
