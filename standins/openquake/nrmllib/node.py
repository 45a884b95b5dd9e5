"""Stand-in for openquake.nrmllib.node"""
import sys
from xml.sax.saxutils import escape, quoteattr
from lxml import etree
from openquake import nrmllib


def striptag(tag):
    if tag.startswith('{'):
        return tag.rsplit('}')[1]
    return tag


class Node(object):
    """
    A node has a tag, an attrib dictionary, an optional text and an ordered
    (possibly lazy) collection of subnodes.
    """
    __slots__ = ('tag', 'attrib', 'text', 'nodes', 'lineno')

    def __init__(self, fulltag, attrib=None, text=None, nodes=None,
                 lineno=None):
        self.tag = str(striptag(fulltag))
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes
        self.lineno = lineno
        if self.nodes and self.text is not None and self.text.strip():
            raise ValueError(
                'A branch node cannot have a value, got %r' % self.text)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        for node in self.nodes:
            if node.tag == name:
                return node
        raise NameError('No subnode named %r found in %r' % (name, self.tag))

    def getnodes(self, name):
        for node in self.nodes:
            if node.tag == name:
                yield node

    def append(self, node):
        if not isinstance(node, self.__class__):
            raise TypeError('Expected node, got %r' % node)
        self.nodes.append(node)

    def to_str(self, expandattrs=True, expandvals=True):
        out = []
        _display(self, 0, expandattrs, expandvals, out.append)
        return ''.join(out)

    def __iter__(self):
        return iter(self.nodes)

    def __repr__(self):
        return '<%s %s %s %s>' % (
            self.__class__.__name__, self.tag, self.attrib,
            '' if self.text is None else self.text.strip())

    def __getitem__(self, i):
        if isinstance(i, basestring):
            return self.attrib[i]
        return self.nodes[i]

    def get(self, attr, value=None):
        return self.attrib.get(attr, value)

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __delitem__(self, i):
        if isinstance(i, basestring):
            del self.attrib[i]
        else:
            del self.nodes[i]

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True

    def __getstate__(self):
        return dict((slot, getattr(self, slot)) for slot in self.__slots__)

    def __setstate__(self, state):
        for slot in self.__slots__:
            setattr(self, slot, state[slot])


def _display(node, indent, expandattrs, expandvals, output):
    attrs = ''
    if expandattrs and node.attrib:
        attrs = '{%s}' % ','.join(
            ' %s=%r' % kv for kv in sorted(node.attrib.items()))
    val = ''
    if expandvals and node.text is not None and node.text.strip():
        val = ' ' + repr(node.text.strip())
    output('  ' * indent + node.tag + attrs + val + '\n')
    for sub in node.nodes:
        _display(sub, indent + 1, expandattrs, expandvals, output)


def node_from_elem(elem, nodefactory=Node):
    children = list(elem)
    if not children:
        return nodefactory(elem.tag, dict(elem.attrib), elem.text,
                           lineno=elem.sourceline)
    return nodefactory(elem.tag, dict(elem.attrib),
                       nodes=[node_from_elem(c, nodefactory)
                              for c in children], lineno=elem.sourceline)


def node_from_xml(xmlfile, nodefactory=Node):
    return node_from_elem(etree.parse(xmlfile).getroot(), nodefactory)


def node_from_nrml(xmlfile, nodefactory=Node):
    root = node_from_xml(xmlfile, nodefactory)
    assert root.tag == 'nrml', root.tag
    return root


def scientificformat(value):
    if isinstance(value, basestring):
        return value
    if isinstance(value, float):
        return '%r' % value
    if hasattr(value, '__iter__'):
        return ' '.join(scientificformat(v) for v in value)
    return str(value)


class StreamingXMLWriter(object):
    def __init__(self, stream, indent=4, encoding='utf-8', nsmap=None):
        self.stream = stream
        self.indent = indent
        self.encoding = encoding
        self.indentlevel = 0

    def _write(self, text):
        if isinstance(text, unicode):
            text = text.encode(self.encoding)
        self.stream.write(' ' * (self.indent * self.indentlevel)
                          + text.strip() + '\n')

    def empty_element(self, tag, attrs):
        if attrs:
            self._write('<%s %s/>' % (tag, ' '.join(
                '%s=%s' % (n, quoteattr(scientificformat(v)))
                for n, v in sorted(attrs.items()))))
        else:
            self._write('<%s/>' % tag)

    def start_tag(self, tag, attrs=None):
        if not attrs:
            self._write('<%s>' % tag)
        else:
            self._write('<' + tag)
            for n, v in sorted(attrs.items()):
                self._write('%s=%s' % (n, quoteattr(scientificformat(v))))
            self._write('>')
        self.indentlevel += 1

    def end_tag(self, tag):
        self.indentlevel -= 1
        self._write('</%s>' % tag)

    def serialize(self, node):
        if isinstance(node.nodes, list) and not node.nodes and not node.text:
            self.empty_element(node.tag, node.attrib)
            return
        self.start_tag(node.tag, node.attrib)
        if node.text:
            txt = escape(scientificformat(node.text).strip())
            if txt:
                self._write(txt)
        for sub in node.nodes:
            self.serialize(sub)
        self.end_tag(node.tag)

    def __enter__(self):
        self._write('<?xml version="1.0" encoding="%s"?>' % self.encoding)
        return self

    def __exit__(self, etype, exc, tb):
        pass


def node_to_xml(node, output=sys.stdout):
    with StreamingXMLWriter(output) as w:
        w.serialize(node)


def node_to_nrml(node, output=sys.stdout):
    assert isinstance(node, Node), node
    root = Node('nrml', nodes=[node])
    root.attrib['xmlns'] = nrmllib.NAMESPACE
    root.attrib['xmlns:gml'] = nrmllib.GML_NAMESPACE
    node_to_xml(root, output)
    if hasattr(output, 'mode') and '+' in output.mode:  # read-write mode
        output.flush()
        output.seek(0)
        node_from_nrml(output)  # check that it can be read back
