"""
XML reading for the stand-ins, on the JVM's SAX parser.

`parse_events(data)` returns (events, error): events is a list of
('start', (uri, local), attrib_list, line) / ('end', ...) / ('text', s)
tuples up to the first syntax error; error is None or (message, line).
"""
from javax.xml.parsers import SAXParserFactory
from java.io import ByteArrayInputStream
from java.lang import String as JString
from org.xml.sax import InputSource, SAXParseException
from org.xml.sax.helpers import DefaultHandler
from org.xml.sax.ext import LexicalHandler

_factory = SAXParserFactory.newInstance()
_factory.setNamespaceAware(True)
for _feat in ('http://apache.org/xml/features/nonvalidating/load-external-dtd',
              'http://xml.org/sax/features/external-general-entities',
              'http://xml.org/sax/features/external-parameter-entities'):
    try:
        _factory.setFeature(_feat, False)
    except Exception:
        pass


def pystr(s):
    """ASCII text is returned as str, anything else as unicode (as lxml)"""
    try:
        return str(s)
    except UnicodeError:
        return unicode(s)


class _Handler(DefaultHandler):
    def __init__(self):
        self.events = []
        self.locator = None
        self.buf = []

    def setDocumentLocator(self, locator):
        self.locator = locator

    def _flush(self):
        if self.buf:
            self.events.append(('text', pystr(u''.join(self.buf))))
            self.buf = []

    def startElement(self, uri, local, qname, attrs):
        self._flush()
        att = []
        for i in range(attrs.getLength()):
            auri = attrs.getURI(i)
            name = pystr(attrs.getLocalName(i))
            if auri:
                name = '{%s}%s' % (pystr(auri), name)
            att.append((name, pystr(attrs.getValue(i))))
        self.events.append(('start', (pystr(uri or ''), pystr(local)), att,
                            self.locator.getLineNumber()))

    def endElement(self, uri, local, qname):
        self._flush()
        self.events.append(('end', (pystr(uri or ''), pystr(local)),
                            self.locator.getLineNumber()))

    def characters(self, ch, start, length):
        self.buf.append(unicode(JString(ch, start, length)))

    def error(self, exc):
        raise exc

    def fatalError(self, exc):
        raise exc


def parse_events(data):
    if isinstance(data, unicode):
        data = data.encode('utf-8')
    handler = _Handler()
    stream = ByteArrayInputStream(JString(data, 'ISO-8859-1').getBytes(
        'ISO-8859-1'))
    parser = _factory.newSAXParser()
    try:
        parser.parse(InputSource(stream), handler)
    except SAXParseException as exc:
        handler._flush()
        return handler.events, (pystr(exc.getMessage()), exc.getLineNumber())
    return handler.events, None


def read_source(source):
    """The bytes of a file name or a file-like object"""
    if hasattr(source, 'read'):
        data = source.read()
    else:
        f = open(source, 'rb')
        try:
            data = f.read()
        finally:
            f.close()
    return data
