"""
Stand-in for lxml.etree: element trees with line numbers, find/findall, a
small XPath subset, iterparse, and structural schema validation.
"""
import re
import _xmlkit
import _nrml_schema


class LxmlError(Exception):
    pass


class XMLSyntaxError(LxmlError, SyntaxError):
    def __init__(self, msg, lineno=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.lineno = lineno
        self.message = msg

    def __str__(self):
        return self.msg


class XMLSchemaParseError(LxmlError):
    pass


class DocumentInvalid(LxmlError):
    pass


class XPathEvalError(LxmlError):
    pass


class _Element(object):
    def __init__(self, tag, attrib=(), sourceline=None):
        self.tag = tag
        self.attrib = _Attrib(attrib)
        self.text = None
        self.tail = None
        self.sourceline = sourceline
        self._parent = None
        self._children = []

    # attributes
    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def set(self, name, value):
        self.attrib[name] = value

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    # children
    def append(self, child):
        if child._parent is not None:
            child._parent._children.remove(child)
        child._parent = self
        self._children.append(child)

    def remove(self, child):
        for i, c in enumerate(self._children):
            if c is child:
                del self._children[i]
                child._parent = None
                return
        raise ValueError('Element is not a child of this node.')

    def clear(self):
        for c in self._children:
            c._parent = None
        self._children = []
        self.attrib.clear()
        self.text = self.tail = None

    def __len__(self):
        return len(self._children)

    def __nonzero__(self):
        return bool(self._children)

    def __iter__(self):
        return iter(list(self._children))

    def __getitem__(self, i):
        return self._children[i]

    def getchildren(self):
        return list(self._children)

    def iterchildren(self, tag=None):
        for c in list(self._children):
            if _match(tag, c.tag):
                yield c

    def iter(self, tag=None):
        if _match(tag, self.tag):
            yield self
        for c in list(self._children):
            for sub in c.iter(tag):
                yield sub

    getiterator = iter

    def iterdescendants(self, tag=None):
        for c in list(self._children):
            for sub in c.iter(tag):
                yield sub

    def iterancestors(self, tag=None):
        p = self._parent
        while p is not None:
            if _match(tag, p.tag):
                yield p
            p = p._parent

    def getparent(self):
        return self._parent

    def _index(self):
        for i, c in enumerate(self._parent._children):
            if c is self:
                return i

    def getprevious(self):
        if self._parent is None:
            return None
        i = self._index()
        return self._parent._children[i - 1] if i else None

    def getnext(self):
        if self._parent is None:
            return None
        i = self._index() + 1
        sib = self._parent._children
        return sib[i] if i < len(sib) else None

    def getroottree(self):
        root = self
        while root._parent is not None:
            root = root._parent
        return _ElementTree(root)

    def itertext(self):
        if self.text:
            yield self.text
        for c in self._children:
            for t in c.itertext():
                yield t
            if c.tail:
                yield c.tail

    # searching
    def findall(self, path, namespaces=None):
        return _select([self], path, namespaces)

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def find(self, path, namespaces=None):
        found = self.findall(path, namespaces)
        return found[0] if found else None

    def findtext(self, path, default=None, namespaces=None):
        el = self.find(path, namespaces)
        if el is None:
            return default
        return el.text or ''

    def xpath(self, path, namespaces=None, **kw):
        if path.startswith('/'):
            root = self
            while root._parent is not None:
                root = root._parent
            doc = _Element('#document')
            doc._children = [root]
            return _select([doc], path[1:] if not path.startswith('//')
                           else '.' + path, namespaces)
        return _select([self], path, namespaces)

    def __repr__(self):
        return '<Element %s at 0x%x>' % (self.tag, id(self))


class _Attrib(dict):
    def __init__(self, items=()):
        dict.__init__(self)
        self._order = []
        for k, v in items:
            self[k] = v

    def __setitem__(self, k, v):
        if k not in self:
            self._order.append(k)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        self._order.remove(k)

    def keys(self):
        return list(self._order)

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k, self[k]) for k in self._order]

    def iteritems(self):
        return iter(self.items())

    def values(self):
        return [self[k] for k in self._order]

    def clear(self):
        dict.clear(self)
        self._order = []

    def pop(self, k, *default):
        if k in self:
            self._order.remove(k)
        return dict.pop(self, k, *default)


def _match(tag, actual):
    if tag is None or tag == '*':
        return True
    if tag.endswith('}*'):
        return actual.startswith(tag[:-1])
    if tag.startswith('{*}'):
        return actual.rsplit('}', 1)[-1] == tag[3:]
    return actual == tag


_step_rx = re.compile(r'((?:\{[^}]*\})?[^/\[\]]+|\.{1,2})?((?:\[[^\]]*\])*)')
_pred_rx = re.compile(r'\[([^\]]*)\]')


def _split(path):
    """Split on '/' outside braces and brackets; '//' gives an empty step"""
    parts, cur, depth = [], '', 0
    for ch in path:
        if ch in '{[':
            depth += 1
        elif ch in '}]':
            depth -= 1
        if ch == '/' and not depth:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    return parts


def _resolve(name, namespaces):
    if ':' in name and not name.startswith('{'):
        prefix, local = name.split(':', 1)
        try:
            return '{%s}%s' % (namespaces[prefix], local)
        except (KeyError, TypeError):
            raise XPathEvalError('Undefined namespace prefix')
    return name


def _predicates(nodes, preds, namespaces):
    for pred in _pred_rx.findall(preds or ''):
        pred = pred.strip()
        mo = re.match(r'^@([\w:]+)\s*=\s*[\'"](.*)[\'"]$', pred)
        if mo:
            nodes = [n for n in nodes if n.get(mo.group(1)) == mo.group(2)]
        elif re.match(r'^@[\w:]+$', pred):
            nodes = [n for n in nodes if n.get(pred[1:]) is not None]
        elif pred.isdigit():
            i = int(pred) - 1
            nodes = nodes[i:i + 1]
        else:
            raise XPathEvalError('unsupported predicate %s' % pred)
    return nodes


def _select(context, path, namespaces):
    deep = False
    for step in _split(path):
        if step == '':
            deep = True
            continue
        if step == '.':
            continue
        if step == '..':
            context = [n._parent for n in context if n._parent is not None]
            continue
        if step == 'text()':
            out = []
            for n in context:
                for m in (n.iter() if deep else [n]):
                    if m.text:
                        out.append(m.text)
            return out
        if step.startswith('@'):
            return [n.get(step[1:]) for n in context
                    if n.get(step[1:]) is not None]
        mo = _step_rx.match(step)
        name, preds = mo.group(1), mo.group(2)
        for axis in ('child::', 'descendant::'):
            if name.startswith(axis):
                name = name[len(axis):]
                deep = deep or axis == 'descendant::'
        tag = _resolve(name, namespaces)
        out = []
        seen = set()
        for n in context:
            cand = [c for c in
                    (n.iterdescendants() if deep else n.iterchildren())
                    if _match(tag, c.tag)]
            for c in _predicates(cand, preds, namespaces):
                if id(c) not in seen:
                    seen.add(id(c))
                    out.append(c)
        context = out
        deep = False
    return context


class _ElementTree(object):
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def xpath(self, path, namespaces=None, **kw):
        if not path.startswith('/'):
            return self._root.xpath(path, namespaces)
        return self._root.xpath(path, namespaces)

    def find(self, path, namespaces=None):
        if path.startswith('/'):
            path = '.' + path
        return self._root.find(path, namespaces)

    def findall(self, path, namespaces=None):
        if path.startswith('/'):
            path = '.' + path
        return self._root.findall(path, namespaces)

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def iter(self, tag=None):
        return self._root.iter(tag)

    getiterator = iter


class XMLSchema(object):
    def __init__(self, etree=None, file=None):
        self.file = file

    def error(self, root):
        """None or the first validation error as (message, line)"""
        return _nrml_schema.first_error(root)

    def validate(self, tree):
        root = tree.getroot() if hasattr(tree, 'getroot') else tree
        return self.error(root) is None

    __call__ = validate

    def assertValid(self, tree):
        root = tree.getroot() if hasattr(tree, 'getroot') else tree
        err = self.error(root)
        if err:
            raise DocumentInvalid(err[0])


class XMLParser(object):
    def __init__(self, schema=None, **kw):
        self.schema = schema


def _qname(name):
    uri, local = name
    return '{%s}%s' % (uri, local) if uri else local


def _build(data):
    """Returns (root, end_order, error)"""
    events, error = _xmlkit.parse_events(data)
    stack, order, root = [], [], None
    for ev in events:
        if ev[0] == 'start':
            el = _Element(_qname(ev[1]), ev[2], ev[3])
            if stack:
                el._parent = stack[-1]
                stack[-1]._children.append(el)
            else:
                root = el
            stack.append(el)
            order.append(('start', el))
        elif ev[0] == 'end':
            order.append(('end', stack.pop()))
        elif stack:
            top = stack[-1]
            if top._children:
                top._children[-1].tail = (top._children[-1].tail or '') + ev[1]
            else:
                top.text = (top.text or '') + ev[1]
    return root, order, error


def _syntax(error):
    return XMLSyntaxError('%s, line %s' % error, error[1])


def _load(data, parser):
    root, _order, error = _build(data)
    if error:
        raise _syntax(error)
    schema = getattr(parser, 'schema', None)
    if schema is not None:
        err = schema.error(root)
        if err:
            raise XMLSyntaxError(err[0], err[1])
    return root


def fromstring(text, parser=None, base_url=None):
    if isinstance(text, unicode) and text.lstrip().startswith('<?xml'):
        raise ValueError('Unicode strings with encoding declaration are not '
                         'supported. Please use bytes input or XML fragments '
                         'without declaration.')
    return _load(text, parser)


XML = fromstring


def parse(source, parser=None, base_url=None):
    return _ElementTree(_load(_xmlkit.read_source(source), parser))


class iterparse(object):
    def __init__(self, source, events=('end',), tag=None, schema=None, **kw):
        self._events = self._run(source, events, tag, schema)

    def _run(self, source, events, tag, schema):
        root, order, error = _build(_xmlkit.read_source(source))
        bad = None
        if schema is not None and root is not None:
            bad = schema.error(root)
        self.root = root
        for ev, el in order:
            if bad and el.sourceline >= bad[1]:
                raise XMLSyntaxError(bad[0], bad[1])
            if ev in events and _match(tag, el.tag):
                yield ev, el
        if error:
            raise _syntax(error)
        if bad:
            raise XMLSyntaxError(bad[0], bad[1])

    def __iter__(self):
        return self

    def next(self):
        return self._events.next()
