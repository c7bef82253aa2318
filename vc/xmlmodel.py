"""Model of lxml element trees for the verifier.

An element has a tag, a text, attributes (list of pairs in order of setting) and children; attributes and children may be
lists of symbolic length.  Serialising gives opaque bytes that remember the tree; parsing such bytes gives a copy of it
(an empty text reads back as None).  Names and texts are taken to be XML-compatible."""
from lxml import etree

from . import models as m
from .core import OBJ, Raised, Unsupported, ctx, z3
from .interp import Entries, GenExp
from .sym import Chunk, SBytes, SLazy, SOpaque, SStr, Sym, force, is_sym, mkbool

NOTE = 'lxml elements: model vc/xmlmodel.py (names and texts are XML-compatible, no text between children)'


def reg(f):
    return m.cl(f) if isinstance(f, type) else m.fn(f)


class MElem:
    _vc_model = True
    _vc_pytype = etree._Element
    __hash__ = object.__hash__

    def _vc_getattr(self, I, name):
        d = self.__dict__
        if name in ('tag', 'text', 'tail', 'nsmap', 'prefix'):
            return force(d[name])
        if name == 'attrib':
            return MAttrib(self)
        if name in METHODS:
            return m.SMethod(self, name, METHODS[name])
        if not hasattr(etree._Element, name):
            raise Raised(AttributeError(name))
        raise Unsupported(f'lxml: {name}')

    def _vc_setattr(self, I, name, value):
        if name == 'text':
            value = force(value)
            if not isinstance(value, (str, SStr, type(None))):
                if isinstance(value, (bytes, SBytes, SOpaque)):
                    raise Unsupported('lxml: text that is no str')
                raise Raised(TypeError('Argument must be bytes or unicode'))
        elif name == 'tag':
            value = force(value)
        elif name not in ('tail', 'nsmap', 'prefix'):
            raise Raised(AttributeError(name))
        I.raw_setattr(self, name, value)

    def _vc_iter(self, I):
        m.cut_noread(I, self.kids)
        return list(self.kids)

    def _vc_getitem(self, I, k):
        return m.getitem(I, self.kids, k)

    def _vc_truth(self, I):
        raise Unsupported('truth value of an element')

    def _vc_len(self, I):
        return m.length(I, self.kids)

    def _vc_same(self, I, sink, label, b):
        from .gen import deep_same
        b = force(b)
        if b is self:
            sink.emit(label, z3.BoolVal(True))
            return
        if not isinstance(b, MElem):
            sink.emit(label + ': an element', z3.BoolVal(False))
            return
        deep_same(I, sink, label + ': tag', self.tag, b.tag)
        ta, tb = force(self.text), force(b.text)
        deep_same(I, sink, label + ': text', '' if ta is None else ta, '' if tb is None else tb)
        x, y = list(self.sets), list(b.sets)
        if len(x) == len(y) and not any(isinstance(e, Chunk) for e in x + y):
            if all(isinstance(force(e[0]), str) for e in x + y):
                x, y = ([(k, dict((force(p[0]), p[1]) for p in l)[k]) for k in sorted({force(p[0]) for p in l})] for l in (x, y))
        deep_same(I, sink, label + ': attributes', x, y)
        deep_same(I, sink, label + ': children', list(self.kids), list(b.kids))

    def __repr__(self):
        return f'<MElem {self.tag!r}>'


class MAttrib:
    _vc_model = True

    def __init__(self, e):
        self.e = e

    def _vc_keys(self):
        ks = [force(p[0]) for p in self.e.sets if not isinstance(p, Chunk)]
        if len(ks) != len(self.e.sets) or any(is_sym(k) for k in ks):
            raise Unsupported('lxml: attributes of symbolic names')
        return {k: p[1] for k, p in zip(ks, self.e.sets)}

    def _vc_iter(self, I):
        m.cut_noread(I, self.e.sets)
        return list(self._vc_keys())

    def _vc_len(self, I):
        return len(self._vc_iter(I))

    def _vc_truth(self, I):
        return bool(self._vc_iter(I))

    def _vc_contains(self, I, k):
        return lookup(I, self.e, k, None) is not None

    def _vc_getitem(self, I, k):
        v = lookup(I, self.e, k, None)
        if v is None:
            raise Raised(KeyError('attribute'))
        return v

    def _vc_setitem(self, I, k, v):
        m.list_append(I, self.e.sets, (force(k), force(v)))

    def _vc_getattr(self, I, name):
        if name == 'get':
            return m.SMethod(self.e, 'get', METHODS['get'])
        if name in ('items', 'keys', 'values'):
            m.cut_noread(I, self.e.sets)
            d = self._vc_keys()
            r = d.items() if name == 'items' else d.keys() if name == 'keys' else d.values()
            return m.SMethod(self, name, lambda I, o, a, k: Entries(list(r)))
        raise Unsupported(f'lxml: attrib.{name}')


def new(tag, nsmap=None):
    e = object.__new__(MElem)
    c = ctx()
    if isinstance(tag, str) and tag.startswith('{}'):
        tag = tag[2:]
    e.tag, e.text, e.tail, e.nsmap, e.prefix = tag, None, None, dict(nsmap or {}), None
    e.sets, e.kids = c.register([]), c.register([])
    e.attached = False
    c.notes.add(NOTE)
    return c.register(e)


def lookup(I, e, k, default):
    k = force(k)
    m.cut_noread(I, e.sets)
    if any(isinstance(p, Chunk) for p in e.sets):
        raise Unsupported('lxml: reading an attribute among a symbolic number of attributes')
    for p in reversed(list(e.sets)):
        if I.truth(m.eq(I, p[0], k)):
            return force(p[1])
    return default


def text_value(v):
    v = force(v)
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, (bytes, SBytes, SOpaque)):
        raise Unsupported('lxml: value that is no str')
    raise Raised(TypeError('Argument must be bytes or unicode, got %r' % type(v).__name__))


def attach(I, e, kid):
    kid = force(kid)
    if isinstance(kid, MElem):
        if kid.attached:
            raise Unsupported('lxml: moving an element')
        I.raw_setattr(kid, 'attached', True)
    elif not isinstance(kid, SOpaque):
        raise Raised(TypeError('Argument has incorrect type'))
    return kid


def _append(I, e, a, k):
    m.list_append(I, e.kids, attach(I, e, a[0]))


def _set(I, e, a, k):
    m.list_append(I, e.sets, (text_value(a[0]), text_value(a[1])))


def _get(I, e, a, k):
    return lookup(I, e, a[0], a[1] if len(a) > 1 else k.get('default'))


def _extend(I, e, a, k):
    for x in m.iter_entries(I, a[0]):
        m.list_append(I, e.kids, x if isinstance(x, Chunk) else attach(I, e, x))


def _insert(I, e, a, k):
    m.list_method(I, e.kids, 'insert', [a[0], attach(I, e, a[1])], {}, None)


def _iterchildren(I, e, a, k):
    from . import spec
    tags = [force(x) for x in a]
    if not tags:
        return Entries(list(e._vc_iter(I)))
    if tags == ['*']:
        return Entries(list(I.call(spec.element_children, [Entries(list(e._vc_iter(I)))])))
    raise Unsupported('lxml: iterchildren of a tag')


def plain_tag(a):
    t = force(a)
    if not isinstance(t, str) or any(ch in t.rpartition('}')[2] for ch in '/[*.@') or t.startswith('{*}'):
        raise Unsupported('lxml: path')
    return t[2:] if t.startswith('{}') else t


def _find(I, e, a, k):
    from . import spec
    if len(a) != 1 or k:
        raise Unsupported('lxml: find with namespaces')
    return I.call(spec.first_child, [Entries(list(e._vc_iter(I))), plain_tag(a[0])])


def _findall(I, e, a, k):
    from . import spec
    if len(a) != 1 or k:
        raise Unsupported('lxml: findall with namespaces')
    return I.call(spec.children_of_tag, [Entries(list(e._vc_iter(I))), plain_tag(a[0])])


def _findtext(I, e, a, k):
    from . import spec
    return I.call(spec.text_of_child, [_find(I, e, a[:1], {}), a[1] if len(a) > 1 else k.get('default')])


METHODS = {'find': _find, 'findall': _findall, 'findtext': _findtext, 'append': _append, 'set': _set, 'get': _get, 'extend': _extend, 'insert': _insert,
           'iterchildren': _iterchildren, 'getchildren': lambda I, e, a, k: e._vc_iter(I),
           '__len__': lambda I, e, a, k: m.length(I, e.kids)}


@reg(etree.Element)
def _element(I, a, k):
    tag = force(a[0])
    if not isinstance(tag, (str, SStr)):
        raise Raised(TypeError('Argument must be bytes or unicode'))
    e = new(tag, force(k.get('nsmap')) if k.get('nsmap') is not None else None)
    for kk, v in k.items():
        if kk not in ('nsmap', 'attrib'):
            m.list_append(I, e.sets, (kk, text_value(v)))
    att = force(a[1]) if len(a) > 1 else force(k.get('attrib'))
    if att:
        for kk, v in att.items():
            m.list_append(I, e.sets, (kk, text_value(v)))
    return e


@reg(etree.SubElement)
def _subelement(I, a, k):
    p = force(a[0])
    e = _element(I, list(a[1:]), k)
    _append(I, p, [e], {})
    return e


@reg(etree.Comment)
def _comment(I, a, k):
    e = new(etree.Comment)
    e.text = a[0] if a else None
    return e


@reg(etree.ProcessingInstruction)
def _pi(I, a, k):
    e = new(etree.ProcessingInstruction)
    e.text = a[1] if len(a) > 1 else None
    return e


@reg(etree.tostring)
def _tostring(I, a, k):
    e = force(a[0])
    if not isinstance(e, MElem):
        if isinstance(e, SOpaque):
            return SBytes(z3.Function('tostring', OBJ, OBJ)(e.t))
        return I.native(etree.tostring, a, k)
    if k.get('encoding') is not None:
        raise Unsupported('lxml: tostring with an encoding')
    ctx().notes.add(NOTE)
    return SBytes(ctx().fresh('bytes', OBJ), tree=e)


def reparse(e):
    """The tree a parser builds from the serialisation of e."""
    if not isinstance(e, MElem):
        raise Unsupported('lxml: parsing an opaque element')
    r = new(e.tag, e.nsmap)
    t = force(e.text)
    if t is None or e.kids:
        r.text = None
    elif isinstance(t, str):
        r.text = t or None
    else:
        r.text = SLazy([(z3.Length(t.z3()) > 0, t), (None, None)], 'text')
    list.extend(r.sets, e.sets)
    for x in e.kids:
        if isinstance(x, Chunk):
            r.kids.append(Chunk(x.n, lambda j, x=x: [reparse(force(y)) if not isinstance(y, Chunk) else y for y in x.entries(j)],
                                x._guard, x.name, x.width))
        else:
            y = reparse(force(x))
            y.attached = True
            r.kids.append(y)
    return r


class MParser:
    """A parser that refuses documents which its schema does not find valid."""

    _vc_model = True
    _vc_pytype = etree.XMLParser

    def __init__(self, schema):
        self.schema = schema

    def _vc_getattr(self, I, name):
        raise Unsupported(f'lxml: parser.{name}')


@reg(etree.XMLParser)
def _parser(I, a, k):
    schema = force(k.get('schema'))
    if a or not k.keys() <= {'schema'} or isinstance(schema, etree.XMLSchema) and type(schema) is etree.XMLSchema:
        return I.native(etree.XMLParser, a, k)
    return MParser(schema)


@reg(etree.fromstring)
def _fromstring(I, a, k):
    x = force(a[0])
    parser = force(a[1] if len(a) > 1 else k.get('parser'))
    if isinstance(x, SBytes):
        if x.tree is None:
            raise Unsupported('lxml: parsing arbitrary bytes')
        if parser is not None and not isinstance(parser, MParser):
            raise Unsupported('lxml: parsing with a parser of one\'s own')
        r = reparse(x.tree)
        if parser is not None and parser.schema is not None and not I.truth(I.call(I.getattr(parser.schema, 'validate'), [reparse(x.tree)])):
            raise Raised(etree.XMLSyntaxError('invalid', 0, 0, 0))
        return r
    if isinstance(x, Sym):
        raise Unsupported('lxml: parsing a symbolic text')
    return I.native(etree.fromstring, a, k)


class MQName:
    _vc_model = True
    _vc_pytype = etree.QName

    def __init__(self, text):
        self.text = text

    def _vc_getattr(self, I, name):
        from . import spec
        if name == 'text':
            return self.text
        if name == 'localname':
            return I.call(spec.local_name, [self.text])
        if name == 'namespace':
            return I.call(spec.namespace_of, [self.text])
        raise Unsupported(f'lxml: QName.{name}')


@m.cl(etree.QName)
def _qname(I, a, k):
    t = force(a[0])
    if isinstance(t, MElem):
        t = force(t.tag)
    if len(a) > 1 or not isinstance(t, (str, SStr)):
        if any(is_sym(force(x)) or isinstance(force(x), MElem) for x in a):
            raise Unsupported('lxml: QName')
        return I.native(etree.QName, a, k)
    return MQName(t)
