"""C16 Generated XSD says what the model says."""
from lxml import etree

from soapfish import namespaces as ns
from soapfish import py2xsd, xsd, xsdspec
from vc.contract import contract

from . import shapes
from .lib import settled

settled(xsdspec)


TARGETS = ['soapfish.py2xsd.create_xsd_element', 'soapfish.py2xsd.xsd_complexType', 'soapfish.py2xsd.xsd_simpleType',
           'soapfish.py2xsd.xsd_attribute', 'soapfish.py2xsd.get_xsd_type', 'soapfish.py2xsd.set_string_facets',
           'soapfish.py2xsd.with_groups', 'soapfish.py2xsd.build_imports', 'soapfish.py2xsd.build_includes',
           'soapfish.py2xsd.generate_xsdspec', 'soapfish.py2xsd.generate_elements', 'soapfish.py2xsd.generate_xsd']
X = 'http://www.w3.org/2001/XMLSchema'
BUILTIN = [(xsd.String, 'string'), (xsd.Boolean, 'boolean'), (xsd.Date, 'date'), (xsd.DateTime, 'dateTime'), (xsd.Time, 'time'),
           (xsd.Decimal, 'decimal'), (xsd.Double, 'double'), (xsd.Float, 'float'), (xsd.Integer, 'integer'),
           (xsd.NonNegativeInteger, 'nonNegativeInteger'), (xsd.NonPositiveInteger, 'nonPositiveInteger'),
           (xsd.NegativeInteger, 'negativeInteger'), (xsd.PositiveInteger, 'positiveInteger'), (xsd.Long, 'long'),
           (xsd.Int, 'int'), (xsd.Short, 'short'), (xsd.Byte, 'byte'), (xsd.UnsignedLong, 'unsignedLong'),
           (xsd.UnsignedInt, 'unsignedInt'), (xsd.UnsignedShort, 'unsignedShort'), (xsd.UnsignedByte, 'unsignedByte'),
           (xsd.AnyURI, 'anyURI'), (xsd.QName, 'QName'), (xsd.NMTOKEN, 'NMTOKEN'), (xsd.NMTOKENS, 'NMTOKENS'),
           (xsd.Base64Binary, 'base64Binary'), (xsd.Duration, 'duration'), (xsd.AnyType, 'anyType')]
FACETS = ['minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'fractionDigits', 'totalDigits', 'length', 'minLength',
          'maxLength', 'whiteSpace', 'pattern']


class Code(xsd.String):
    enumeration = ['A', 'B']


class Item(xsd.ComplexType):
    code = xsd.Element(Code)


def held(restriction):
    """The facets a restriction declares, by name."""
    return {f: getattr(restriction, f).value for f in FACETS if getattr(restriction, f) is not None}


def field(cls, name, *args, **kw):
    f = cls(*args, **kw)
    f._name = name
    f._evaluate_type()
    return f


@contract('C16', TARGETS, runs=200)
def type_references(g):
    """A type class is referred to by its XSD name, one of the user's by its own name in the schema's namespace."""
    t, name = g.pick('type', BUILTIN + [(Code, None), (Item, None)])
    prefix = 'sns:' if name is None else 'xsd:'
    name = t.__name__[0].lower() + t.__name__[1:] if name is None else name
    e = py2xsd.create_xsd_element(field(xsd.Element, 'f', t))
    g.check('type', e.type == prefix + name)
    g.check('by reference', e.simpleType is None and e.complexType is None)
    a = py2xsd.xsd_attribute(field(xsd.Attribute, 'f', t))
    g.check('attribute type', a.type == prefix + name)


@contract('C16', TARGETS, runs=400)
def occurrence(g):
    """Elements keep their XML name, limits and nillability; lists theirs."""
    name, tag = g.str('name', nonempty=True), g.opt('tag', lambda: g.str('tag text', nonempty=True))
    nillable = g.bool('nillable')
    if g.bool('list'):
        tag = 'item' if tag is None else tag
        lo, hi = g.opt('min', lambda: g.int('minOccurs', 0)), g.pick('max', [None, xsd.UNBOUNDED, lambda: g.int('maxOccurs', 0)])
        e = py2xsd.create_xsd_element(field(xsd.ListElement, name, xsd.Int, tag, minOccurs=lo, maxOccurs=hi, nillable=nillable))
        g.check('minOccurs', e.minOccurs == (0 if lo is None else lo))
        g.check('maxOccurs', e.maxOccurs == (xsd.UNBOUNDED if hi is None else hi))
    else:
        lo = g.pick('minOccurs', [0, 1])
        e = py2xsd.create_xsd_element(field(xsd.Element, name, xsd.Int, lo, tag, nillable))
        g.check('minOccurs', e.minOccurs == lo)
        g.check('maxOccurs', e.maxOccurs is None or e.maxOccurs == 1)
    g.check('name', e.name == (name if tag is None else tag))
    g.check('nillable', e.nillable == nillable)


@contract('C16', TARGETS, runs=300)
def attributes(g):
    """Attributes keep their XML name and use."""
    name, tag = g.str('name', nonempty=True), g.opt('tag', lambda: g.str('tag text', nonempty=True))
    use = g.pick('use', [xsd.Use.REQUIRED, xsd.Use.OPTIONAL, xsd.Use.PROHIBITED])
    a = py2xsd.xsd_attribute(field(xsd.Attribute, name, xsd.Int, use, tag))
    g.check('name', a.name == (name if tag is None else tag))
    g.check('use', a.use == use)
    g.check('type', a.type == 'xsd:int')




@contract('C16', TARGETS, runs=600)
def numeric_facets(g):
    """All facets of a number, zero ones too, and no others."""
    given = {}
    for f in ['minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive']:
        v = g.opt(f, lambda: g.int(f + ' value'))
        if v is not None:
            given[f] = v
    for f in ['fractionDigits', 'totalDigits']:
        v = g.opt(f, lambda: g.int(f + ' value', 0))
        if v is not None:
            given[f] = v
    e = py2xsd.create_xsd_element(field(xsd.Element, 'f', xsd.Decimal(**given)))
    r = e.simpleType.restriction
    g.check('in place', e.type is None and e.complexType is None)
    g.check('base', r.base == 'xsd:decimal' and not r.enumerations)
    g.check('facets', held(r) == {f: str(v) for f, v in given.items()})


@contract('C16', TARGETS, runs=600)
def named_numeric_facets(g):
    """The same, for a named type that declares them in its constructor or its body."""
    given = {}
    for f in ['minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive']:
        v = g.opt(f, lambda: g.int(f + ' value'))
        if v is not None:
            given[f] = v
    for f in ['fractionDigits', 'totalDigits']:
        v = g.opt(f, lambda: g.int(f + ' value', 0))
        if v is not None:
            given[f] = v
    body = g.bool('in the body')

    class Amount(xsd.Decimal):
        def __init__(self):
            super().__init__(**({} if body else given))
    if body:
        for f, v in given.items():
            setattr(Amount, f, v)
    s = py2xsd.xsd_simpleType(Amount)
    g.check('name', s.name == 'amount')
    g.check('base', s.restriction.base == 'xsd:decimal' and not s.restriction.enumerations)
    g.check('facets', held(s.restriction) == {f: str(v) for f, v in given.items()})


@contract('C16', TARGETS, runs=600)
def bound_texts(g):
    """Bounds are written as XSD writes numbers, whatever their Python type."""
    f = g.pick('facet', ['minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive'])
    v, plain, _, _ = g.number('value')
    make = g.pick('type', [xsd.Decimal, xsd.Double, xsd.Float])
    if g.bool('named'):
        class Amount(make):
            def __init__(self):
                super().__init__(**{f: v})
        r = py2xsd.xsd_simpleType(Amount).restriction
    else:
        r = py2xsd.create_xsd_element(field(xsd.Element, 'f', make(**{f: v}))).simpleType.restriction
    g.check('text', held(r) == {f: plain})


@contract('C16', TARGETS, runs=600)
def string_facets(g):
    """All facets of a text, zero lengths too, and no others."""
    given = {}
    for f in ['length', 'minLength', 'maxLength']:
        v = g.opt(f, lambda: g.int(f + ' value', 0))
        if v is not None:
            given[f] = v
    v = g.opt('pattern', lambda: g.str('pattern text', nonempty=True))
    if v is not None:
        given['pattern'] = v
    v = g.pick('whiteSpace', [None, 'preserve', 'replace', 'collapse'])
    if v is not None:
        given['whiteSpace'] = v
    make, name = g.pick('type', [(xsd.String, 'xsd:string'), (xsd.AnyURI, 'xsd:anyURI'), (Code, 'sns:code')])
    e = py2xsd.create_xsd_element(field(xsd.Element, 'f', make(**given)))
    r = e.simpleType.restriction
    g.check('in place', e.type is None and e.complexType is None)
    g.check('base', r.base == name)
    g.check('facets', held(r) == {f: str(v) for f, v in given.items()})


@contract('C16', TARGETS, runs=600)
def named_string_facets(g):
    """The same, for a named type that declares them in its body or its constructor."""
    given = {}
    for f in ['length', 'minLength', 'maxLength']:
        v = g.opt(f, lambda: g.int(f + ' value', 0))
        if v is not None:
            given[f] = v
    v = g.opt('pattern', lambda: g.str('pattern text', nonempty=True))
    if v is not None:
        given['pattern'] = v
    v = g.pick('whiteSpace', [None, 'preserve', 'replace', 'collapse'])
    if v is not None:
        given['whiteSpace'] = v
    body = g.bool('in the body')

    class Label(xsd.String):
        def __init__(self):
            super().__init__(**({} if body else given))
    if body:
        for f, v in given.items():
            setattr(Label, f, v)
    s = py2xsd.xsd_simpleType(Label)
    g.check('name', s.name == 'label')
    g.check('base', s.restriction.base == 'xsd:string' and not s.restriction.enumerations)
    g.check('facets', held(s.restriction) == {f: str(v) for f, v in given.items()})


@contract('C16', TARGETS, runs=300)
def enumerations(g):
    """Every value of an enumeration, in order."""
    if g.bool('text'):
        values, make = g.list('values', lambda e: e.str('value')), xsd.String
    else:
        values, make = g.list('values', lambda e: e.int('value')), xsd.Integer
    if g.bool('named'):
        class Kind(make):
            def __init__(self):
                super().__init__(enumeration=values)
        r = py2xsd.xsd_simpleType(Kind).restriction
    else:
        r = py2xsd.create_xsd_element(field(xsd.Element, 'f', make(enumeration=values))).simpleType.restriction
    g.check('as many', len(r.enumerations) == len(values))
    g.check('values', all([r.enumerations[k].value == str(values[k]) for k in range(len(values))]))


@contract('C16', TARGETS, runs=400)
def integer_facets(g):
    """Types of integers with facets of their own: exactly what their instances check."""
    make, name = g.pick('type', [(t, n) for t, n in BUILTIN if issubclass(t, xsd.Integer)])
    lo, hi = g.opt('minInclusive', lambda: g.int('lo')), g.opt('maxInclusive', lambda: g.int('hi'))
    t = make(minInclusive=lo, maxInclusive=hi)
    r = py2xsd.create_xsd_element(field(xsd.Element, 'f', t)).simpleType.restriction
    g.check('base', r.base == 'xsd:' + name)
    want = {'minInclusive': t.minInclusive, 'maxInclusive': t.maxInclusive, 'fractionDigits': 0, 'pattern': t.pattern}
    g.check('facets', held(r) == {f: str(v) for f, v in want.items() if v is not None})


def element_member(e):
    """An element of a model, in the order of the list it is in."""
    if e.bool('list'):
        f = xsd.ListElement(xsd.String, e.str('tag', nonempty=True), minOccurs=e.int('min', 0), maxOccurs=e.int('max', 0),
                            nillable=e.bool('nillable'))
    else:
        f = xsd.Element(xsd.String, 1, e.pick('tag', [None, lambda: e.str('tag', nonempty=True)]), e.bool('nillable'))
        f._minOccurs = e.int('min', 0, 1)
    return placed(e, f)


def attribute_member(e):
    return placed(e, xsd.Attribute(xsd.String, e.pick('use', [xsd.Use.REQUIRED, xsd.Use.OPTIONAL]),
                                   e.pick('tag', [None, lambda: e.str('tag', nonempty=True)])))


def placed(e, f):
    f._name = e.str('name', nonempty=True)
    f._creation_number = e.index()
    if e.symbolic or e.bool('used before'):
        f._evaluate_type()
    return f


@contract('C16', TARGETS, runs=300, seconds=120)
def elements_of_a_type(g):
    """However many elements: all of them, each once, in order, in the declared kind of group."""
    kind = g.pick('kind', [xsd.Sequence, xsd.Choice, xsd.All])

    class Order(xsd.ComplexType):
        INDICATOR = kind
    Order._meta.fields = fields = g.list('fields', element_member)
    c = py2xsd.xsd_complexType(Order)
    g.check('name', c.name == 'order')
    g.check('group', [k for k in ('sequence', 'choice', 'all') if getattr(c, k) is not None] == [kind.__name__.lower()])
    g.check('no attributes', not c.attributes)
    es = getattr(c, kind.__name__.lower()).elements
    g.check('as many', len(es) == len(fields))
    g.check('names', all([es[k].name == (fields[k].tagname or fields[k]._name) for k in range(len(fields))]))
    g.check('minOccurs', all([es[k].minOccurs == fields[k]._minOccurs for k in range(len(fields))]))
    g.check('maxOccurs', all([es[k].maxOccurs == (fields[k]._maxOccurs if isinstance(fields[k], xsd.ListElement) else None)
                              for k in range(len(fields))]))
    g.check('nillable', all([es[k].nillable == fields[k].nillable for k in range(len(fields))]))
    g.check('types', all([es[k].type == 'xsd:string' for k in range(len(fields))]))


@contract('C16', TARGETS, runs=300, seconds=120)
def attributes_of_a_type(g):
    """However many attributes: all of them, each once, in order."""
    class Order(xsd.ComplexType):
        pass
    Order._meta.attributes = attrs = g.list('attributes', attribute_member)
    c = py2xsd.xsd_complexType(Order, named=False)
    g.check('no name', c.name is None)
    g.check('no elements', not c.sequence.elements)
    g.check('as many', len(c.attributes) == len(attrs))
    g.check('names', all([c.attributes[k].name == (attrs[k].tagname or attrs[k]._name) for k in range(len(attrs))]))
    g.check('uses', all([c.attributes[k].use == attrs[k].use for k in range(len(attrs))]))
    g.check('types', all([c.attributes[k].type == 'xsd:string' for k in range(len(attrs))]))


@contract('C16', TARGETS, runs=300, seconds=120)
def members_of_groups(g):
    """A group a type refers to contributes all its elements and attributes, in its place."""
    class Common(xsd.Group):
        pass

    class Order(xsd.ComplexType):
        pass
    ref = field(xsd.Ref, 'common', Common)
    Order._meta.fields = fields = g.list('fields', element_member)
    Order._meta.groups = [ref]
    Common._meta.fields = inner = g.list('inner', element_member)
    Common._meta.attributes = attrs = g.list('attributes', attribute_member)
    ref._creation_number = len(fields)
    c = py2xsd.xsd_complexType(Order)
    es = c.sequence.elements
    n = len(fields)
    g.check('as many', len(es) == n + len(inner))
    g.check('own elements first', all([es[k].name == (fields[k].tagname or fields[k]._name) for k in range(n)]))
    g.check('then those of the group', all([es[n + k].name == (inner[k].tagname or inner[k]._name) for k in range(len(inner))]))
    g.check('attributes of the group', len(c.attributes) == len(attrs)
            and all([c.attributes[k].name == (attrs[k].tagname or attrs[k]._name) for k in range(len(attrs))]))


class Bare:
    """Anything with attributes."""


class Space(Bare):
    """A schema of which only its namespace is known."""

    def __init__(self):
        self.targetNamespace, self.imports = 'urn:any', []


class Pairs:
    """A dictionary of which only its pairs are known."""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs


def schema_element(e, types, heads=None):
    x = xsd.Element(e.pick('type', types), nillable=e.bool('nillable'), substitutionGroup=e.pick('head', heads) if heads else None)
    x._evaluate_type()
    return e.str('name', nonempty=True), x


def other_schema(e):
    s = Bare()
    s.targetNamespace, s.location = e.str('namespace'), e.pick('location', [None, lambda: e.str('location text', nonempty=True)])
    return s


def named_type(e):
    t = Bare()
    t.name = e.str('name', nonempty=True)
    return t


@contract('C16', TARGETS, runs=300, seconds=120)
def schemas(g):
    """Imports, includes and types of a schema, each once and in order, whatever their number."""
    def simple(st, *args, **kw):
        r = xsdspec.SimpleType()
        r.name = st.name
        return r

    def complex(ct, *args, **kw):
        r = xsdspec.XSDComplexType()
        r.name = ct.name
        return r
    g.override(py2xsd.xsd_simpleType, simple)
    g.override(py2xsd.xsd_complexType, complex)
    s = Bare()
    s.targetNamespace = g.str('namespace')
    s.elementFormDefault = g.pick('form', ['qualified', 'unqualified'])
    s.imports, s.includes = g.list('imports', other_schema), g.list('includes', other_schema)
    s.simpleTypes, s.complexTypes = g.list('simple', named_type), g.list('complex', named_type)
    s.elements = Pairs([])
    x = py2xsd.generate_xsdspec(s)
    g.check('namespace', x.targetNamespace == s.targetNamespace and x.elementFormDefault == s.elementFormDefault)
    g.check('imports', len(x.imports) == len(s.imports) and all([
        x.imports[k].namespace == s.imports[k].targetNamespace and x.imports[k].schemaLocation == s.imports[k].location
        for k in range(len(s.imports))]))
    g.check('includes', len(x.includes) == len(s.includes) and all([
        x.includes[k].schemaLocation == s.includes[k].location for k in range(len(s.includes))]))
    g.check('simple types', len(x.simpleTypes) == len(s.simpleTypes) and all([
        x.simpleTypes[k].name == s.simpleTypes[k].name for k in range(len(s.simpleTypes))]))
    g.check('complex types', len(x.complexTypes) == len(s.complexTypes) and all([
        x.complexTypes[k].name == s.complexTypes[k].name for k in range(len(s.complexTypes))]))


@contract('C16', TARGETS, runs=300, seconds=120)
def schema_elements(g):
    """The elements of a schema, each once and in order, with their types and substitution groups."""
    s = Space()
    pairs = g.list('elements', lambda e: schema_element(e, [Item, Code, 'specs.c16_xsd.Item'], [
        None, lambda: e.str('head name', nonempty=True), lambda: 'sns:' + e.str('head name', nonempty=True)]))
    s.elements = Pairs(pairs)
    x = xsdspec.Schema()
    py2xsd.generate_elements(x, s)
    n = len(pairs)
    es = x.elements
    g.check('as many', len(es) == n)
    g.check('names', all([es[k].name == pairs[k][0] for k in range(n)]))
    g.check('nillable', all([bool(es[k].nillable) == pairs[k][1].nillable for k in range(n)]))
    g.check('heads', all([es[k].substitutionGroup == group_of(pairs[k][1]) for k in range(n)]))
    g.check('types', all([es[k].type == ('sns:code' if isinstance(pairs[k][1]._type, Code) else 'sns:item') for k in range(n)]))
    g.check('by reference', all([es[k].simpleType is None and es[k].complexType is None for k in range(n)]))


@contract('C16', TARGETS, runs=300, seconds=120)
def local_types(g):
    """An element declared with an instance has a type of its own."""
    s = Space()
    Item._force_elements_type_evalution()
    kind = g.pick('kind', [Item, Code])
    pairs = g.list('elements', lambda e: schema_element(e, [lambda: kind()]))
    s.elements = Pairs(pairs)
    x = xsdspec.Schema()
    py2xsd.generate_elements(x, s)
    n = len(pairs)
    es = x.elements
    g.check('as many', len(es) == n)
    g.check('names', all([es[k].name == pairs[k][0] for k in range(n)]))
    g.check('nillable', all([bool(es[k].nillable) == pairs[k][1].nillable for k in range(n)]))
    g.check('no reference', all([es[k].type is None and es[k].substitutionGroup is None for k in range(n)]))
    if kind is Item:
        g.check('no simple type', all([es[k].simpleType is None for k in range(n)]))
        g.check('complex type', all([[y.name for y in es[k].complexType.sequence.elements] == ['code'] for k in range(n)]))
    else:
        g.check('no complex type', all([es[k].complexType is None for k in range(n)]))
        g.check('simple type', all([es[k].simpleType.restriction.base == 'sns:code' for k in range(n)]))


def group_of(f):
    s = f.substitutionGroup
    return s if s is None or s.startswith('sns:') else 'sns:' + s


@contract('C16', TARGETS, runs=100)
def local_complex_type(g):
    """An element of a type declared with an instance of a complex type has a complex type of its own."""
    e = py2xsd.create_xsd_element(field(xsd.Element, g.str('name', nonempty=True), Item()))
    g.check('type', e.type is None and e.simpleType is None and e.complexType.name is None)
    g.check('element', [(x.name, x.type) for x in e.complexType.sequence.elements] == [('code', 'sns:code')])


# ------------------------------------------------------------------------------------------------ whole documents
TNS = 'urn:c16'
SKIP = {'class', 'import'}


def classes(s, found):
    """The classes that are declared by reference, in the order found."""
    for f in s.fields:
        if f.kind in ('nested', 'nested list', 'group'):
            classes(f.type, found)
            if f.kind != 'group' and f.field._passed_type is f.type.cls:
                found.append(f.type)
    return found


def facets_of(t):
    return {f: str(getattr(t, f)) for f in FACETS if getattr(t, f, None) is not None}


def want_type(f):
    """Reference or content of the type of a field."""
    p = f.field._passed_type
    if f.kind in ('nested', 'nested list'):
        name = f.type.cls.__name__
        return ('ref', TNS, name[0].lower() + name[1:]) if p is f.type.cls else ('complex', want_complex(f.type))
    t = p if isinstance(p, type) else type(p)
    name = dict((a, b) for a, b in BUILTIN)[t]
    if isinstance(p, type):
        return ('ref', X, name)
    return ('restriction', X, name, [p.xmlvalue(v) for v in p.enumeration or []], facets_of(p))


def want_complex(s, kind='sequence'):
    elements, attributes = [], []

    def add(s):
        for f in s.fields:
            if f.kind == 'group':
                add(f.type)
            elif f.kind == 'attribute':
                t = f.field._passed_type
                t = t if isinstance(t, type) else type(t)
                attributes.append((f.xml, ('required' if f.use == xsd.Use.REQUIRED else 'optional'), X, dict(BUILTIN)[t]))
            elif f.kind in ('list', 'nested list'):
                hi = 'unbounded' if f.max is None or f.max == xsd.UNBOUNDED else str(f.max)
                elements.append((f.xml, str(f.min or 0), hi, f.nillable, want_type(f)))
            else:
                elements.append((f.xml, str(f.min), '1', f.nillable, want_type(f)))
    add(s)
    return kind, elements, attributes


def q(e, text):
    prefix, name = text.split(':')
    return e.nsmap[prefix], name


def got_simple(e):
    r = e.find('{%s}restriction' % X)
    enum = [c.get('value') for c in r if c.tag == '{%s}enumeration' % X]
    others = [(etree.QName(c).localname, c.get('value')) for c in r if c.tag != '{%s}enumeration' % X]
    assert len(dict(others)) == len(others)
    return ('restriction', *q(r, r.get('base')), enum, dict(others))


def got_type(e):
    if e.get('type') is not None:
        assert not len(e)
        return ('ref', *q(e, e.get('type')))
    assert len(e) == 1
    return got_simple(e[0]) if etree.QName(e[0]).localname == 'simpleType' else ('complex', got_complex(e[0]))


def got_complex(e):
    boxes = [c for c in e if c.tag != '{%s}attribute' % X]
    assert len(boxes) == 1 and all(c.tag == '{%s}element' % X for c in boxes[0])
    return (etree.QName(boxes[0]).localname,
            [(c.get('name'), c.get('minOccurs', '1'), c.get('maxOccurs', '1'), c.get('nillable') == 'true', got_type(c)) for c in boxes[0]],
            [(c.get('name'), c.get('use', 'optional'), *q(c, c.get('type'))) for c in e if c.tag == '{%s}attribute' % X])


def document_schema(g, s, **kw):
    form = g.pick('form', [xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED])
    found = classes(s, [s])
    by_ref = g.bool('by reference')
    order = [t.cls for t in found] if by_ref else [t.cls for t in found if t is not s]
    if g.bool('reversed'):
        order.reverse()
    schema = xsd.Schema(TNS, elementFormDefault=form, complexTypes=order,
                        elements={'root': xsd.Element(s.cls if by_ref else s.cls(), nillable=g.bool('root nillable'))}, **kw)
    return schema, found, form


def nil_ok(s, v):
    """An element that is nil has no attributes, so none of its attributes may be required."""
    for f in s.fields:
        x = v[f.py]
        if f.kind in ('nested', 'nested list', 'group'):
            for y in x if isinstance(x, list) else [x]:
                if y is xsd.NIL and requires(f.type) or isinstance(y, dict) and not nil_ok(f.type, y):
                    return False
    return True


def requires(s):
    return any(f.use == xsd.Use.REQUIRED or f.kind == 'group' and requires(f.type) for f in s.fields)


def rendered(schema):
    """The document as others read it."""
    return etree.fromstring(etree.tostring(py2xsd.generate_xsd(schema)))


@contract('C16', TARGETS, proof=False, runs=1500)
def documents(g):
    """Whole schemas of generated models say exactly what the models declare, and rendered objects validate."""
    s = shapes.shape(g, 'S', 2, ns_choices=(None,))
    schema, found, form = document_schema(g, s)
    x = rendered(schema)
    g.check('namespace', x.get('targetNamespace') == TNS and x.get('elementFormDefault', 'unqualified') == form.value)
    types = [c for c in x if c.tag == '{%s}complexType' % X]
    want = {}
    for t in found:
        if t.cls in schema.complexTypes:
            n = t.cls.__name__
            want[n[0].lower() + n[1:]] = want_complex(t)
    g.check('complex types', [c.get('name') for c in types] == [c.__name__[0].lower() + c.__name__[1:] for c in schema.complexTypes])
    got = {c.get('name'): got_complex(c) for c in types}
    g.check('their content', got == want, repr((got, want)))
    root = [c for c in x if c.tag == '{%s}element' % X]
    g.check('element', len(root) == 1 and root[0].get('name') == 'root')
    name = s.cls.__name__
    w = ('ref', TNS, name[0].lower() + name[1:]) if s.cls in schema.complexTypes else ('complex', want_complex(s))
    g.check('its type', got_type(root[0]) == w)
    g.check('its nillability', (root[0].get('nillable') == 'true') == schema.elements['root'].nillable)
    validator = etree.XMLSchema(x)
    v = shapes.value(g, s, 'v', complete=True)
    g.assume(nil_ok(s, v))
    o = shapes.build(g, s, v, 'o')
    doc = etree.fromstring(o.xml('root', namespace=TNS, elementFormDefault=form))
    ok = validator.validate(doc)
    g.check('documents validate', ok, str(validator.error_log))


@contract('C16', TARGETS, proof=False, runs=600)
def other_groups(g):
    """Choices and all-groups: the declared kind; documents with one of a choice, or all in some order, validate."""
    kind = g.pick('kind', [xsd.Choice, xsd.All])
    s = shapes.shape(g, 'S', 1, ns_choices=(None,), indicator=kind, kinds=['element', 'nested', 'attribute'], defaults=False, refs=False)
    schema, found, form = document_schema(g, s)
    x = rendered(schema)
    name = s.cls.__name__
    t = x.find('{%s}complexType[@name="%s"]' % (X, name[0].lower() + name[1:]))
    t = x.find('{%s}element/{%s}complexType' % (X, X)) if t is None else t
    g.check('content', got_complex(t) == want_complex(s, kind.__name__.lower()))
    validator = etree.XMLSchema(x)
    v = shapes.value(g, s, 'v', complete=True)
    fields = [f for f in s.fields if f.kind != 'attribute']
    g.assume(nil_ok(s, v))
    if kind is xsd.Choice:
        g.assume(fields)
        keep = g.pick('chosen', fields)
        for f in fields:
            if f is not keep:
                v[f.py] = None
        g.assume(v[keep.py] is not None)
    o = shapes.build(g, s, v, 'o')
    doc = etree.fromstring(o.xml('root', namespace=TNS, elementFormDefault=form))
    g.check('documents validate', validator.validate(doc), str(validator.error_log))


def simple_class(g, at):
    """A named simple type: (class, base, enumeration, facets, texts that are valid, texts that are not)."""
    how = g.pick(at + ' kind', ['text', 'number', 'integer', 'derived'])
    if how == 'text':
        lo, hi = g.int(at + ' lo', 0, 2), g.int(at + ' hi', 2, 4)
        cls = type(at, (xsd.String,), {'minLength': lo, 'maxLength': hi})
        return cls, (X, 'string'), [], {'minLength': str(lo), 'maxLength': str(hi)}, ['a' * lo, 'a' * hi], ['a' * (hi + 1)] + ['a' * (lo - 1)] * (lo > 0)
    if how == 'number':
        lo = g.pick(at + ' lo', [0, -1.5, 1e-7])
        cls = type(at, (xsd.Decimal,), {'__init__': lambda self: xsd.Decimal.__init__(self, minInclusive=lo)})
        return cls, (X, 'decimal'), [], {'minInclusive': {0: '0', -1.5: '-1.5', 1e-7: '0.0000001'}[lo]}, ['1', '0.5'], ['-2', 'x']
    if how == 'integer':
        base, name = g.pick(at + ' base', [(xsd.Int, 'int'), (xsd.PositiveInteger, 'positiveInteger')])
        cls = type(at, (base,), {'overrides': {'maxInclusive': 100}})
        t = cls()
        return cls, (X, name), [], facets_of(t), ['1', '100'], ['101', '1.0']
    values = g.pick(at + ' values', [['A', 'B'], ['x y'], ['<&>']])
    cls = type(at, (xsd.String,), {'enumeration': values, 'whiteSpace': 'preserve'})
    return cls, (X, 'string'), values, {'whiteSpace': 'preserve'}, values, ['C', '']


@contract('C16', TARGETS, proof=False, runs=400)
def simple_types(g):
    """Named simple types: declared with all facets, referred to by name, and enforced by the schema."""
    kinds = [simple_class(g, f'Kind{k}') for k in range(g.int('kinds', 1, 4))]
    body = {f'f{k}': xsd.Element(c[0]) for k, c in enumerate(kinds)}
    Holder = type(xsd.ComplexType)('Holder', (xsd.ComplexType,), body)
    elements = {'holder': xsd.Element(Holder)}
    elements.update((f'e{k}', xsd.Element(c[0], nillable=g.bool(f'nillable {k}'))) for k, c in enumerate(kinds))
    x = rendered(xsd.Schema(TNS, complexTypes=[Holder], simpleTypes=[c[0] for c in kinds], elements=elements))
    types = [c for c in x if c.tag == '{%s}simpleType' % X]
    g.check('in order', [c.get('name') for c in types] == ['kind%d' % k for k in range(len(kinds))])
    for e, (cls, base, enum, facets, good, bad) in zip(types, kinds):
        g.check('facets', got_simple(e) == ('restriction', *base, enum, facets), repr(got_simple(e)))
    got = got_complex(x.find('{%s}complexType' % X))
    g.check('fields', [f[4] for f in got[1]] == [('ref', TNS, 'kind%d' % k) for k in range(len(kinds))])
    validator = etree.XMLSchema(x)
    for k, (cls, base, enum, facets, good, bad) in enumerate(kinds):
        e = x.find('{%s}element[@name="e%d"]' % (X, k))
        g.check('element', got_type(e) == ('ref', TNS, 'kind%d' % k) and (e.get('nillable') == 'true') == elements['e%d' % k].nillable)
        for texts, ok in ((good, True), (bad, False)):
            for text in texts:
                d = etree.Element('{%s}e%d' % (TNS, k))
                d.text = text
                g.check('enforced', validator.validate(d) == ok, repr((text, ok, facets)))


@contract('C16', TARGETS, proof=False, runs=300)
def locations(g):
    """Imports and includes are declared with namespace and location."""
    imports = [xsd.Schema(f'urn:i{k}', location=g.pick(f'i{k}', [None, 'http://x/a.xsd', 'a b.xsd', 'x&y'])) for k in range(g.int('imports', 0, 3))]
    includes = [xsd.Schema(TNS, location=g.pick(f'n{k}', ['http://x/a.xsd', 'a b.xsd', 'x&y'])) for k in range(g.int('includes', 0, 3))]
    x = rendered(xsd.Schema(TNS, imports=imports, includes=includes))
    g.check('imports', [(c.get('namespace'), c.get('schemaLocation')) for c in x if c.tag == '{%s}import' % X]
            == [(s.targetNamespace, s.location) for s in imports])
    g.check('includes', [c.get('schemaLocation') for c in x if c.tag == '{%s}include' % X] == [s.location for s in includes])
    g.check('nothing else', len(x) == len(imports) + len(includes))


def world(g):
    """Schemas, each of which imports some of those before it and uses their types; what they declare."""
    schemas, owners = [], []
    for k in range(g.int('schemas', 1, 4)):
        space = f'urn:s{k}'
        seen = [s for s in schemas if g.bool(f'{k} imports {s.targetNamespace}')]
        usable = [(c, s) for c, s in owners if s in seen]
        fields = {}
        uses = []
        for i in range(g.int(f'{k} fields', 0, 3)):
            how = g.pick(f'{k} {i} how', ['element', 'list', 'attribute'])
            c, s = g.pick(f'{k} {i} type', usable) if usable and g.bool(f'{k} {i} foreign') else (xsd.Int, None)
            if how == 'attribute' and issubclass(c, xsd.ComplexType):
                how = 'element'
            fields[f'f{i}'] = {'element': lambda: xsd.Element(c), 'list': lambda: xsd.ListElement(c, f'f{i}'),
                               'attribute': lambda: xsd.Attribute(c)}[how]()
            name = c.__name__[0].lower() + c.__name__[1:]
            uses.append((f'f{i}', how, (X if s is None else s.targetNamespace, name)))
        Own = type(xsd.ComplexType)(f'Own{k}', (xsd.ComplexType,), fields)
        Text = type(f'Text{k}', (xsd.String,), {'maxLength': 5})
        elements = {f'own{k}': xsd.Element(Own), f'text{k}': xsd.Element(Text)}
        tops = [(f'own{k}', (space, f'own{k}')), (f'text{k}', (space, f'text{k}'))]
        if usable and g.bool(f'{k} foreign element'):
            c, s = g.pick(f'{k} foreign type', usable)
            elements[f'far{k}'] = xsd.Element(c)
            tops.append((f'far{k}', (s.targetNamespace, c.__name__[0].lower() + c.__name__[1:])))
        schema = xsd.Schema(space, imports=seen, simpleTypes=[Text], complexTypes=[Own], elements=elements)
        schema.expected = (uses, tops)
        schemas.append(schema)
        owners += [(Own, schema), (Text, schema)]
    return schemas


def references(g, schema, x):
    """The types a schema document refers to are those the schema uses."""
    uses, tops = schema.expected
    got = []
    for c in x.find('{%s}complexType' % X).iter('{%s}element' % X, '{%s}attribute' % X):
        how = 'attribute' if c.tag.endswith('attribute') else 'list' if c.get('maxOccurs', '1') != '1' else 'element'
        got.append((c.get('name'), how, q(c, c.get('type'))))
    g.check('types used', sorted(got) == sorted(uses), repr((got, uses)))
    g.check('elements', [(c.get('name'), q(c, c.get('type'))) for c in x if c.tag == '{%s}element' % X] == tops)


@contract('C16', TARGETS, proof=False, runs=500)
def imported_types(g):
    """References to types of imported schemas name the namespace of that schema."""
    for s in world(g):
        references(g, s, rendered(s))
