"""C08 Rendering writes exactly the object, no more and no less."""
from lxml import etree

from soapfish import namespaces as ns
from soapfish import xsd
from vc.contract import contract

from . import shapes
from .lib import Writer, attempt, model

TARGETS = ['soapfish.xsd.Element.render', 'soapfish.xsd.Attribute.render', 'soapfish.xsd.Ref.render',
           'soapfish.xsd.ListElement.render', 'soapfish.xsd.ClassNamedElement.render', 'soapfish.xsd.ComplexType.render',
           'soapfish.xsd.ComplexType.xml', 'soapfish.xsd.SimpleType.render', 'soapfish.xsd.Document.render']
NIL_ATTR = f'{{{ns.xsi}}}nil'
INDICATORS = [xsd.Sequence, xsd.All, xsd.Choice]
FORMS = [None, xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED]


def context(g):
    return g.pick('namespace', [None, lambda: g.uri('outer')]), g.pick('form', FORMS)


def qname(space, form, name):
    return '{' + space + '}' + name if space is not None and form == 'qualified' else name


def any_parent():
    e = etree.Element('parent')
    e.set('earlier', 'yes')
    etree.SubElement(e, 'earlier')
    return e


def write(f, parent, tag, v, namespace, form):
    """What an element field must add to its parent."""
    if v is None:
        return
    space = namespace if f.namespace is None else f.namespace
    e = etree.SubElement(parent, qname(space, form, tag))
    if v is xsd.NIL:
        e.set(NIL_ATTR, 'true')
    else:
        f._passed_type.render(e, v, space, form)


@contract('C08', TARGETS, runs=300)
def element(g):
    f = xsd.Element(Writer(g), namespace=g.pick('own namespace', [None, lambda: g.uri('own'), '']), nillable=g.bool('nillable'),
                    default=g.pick('default', [None, lambda: g.opaque('d')]), minOccurs=g.pick('minOccurs', [0, 1]))
    namespace, form = context(g)
    v = g.pick('value', [lambda: g.opaque('v'), lambda: None, lambda: xsd.NIL, lambda: g.str('s'), lambda: 0, lambda: ''])
    parent, want = any_parent(), any_parent()
    tag = g.name('tag')
    f.render(parent, tag, v, namespace, form)
    write(f, want, tag, v, namespace, form)
    g.same('exactly the element', parent, want)


@contract('C08', TARGETS, runs=300)
def element_by_class(g):
    """The type may be given as a class; the defaults of the optional arguments."""
    class Type(xsd.String):
        pass
    f = xsd.Element(Type)
    v = g.xmltext('v')
    parent, want = any_parent(), any_parent()
    f.render(parent, 'tag', v)
    etree.SubElement(want, 'tag').text = v
    g.same('exactly the element', parent, want)


@contract('C08', TARGETS, runs=300)
def attribute(g):
    text = g.fn('text of', 'str')

    class Text(xsd.SimpleType):
        def xmlvalue(self, value):
            return text(value)
    use = g.pick('use', [xsd.Use.OPTIONAL, xsd.Use.REQUIRED, xsd.Use.PROHIBITED])
    f = xsd.Attribute(Text(), use=use, nillable=g.bool('nillable'))
    namespace, form = context(g)
    v = g.pick('value', [lambda: g.opaque('v'), lambda: None, lambda: xsd.NIL, lambda: g.str('s'), lambda: 0, lambda: ''])
    parent, want = any_parent(), any_parent()
    name = g.name('attr')
    if not g.symbolic:
        g.assume(all(c >= ' ' for c in text(v)))
    ok, r = attempt(f.render, parent, name, v, namespace, form)
    g.check('an error exactly for a missing required attribute and nil in one that is not nillable',
            ok == (use != xsd.Use.REQUIRED if v is None else f.nillable if v is xsd.NIL else True))
    if ok and v is not None and v is not xsd.NIL:
        want.set(name, text(v))
    if v is not xsd.NIL:
        g.same('exactly the attribute', parent, want)


@contract('C08', TARGETS, runs=200)
def group(g):
    """A group is written directly into the parent."""
    w = Writer(g)
    g.assume(w.ok(None))

    class Parts(xsd.Group):
        a = xsd.Element(w, tagname='A')
        b = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL, tagname='B')
        c = xsd.ListElement(w, 'C')
    minOccurs = g.pick('minOccurs', [0, 1])
    f = xsd.Ref(Parts, minOccurs=minOccurs)
    f._evaluate_type()
    namespace, form = context(g)
    parent, want = any_parent(), any_parent()
    v = g.pick('value', [lambda: Parts(), lambda: None])
    if v is not None:
        object.__setattr__(v, 'a', g.opt('a', lambda: g.opaque('a')))
        object.__setattr__(v, 'b', g.opt('b', lambda: g.xmltext('b')))
        list.extend(v.c, g.list('c', lambda e: e.opaque('v')))
    ok, r = attempt(lambda: f.render(parent, 'field', v, namespace, form))
    g.check('an error exactly if missing and required', ok == (v is not None or minOccurs == 0))
    if v is not None:
        write(Parts.a, want, 'A', v.a, namespace, form)
        if v.b is not None:
            want.set('B', v.b)
        for x in v.c:
            write(Parts.a, want, 'C', x, namespace, form)
    g.same('exactly the group', parent, want)


class Field(xsd.Element):
    """A field about which only its names are known; records how it is rendered."""

    def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
        e = etree.SubElement(parent, field_name)
        e.text = self.text(value)
        e.set('namespace', '-' if namespace is None else namespace)
        e.set('form', '-' if elementFormDefault is None else elementFormDefault)


def some_field(e):
    f = Field(xsd.String, tagname=e.pick('tagname', [None, lambda: e.name('tag')]))
    f.text = e.fn('text of', 'str')
    f._name = e.name('name')
    return f


@contract('C08', TARGETS, runs=300, seconds=300)
def object_fields(g):
    """All fields of an object are rendered, each once and in order, under their XML names; the object stays as it is."""
    Base = model(g, some_field)
    schema_ns = g.uri('schema namespace')
    has_schema = g.bool('has schema')
    if has_schema:
        schema_form = g.pick('schema form', FORMS[1:])
        Base.SCHEMA = xsd.Schema(schema_ns, elementFormDefault=schema_form)
    Model = Base
    if g.bool('of a derived class'):
        class Derived(Base):
            SCHEMA = xsd.Schema('urn:derived')
        Model = Derived
        Model._meta.all = Base._meta.all
    Model.INDICATOR = g.pick('indicator', INDICATORS)
    fields = Model._meta.all
    o = object.__new__(Model)
    g.havoc(o, 'state', fields, (None, xsd.NIL, 0, False, ''))
    before = object.__new__(Model)
    g.havoc(before, 'state', fields, (None, xsd.NIL, 0, False, ''))
    namespace, form = context(g)
    parent, want = any_parent(), any_parent()
    t = object.__new__(Base)
    t.render(parent, o, namespace, form)
    for f in fields:
        f.render(want, f._name if f.tagname is None else f.tagname, getattr(before, f._name),
                 schema_ns if has_schema else namespace, schema_form if has_schema and form is not None else form)
    g.same('exactly the fields', parent, want)
    for f in fields:
        g.check('the object is left as it is', getattr(o, f._name) is getattr(before, f._name))


def real_field(e):
    kind = e.pick('kind', ['element', 'attribute'])
    tag = e.pick('tagname', [None, lambda: e.name('tag')])
    if kind == 'element':
        f = xsd.Element(Writer(e), tagname=tag, namespace=e.pick('own namespace', [None, lambda: e.uri('own'), '']), nillable=True)
    else:
        f = xsd.Attribute(xsd.String, tagname=tag, use=xsd.Use.OPTIONAL)
    f._name = e.name('name')
    f._evaluate_type()
    return f


@contract('C08', TARGETS, runs=300, seconds=200)
def object_elements_and_attributes(g):
    """The same with real elements and attributes of any number, through the document."""
    Model = model(g, real_field)
    fields = Model._meta.all
    o = object.__new__(Model)
    g.havoc(o, 'state', fields, (None,))
    namespace, form = context(g)
    g.override(xsd.String.xmlvalue, lambda self, v: text(v))
    text = g.fn('text of', 'str')
    data = o.xml('root', namespace, form)
    want = etree.Element('root' if namespace is None else '{' + namespace + '}root')
    for f in fields:
        v = getattr(o, f._name)
        tag = f._name if f.tagname is None else f.tagname
        if isinstance(f, xsd.Attribute):
            if v is not None:
                want.set(tag, text(v))
        else:
            write(f, want, tag, v, namespace, form)
    g.same('exactly the document', etree.fromstring(data), etree.fromstring(etree.tostring(want)))


@contract('C08', TARGETS)
def simple_text(g):
    """The text of a simple value is what its type writes."""
    text = g.xmltext('text')

    class Text(xsd.SimpleType):
        def xmlvalue(self, value):
            return text
    e = etree.Element('e')
    Text().render(e, g.opaque('v'), g.opt('namespace', lambda: g.uri('ns')), g.pick('form', FORMS))
    want = etree.Element('e')
    want.text = text
    g.same('exactly the text', e, want)


@contract('C08', TARGETS, runs=300)
def alternatives(g):
    """Of a choice, only what was chosen is written and has to be complete; elsewhere every repeated field has to be."""
    w = Writer(g)
    least = g.int('minOccurs', 0)

    class Model(xsd.ComplexType):
        INDICATOR = g.pick('indicator', INDICATORS)
        one = xsd.Element(w)
        many = xsd.ListElement(w, 'many', minOccurs=least)
    Model._force_elements_type_evalution()
    o = Model()
    one = g.pick('one', [None, lambda: g.opaque('one')])
    items = g.list('many', lambda e: e.opaque('item'))
    if one is not None:
        o.__dict__['one'] = one
    list.extend(o.many, items)
    g.assume(w.ok(one) and not any(not w.ok(v) for v in items))
    parent, want = any_parent(), any_parent()
    ok, r = attempt(Model().render, parent, o, None, None)
    g.check('an error exactly for an incomplete list', ok == (len(items) >= least or len(items) == 0 and Model.INDICATOR is xsd.Choice))
    if ok:
        write(Model.one, want, 'one', one, None, None)
        for v in items:
            write(Model.many, want, 'many', v, None, None)
        g.same('exactly the elements', parent, want)


@contract('C08', TARGETS, runs=100)
def missing_object(g):
    class Model(xsd.ComplexType):
        a = xsd.Element(xsd.String, default='x')
    parent, want = any_parent(), any_parent()
    Model().render(parent, None, g.opt('namespace', lambda: g.uri('ns')), g.pick('form', FORMS))
    g.same('nothing is written', parent, want)


@contract('C08', TARGETS, runs=200)
def class_named(g):
    w = Writer(g)
    g.assume(w.ok(None))

    class Inner(xsd.ComplexType):
        a = xsd.Element(w)
    form = g.pick('schema form', FORMS[1:])
    uri = g.uri('ns')
    Inner.SCHEMA = xsd.Schema(uri, elementFormDefault=form)
    f = xsd.ClassNamedElement(Inner)
    f._evaluate_type()
    a = g.opaque('a')
    v = g.pick('value', [lambda: xsd.NamedType(name='Name', value=Inner(a=a) if w.ok(a) else None), lambda: None,
                         lambda: xsd.NamedType(name='Name')])
    parent, want = any_parent(), any_parent()
    f.render(parent, 'field', v)
    if v is not None and v.value is not None:
        e = etree.SubElement(want, '{' + uri + '}Name')
        write(Inner.a, e, 'a', v.value.a, uri, form)
    g.same('named after the value, by its own schema', parent, want)


@contract('C08', TARGETS, proof=False, runs=800)
def documents(g):
    """Generated classes and objects against an independent description of their documents."""
    s = shapes.shape(g, 's', 2, indicators=INDICATORS)
    v = shapes.value(g, s, 'v')
    namespace = g.pick('namespace', [None, 'urn:main'])
    qualified = g.bool('qualified')
    form = xsd.ElementFormDefault.QUALIFIED if qualified else g.pick('form', FORMS[::2])
    o = shapes.build(g, s, v, 'b')
    want = etree.Element('{%s}root' % namespace if namespace else 'root')
    shapes.expected(s, v, want, namespace, qualified)
    got = etree.fromstring(o.xml('root', namespace, form))
    g.same('the document', got, etree.fromstring(etree.tostring(want)))
    g.same('the object is left as it is', shapes.show(shapes.read(s, o)), shapes.show(v))
    g.same('again', etree.fromstring(o.xml('root', namespace, form)), got)


@contract('C08', TARGETS, proof=False, runs=300)
def schema_documents(g):
    """Classes declared in a schema use the schema's namespace and form, wherever their objects are."""
    s = shapes.shape(g, 's', 1, ns_choices=(None,), names=None)
    v = shapes.value(g, s, 'v')
    qualified = g.bool('qualified')
    form = xsd.ElementFormDefault.QUALIFIED if qualified else xsd.ElementFormDefault.UNQUALIFIED
    schema = xsd.Schema('urn:schema', elementFormDefault=form, complexTypes=[s.cls])
    o = shapes.build(g, s, v, 'b')
    given = g.pick('namespace', [None, 'urn:schema', 'urn:main'])
    want = etree.Element('{%s}root' % given if given else 'root')
    shapes.expected(s, v, want, 'urn:schema', qualified)
    got = etree.fromstring(o.xml('root', given, schema.elementFormDefault))
    g.same('the document', got, etree.fromstring(etree.tostring(want)))

    class Outer(xsd.ComplexType):
        inner = xsd.Element(s.cls)
        others = xsd.ListElement(s.cls, 'other')
    outer_form = g.pick('outer form', FORMS[1:])
    xsd.Schema('urn:outer', elementFormDefault=outer_form, complexTypes=[Outer])
    tag = '{urn:outer}%s' if outer_form is xsd.ElementFormDefault.QUALIFIED else '%s'
    whole = etree.Element('{urn:outer}whole')
    for name in ['inner', 'other']:
        e = etree.SubElement(whole, tag % name)
        e.extend(list(etree.fromstring(etree.tostring(want))))
        for a, t in want.attrib.items():
            e.set(a, t)
        e.text = want.text
    got = etree.fromstring(Outer(inner=o, others=[o]).xml('whole', 'urn:outer', outer_form))
    g.same('inside of another', got, whole)
