"""C09 Parsing inverts rendering."""
from lxml import etree

from soapfish import namespaces as ns
from soapfish import xsd
from vc.contract import contract

from . import shapes
from .lib import Writer, attempt, model

TARGETS = ['soapfish.xsd.ComplexType.parse_xmlelement', 'soapfish.xsd.ComplexType._find_subelement',
           'soapfish.xsd.ComplexType._is_matching_element', 'soapfish.xsd.Element.parse', 'soapfish.xsd.Attribute.parse',
           'soapfish.xsd.ListElement.parse', 'soapfish.xsd.is_nil', 'soapfish.xsd.ComplexType.parsexml',
           'soapfish.xsd.SimpleType.parse_xmlelement', 'soapfish.xsd.Document.parsexml']
NIL_ATTR = f'{{{ns.xsi}}}nil'
FORMS = [None, xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED]
NILS = [None, 'true', '1', 'false', '0', 'TRUE', '']


def node(e, tag):
    """An element with a text and perhaps a nil marker."""
    x = etree.Element(tag)
    x.text = e.xmltext('text')
    nil = e.pick('nil', NILS)
    if nil is not None:
        x.set(NIL_ATTR, nil)
    return x


def marked(x):
    return x.get(NIL_ATTR) == 'true' or x.get(NIL_ATTR) == '1'


class Holder:
    """Stands for a model object."""


@contract('C09', TARGETS)
def element(g):
    p = Writer(g)
    f = xsd.Element(p)
    e = node(g, 'tag')
    o = Holder()
    f.parse(o, 'field', e)
    g.check('nil exactly when marked so, else what the type reads', o.field is (xsd.NIL if marked(e) else p.out(e.text)))


@contract('C09', TARGETS)
def nil_marker(g):
    e = etree.Element('tag')
    name = g.pick('attribute', ['nil', NIL_ATTR, '{urn:other}nil'])
    v = g.xmltext('value')
    e.set(name, v)
    g.check("nil exactly when the marker is 'true' or '1'", xsd.is_nil(e) == (name == NIL_ATTR and (v == 'true' or v == '1')))


@contract('C09', TARGETS)
def attribute(g):
    read = g.fn('read')

    class Text(xsd.SimpleType):
        def pythonvalue(self, xmlvalue):
            return read(xmlvalue)
    default = g.pick('default', [None, lambda: g.opaque('default')])
    tag = g.pick('tagname', [None, lambda: g.name('tag')])
    f = xsd.Attribute(Text(), default=default, tagname=tag, use=g.pick('use', [xsd.Use.OPTIONAL, xsd.Use.REQUIRED]))
    e = etree.Element('e')
    e.set('first', 'x')
    v = g.opt('value', lambda: g.xmltext('text'))
    name = 'field' if tag is None else tag
    g.assume(name != 'first')
    if v is not None:
        e.set(name, v)
    o = Holder()
    f.parse(o, 'field', e)
    g.check('what the type reads, or the default', o.field is (default if v is None else read(v)))


def some_tag(e):
    return e.pick('tag', [lambda: e.name('plain'), lambda: '{' + e.uri('ns') + '}' + e.name('local')])


@contract('C09', TARGETS, runs=400)
def matching(g):
    """An element belongs to a field exactly when its local name is the field's XML name; comments belong to none."""
    f = xsd.Element(xsd.String, tagname=g.pick('tagname', [None, lambda: g.name('tag')]))
    f._name = g.name('field')
    plain = g.str('plain', '{}', nonempty=True)
    if not g.symbolic:
        plain = g.pick('element', [f._name, f.tagname or 'x', f._name + 'x', f._name[1:].lstrip('.-') or 'y', f._name.lower(), 'zz'])
    kind = g.pick('kind', ['plain', 'qualified', 'comment', 'instruction'])
    if kind == 'plain':
        e = etree.Element(plain)
    elif kind == 'qualified':
        e = etree.Element('{' + g.uri('ns') + '}' + plain)
    elif kind == 'comment':
        e = etree.Comment('tag')
    else:
        e = etree.ProcessingInstruction('tag', 'text')
    want = (kind == 'plain' or kind == 'qualified') and plain == (f._name if f.tagname is None else f.tagname)
    g.check('matches exactly then', xsd.ComplexType._is_matching_element(f, e) == want)


def child(e):
    kind = e.pick('kind', ['element', 'comment', 'instruction'])
    if kind == 'comment':
        return etree.Comment('first')
    if kind == 'instruction':
        return etree.ProcessingInstruction('first', 'x')
    tag = e.pick('tag', ['first', 'Second', 'item', '{urn:a}first', '{urn:b}Second', '{urn:a}item', 'second', 'items', 'group',
                         lambda: e.str('other', '{}', nonempty=True) if e.symbolic else e.name('other')])
    return node(e, tag)


def local(x):
    if not isinstance(x.tag, str):
        return None
    return etree.QName(x).localname


@contract('C09', TARGETS, runs=500, seconds=150)
def find_children(g):
    """Exactly the children of that name, in order, whatever surrounds them."""
    f = xsd.Element(xsd.String, tagname=g.pick('tagname', [None, 'Second']))
    f._name = 'first'
    e = etree.Element('root')
    e.extend(g.list('children', child))
    found = xsd.ComplexType._find_subelement(f, e)
    g.same('the children of that name', [x for x in found], [x for x in e if local(x) == (f.tagname or 'first')])


class Recorder(xsd.Element):
    """A field about which only its names are known; records what it is given to parse."""

    def parse(self, instance, field_name, xmlelement):
        self.log.append((self, instance, field_name, xmlelement))


def recorders(g, name, log):
    def one(e):
        f = Recorder(xsd.String, tagname=e.pick('tagname', [None, lambda: e.name('tag')]))
        f._name = e.name('name')
        f.log = log
        return f
    return g.list(name, one)


def bare_child(e):
    return etree.Element(e.str('tag', '{}', nonempty=True) if e.symbolic else e.name('tag'))


def plain_child(e):
    kind = e.pick('kind', ['element', 'comment', 'instruction'])
    if kind == 'comment':
        return etree.Comment('first')
    if kind == 'instruction':
        return etree.ProcessingInstruction('first', 'x')
    return etree.Element(e.pick('namespace', ['', '{urn:a}', '{urn:b}']) + (e.str('tag', '{}', nonempty=True) if e.symbolic else e.name('tag')))


@contract('C09', TARGETS, runs=500)
def distribution(g):
    """Each attribute and group field gets the element itself, each element field its children, in order; nothing else
    is parsed."""
    log, want = [], []

    class Model(xsd.ComplexType):
        pass
    Model._meta.attributes = recorders(g, 'attributes', log)
    Model._meta.fields = recorders(g, 'fields', log)
    Model._meta.groups = recorders(g, 'groups', log)
    Model.INDICATOR = g.pick('indicator', [xsd.Sequence, xsd.All])
    e = etree.Element('root')
    e.extend(g.list('children', plain_child))
    o = Model.parse_xmlelement(e)
    for f in Model._meta.attributes:
        want.append((f, o, f._name, e))
    for f in Model._meta.fields:
        for x in e:
            if local(x) == (f._name if f.tagname is None else f.tagname):
                want.append((f, o, f._name, x))
    for f in Model._meta.groups:
        want.append((f, o, f._name, e))
    g.same('everything where it belongs', log, want)
    g.check('an object of the class', type(o) is Model)


def a_name(g, name):
    return g.str(name, '{}', nonempty=True) if g.symbolic else g.name(name)


def a_choice(g, log, names):
    class Model(xsd.ComplexType):
        INDICATOR = xsd.Choice
    Model._meta.fields = []
    for k, name in enumerate(names):
        f = Recorder(xsd.String)
        f._name, f.log = name, log
        Model._meta.fields.append(f)
    return Model


@contract('C09', TARGETS, runs=500, seconds=240)
def choice(g):
    """The same for a choice that comes in the element that contains it."""
    log, want = [], []
    Model = a_choice(g, log, [g.name('name%d' % k) for k in range(g.pick('number of fields', [1, 2]))])
    root = a_name(g, 'root')
    e = etree.Element(g.pick('namespace', ['', '{urn:a}']) + root)
    for f in Model._meta.fields:
        g.assume(root != f._name)
    e.extend(g.list('children', bare_child))
    o = Model.parse_xmlelement(e)
    for f in Model._meta.fields:
        for x in e:
            if local(x) == f._name:
                want.append((f, o, f._name, x))
    g.same('everything where it belongs', log, want)


@contract('C09', TARGETS, runs=500, seconds=240)
def choice_alone(g):
    """The selected element of a choice may come without the element that contains it."""
    log = []
    names = [a_name(g, 'name%d' % k) for k in range(g.pick('number of fields', [1, 2]))]
    Model = a_choice(g, log, names)
    k = g.pick('selected', list(range(len(names))))
    for n in names[:k]:
        g.assume(n != names[k])
    e = etree.Element(g.pick('namespace', ['', '{urn:a}']) + names[k])

    def other(x):
        tag = a_name(x, 'tag')
        for n in names:
            x.assume(tag != n)
        return etree.Element(tag)
    e.extend(g.list('children', other))
    o = Model.parse_xmlelement(e)
    f = Model._meta.fields[k]
    g.same('that one, and nothing else', log, [(f, o, f._name, e)])


@contract('C09', TARGETS, runs=500, seconds=240)
def choice_of_same_name(g):
    """An element that holds an alternative is never taken for one of its own, whatever its name is."""
    log, want = [], []
    names = [a_name(g, 'name%d' % k) for k in range(g.pick('number of fields', [1, 2]))]
    Model = a_choice(g, log, names)
    root = g.pick('selected', names)
    held = g.pick('held', names)
    e = etree.Element(g.pick('namespace', ['', '{urn:a}']) + root)
    if g.bool('before others'):
        e.append(etree.Element(held))
        e.extend(g.list('children', bare_child))
    else:
        e.extend(g.list('children', bare_child))
        e.append(etree.Element(held))
    o = Model.parse_xmlelement(e)
    for f in Model._meta.fields:
        for x in e:
            if local(x) == f._name:
                want.append((f, o, f._name, x))
    g.same('everything where it belongs', log, want)


@contract('C09', TARGETS, runs=300)
def list_item(g):
    """A repeated field appends what the child holds after what it held."""
    w = Writer(g)
    f = xsd.ListElement(w, 'item', nillable=True)
    f._name = 'items'
    o = Holder()
    before = g.list('before', lambda e: e.opaque('v'))
    o.items = xsd.TypedList(f)
    list.extend(o.items, before)
    e = node(g, 'item')
    if g.bool('reads as nothing'):
        w.out = lambda x: None
    good = marked(e) or w.ok(w.out(e.text))
    ok, r = attempt(f.parse, o, 'items', e)
    g.check('accepted exactly when its value is', ok == good)
    if ok:
        g.same('appended', [x for x in o.items], [x for x in before] + [xsd.NIL if marked(e) else w.out(w.out(e.text))])


class Same(xsd.Type):
    """A type that reads back what it writes."""

    def __init__(self, g, name='type'):
        self.text = g.fn(name + ' text of', 'str')
        self.value = g.fn(name + ' value of')
        self.seen = []
        self.ok = g.fn(name + ' accepts', 'bool')

    def accept(self, value):
        if value is not None and not self.ok(value):
            raise ValueError('refused')
        return value

    def render(self, parent, value, namespace, elementFormDefault):
        parent.text = self.text(value)

    def parse_xmlelement(self, xmlelement):
        return self.value(xmlelement.text)


def legal(e, t, v):
    """A value of the type that it reads back."""
    e.assume(v is not None)
    e.assume(v is not xsd.NIL)
    if not e.symbolic:
        for y in t.seen:
            e.assume(y is v or t.text(y) != t.text(v))
        t.seen.append(v)
        t.value = lambda x: [y for y in t.seen if t.text(y) == x][0] if x is not None else None
    e.assume(t.text(v) != '')
    e.assume(t.ok(v))
    e.assume(t.value(t.text(v)) is v)
    return v


def legal_or_nil(e, t, name):
    state = e.pick(name + ' state', ['value', 'nil'])
    return xsd.NIL if state == 'nil' else legal(e, t, e.opaque(name))


@contract('C09', TARGETS, runs=300, seconds=150)
def round_trip_fields(g):
    """One field of each kind, lists of any length, any texts."""
    p, q = Same(g, 'p'), Same(g, 'q')

    class Parts(xsd.Group):
        part = xsd.Element(q, tagname='Part', nillable=True)

    class Model(xsd.ComplexType):
        items = xsd.ListElement(p, 'item', nillable=True)
        other = xsd.Element(q, tagname='Second', nillable=True)
        group = xsd.Ref(Parts, minOccurs=1)
    o = Model()
    list.extend(o.items, g.list('items', lambda e: legal_or_nil(e, p, 'v')))
    o.other = g.opt('other', lambda: legal_or_nil(g, q, 'other'))
    o.group.part = g.opt('part', lambda: legal_or_nil(g, q, 'part'))
    namespace, form = g.pick('namespace', [None, 'urn:n']), g.pick('form', FORMS)
    r = Model.parsexml(o.xml('root', namespace, form))
    g.same('items', [x for x in r.items], [x for x in o.items])
    g.check('other', r.other is o.other)
    g.check('part', r.group.part is o.group.part)


@contract('C09', TARGETS, runs=300, seconds=150)
def round_trip_nested(g):
    """Nested objects, repeated ones and attributes."""
    p = Same(g, 'p')

    class Inner(xsd.ComplexType):
        code = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
        value = xsd.Element(p)

    class Model(xsd.ComplexType):
        label = xsd.Attribute(xsd.String, tagname='Label', default='none')
        inner = xsd.Element(Inner)
        inners = xsd.ListElement(Inner, 'Inner')

    def some(e):
        return Inner(code=e.opt('code', lambda: e.xmltext('code')), value=legal(e, p, e.opaque('value')))
    o = Model(label=g.xmltext('label'), inner=g.opt('inner', lambda: some(g)))
    list.extend(o.inners, g.list('inners', some))
    r = Model.parsexml(o.xml('root'))
    g.check('attribute', r.label == o.label)
    g.check('missing stays missing', (r.inner is None) == (o.inner is None))
    if o.inner is not None:
        g.check('nested', r.inner.code == o.inner.code and r.inner.value is o.inner.value)
    g.same('repeated', [(x.code, x.value) for x in r.inners], [(x.code, x.value) for x in o.inners])


def local_name(g, name):
    return g.str(name, '{}', nonempty=True) if g.symbolic else g.name(name)


def named(g, name, make):
    f = make(g.pick(name + ' tagname', [None, lambda: local_name(g, name + ' tag')]))
    f._name = local_name(g, name)
    f._evaluate_type()
    return f, f._name if f.tagname is None else f.tagname


@contract('C09', TARGETS, runs=400, seconds=120)
def own_children(g):
    """What a field writes is read by that field and by no other, whatever the names, the values and the namespace."""
    w = Writer(g)
    g.assume(w.ok(None))
    kind = g.pick('kind', ['element', 'list'])
    mine, name = named(g, 'field', lambda tag: xsd.Element(w, tagname=tag, nillable=True, namespace=g.pick('own', [None, '', 'urn:own']))
                       if kind == 'element' else xsd.ListElement(w, 'item' if tag is None else tag, nillable=True))
    other, another = named(g, 'other', lambda tag: xsd.Element(xsd.String, tagname=tag))
    g.assume(name != another)
    value = lambda e: e.pick('value', [lambda: e.opaque('v'), lambda: xsd.NIL])
    e = etree.Element('parent')
    v = value(g) if kind == 'element' else g.list('values', value)
    mine.render(e, name, v, g.pick('namespace', [None, lambda: g.uri('ns')]), g.pick('form', FORMS))
    for x in e:
        g.check('read by its field', xsd.ComplexType._is_matching_element(mine, x))
        g.check('read by no other', not xsd.ComplexType._is_matching_element(other, x))
    g.check('every value is written', len(e) == (1 if kind == 'element' else len(v)))


@contract('C09', TARGETS, runs=300, seconds=150)
def round_trip_choice(g):
    """The selected element of a choice comes back, and nothing else."""
    p, q = Same(g, 'p'), Same(g, 'q')

    class Inner(xsd.ComplexType):
        value = xsd.Element(p)

    class Model(xsd.ComplexType):
        INDICATOR = xsd.Choice
        one = xsd.Element(p, nillable=True)
        items = xsd.ListElement(q, 'item', nillable=True)
        inner = xsd.Element(Inner, tagname='Inner')
    o = Model()
    kind = g.pick('selected', ['one', 'items', 'inner'])
    if kind == 'one':
        o.one = legal_or_nil(g, p, 'one')
    elif kind == 'items':
        list.extend(o.items, g.list('items', lambda e: legal_or_nil(e, q, 'v')))
    else:
        o.inner = Inner(value=legal(g, p, g.opaque('value')))
    r = Model.parsexml(o.xml('root', g.pick('namespace', [None, 'urn:n']), g.pick('form', FORMS)))
    g.check('one', r.one is o.one)
    g.same('items', [x for x in r.items], [x for x in o.items])
    g.check('inner', (r.inner is None) == (o.inner is None))
    if o.inner is not None:
        g.check('its value', r.inner.value is o.inner.value)


@contract('C09', TARGETS, runs=200)
def document(g):
    """A document object comes back as well."""
    p = Same(g, 'p')

    class Inner(xsd.ComplexType):
        value = xsd.Element(p)

    class Doc(xsd.Document):
        NAMESPACE = g.pick('namespace', [None, 'urn:n'])
        root = xsd.Element(Inner)
    o = Doc()
    o.root = Inner(value=legal(g, p, g.opaque('value')))
    r = Doc.parsexml(o.render())
    g.check('the root', r.root.value is o.root.value)


def disturb(g, s, e, at):
    """Changes nothing a parser may look at: the order of differently named children, and foreign nodes between them."""
    kids = list(e)
    names = []
    for x in kids:
        if x.tag not in names:
            names.append(x.tag)
    order = sorted(names, key=lambda n: g.int(f'{at} order {n}', 0, 9))
    queues = {n: [x for x in kids if x.tag == n] for n in names}
    for x in kids:
        e.remove(x)
    if order and g.bool(at + ' interleaved'):
        out = []
        while any(queues.values()):
            for n in order:
                if queues[n]:
                    out.append(queues[n].pop(0))
    else:
        out = [x for n in order for x in queues[n]]
    for k, x in enumerate(out + [None]):
        for kind in g.pick(f'{at}.{k} foreign', [(), (), ('comment',), ('pi',), ('element',), ('comment', 'element', 'pi')]):
            y = etree.Comment('x') if kind == 'comment' else etree.ProcessingInstruction('x', 'y') if kind == 'pi' \
                else etree.Element('{urn:unknown}unknown')
            y.tail = g.pick(f'{at}.{k} tail', [None, '\n'])
            e.append(y)
        if x is not None:
            e.append(x)
    for k, x in enumerate(out):
        if len(x):
            disturb(g, s, x, f'{at}.{k}')


@contract('C09', TARGETS, proof=False, runs=1500, seconds=120)
def round_trip(g):
    """Generated classes and objects."""
    s = shapes.shape(g, 's', 2)
    v = shapes.value(g, s, 'v')
    o = shapes.build(g, s, v, 'b')
    form = g.pick('form', FORMS)
    data = o.xml('root', g.pick('namespace', [None, 'urn:main']), form, pretty_print=g.bool('pretty'))
    want = shapes.show(reads_back(s, v))
    g.same('what was written', shapes.show(shapes.read(s, s.cls.parsexml(data))), want)
    e = etree.fromstring(data)
    disturb(g, s, e, 'd')
    g.same('in any order, among foreign nodes', shapes.show(shapes.read(s, s.cls.parsexml(etree.tostring(e)))), want)


def reads_back(s, v):
    """Missing fields come back as their default."""
    r = {}
    for f in s.fields:
        x = v[f.py]
        if isinstance(x, dict):
            r[f.py] = reads_back(f.type, x)
        elif isinstance(x, list):
            r[f.py] = [reads_back(f.type, y) if isinstance(y, dict) else y for y in x]
        else:
            r[f.py] = f.default if x is None else x
    return r


def text_or_nil(e, name):
    return e.pick(name + ' state', [lambda: e.xmltext(name), '', ' ', xsd.NIL])


def kept(v):
    """An empty text comes back as a missing one."""
    return None if v is not xsd.NIL and v == '' else v


@contract('C09', TARGETS, runs=400, seconds=120)
def empty_items(g):
    """Lists of texts of any length: every item keeps its place, an empty text as a missing one."""
    kind = g.pick('type', [xsd.String, lambda: xsd.String(), lambda: xsd.String(maxLength=3)])

    class Model(xsd.ComplexType):
        items = xsd.ListElement(kind, 'item', nillable=True)
        attribute = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
        single = xsd.Element(kind, nillable=True)
    o = Model()
    for v in g.list('values', lambda e: text_or_nil(e, 'item')):
        ok, error = attempt(o.items.append, v)
        g.assume(ok)
    ok, error = attempt(setattr, o, 'attribute', g.opt('attribute', lambda: g.xmltext('attribute')))
    g.assume(ok)
    ok, error = attempt(setattr, o, 'single', g.opt('single', lambda: text_or_nil(g, 'single')))
    g.assume(ok)
    r = Model.parsexml(o.xml('root'))
    g.same('items', [x for x in r.items], [kept(x) for x in o.items])
    g.check('attribute', r.attribute == o.attribute)
    single = None if o.single is None else kept(o.single)
    g.check('single', r.single is None if single is None else r.single is single if single is xsd.NIL else r.single == single)


@contract('C09', TARGETS, proof=False, runs=600)
def choices(g):
    """Generated choices: the selected element comes back."""
    s = shapes.shape(g, 's', 1, kinds=('element', 'nested', 'list'), attributes=False, defaults=False, indicator=xsd.Choice)
    g.assume(s.fields)
    f = g.pick('selected', s.fields)
    v = {x.py: [] if x.kind == 'list' else None for x in s.fields}
    v[f.py] = [shapes.one(g, f, 'v', False)] if f.kind == 'list' else shapes.one(g, f, 'v', False)
    g.assume(f.kind != 'list' or (f.min or 0) <= 1)
    o = shapes.build(g, s, v, 'b')
    data = o.xml('root')
    g.same('what was written', shapes.show(shapes.read(s, s.cls.parsexml(data))), shapes.show(v))
    e = etree.fromstring(data)[0]
    if not any(x.xml == etree.QName(c).localname for x in s.fields for c in e):
        alone = s.cls.parse_xmlelement(e)
        g.same('the element alone', shapes.show(shapes.read(s, alone)), shapes.show(v))


@contract('C09', [*TARGETS, 'soapfish.xsd.Decimal.xmlvalue'], proof=False, runs=300)
def special_numbers(g):
    """Infinite numbers and those that are none have texts of their own."""
    t = g.pick('type', [xsd.Double, xsd.Float])()
    v, text = g.pick('value', [(float('inf'), 'INF'), (float('-inf'), '-INF'), (float('nan'), 'NaN')])
    g.check('written', t.xmlvalue(v) == text)
    back = t.pythonvalue(text)
    g.check('read', isinstance(back, float) and (back == v or v != v and back != back))
