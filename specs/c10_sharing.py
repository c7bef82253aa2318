"""C10 Model objects share no state."""
from soapfish import xsd
from vc.contract import contract

from . import shapes
from .lib import Nullable, Probe, attempt, model

TARGETS = ['soapfish.xsd.ComplexType.__new__', 'soapfish.xsd.Element.empty_value', 'soapfish.xsd.ListElement.empty_value',
           'soapfish.xsd.Ref.empty_value', 'soapfish.xsd.ComplexType.__init__', 'soapfish.xsd.ComplexType.__setattr__',
           'soapfish.xsd.TypedList.append', 'soapfish.xsd.ListElement.accept']


@contract('C10', TARGETS)
def initial_element(g):
    """An element starts with its declared default or nothing."""
    default = g.pick('default', [None, lambda: g.opaque('default'), 0, '', False])
    kind = g.pick('kind', ['element', 'attribute', 'none'])

    class Inner(xsd.ComplexType):
        items = xsd.ListElement(xsd.String, 'item')

    class Parts(xsd.Group):
        items = xsd.ListElement(xsd.String, 'item')
    if kind == 'element':
        f = xsd.Element(g.pick('type', [lambda: Probe(g), Inner, Inner(), Parts, Parts(), xsd.String, xsd.Int()]), default=default, nillable=g.bool('nillable'), minOccurs=g.pick('minOccurs', [0, 1]))
    elif kind == 'attribute':
        f = xsd.Attribute(xsd.String, default=default, use=g.pick('use', [xsd.Use.OPTIONAL, xsd.Use.REQUIRED]))
    else:
        f, default = xsd.Element(Probe(g)), None
    if g.bool('in use'):
        f._evaluate_type()
    g.check('the default', f.empty_value() is default)
    g.check('always', f.empty_value() is default)


@contract('C10', TARGETS)
def initial_list(g):
    """Every object gets a list of its own."""
    p = Probe(g)
    f = xsd.ListElement(p, 'item', nillable=True)
    f._evaluate_type()
    a, b = f.empty_value(), f.empty_value()
    g.check('two lists', a is not b)
    g.check('both empty', len(a) == 0 and len(b) == 0)
    for x in g.list('items', lambda e: e.opaque('v')):
        if p.ok(x):
            a.append(x)
    list.append(a, xsd.NIL)
    g.check('the other stays empty', len(b) == 0)
    c = f.empty_value()
    g.check('a later one is empty', len(c) == 0 and c is not a and c is not b)


@contract('C10', TARGETS)
def initial_group(g):
    """Every object gets a group value of its own, with lists and groups of its own."""
    p = Nullable(g)
    default = g.pick('default', [None, lambda: g.opaque('default')])
    g.assume(default is None or p.ok(default) and p.out(default) is default)

    class Deep(xsd.Group):
        parts = xsd.ListElement(p, 'Part')

    class Parts(xsd.Group):
        one = xsd.Element(p, default=default)
        items = xsd.ListElement(p, 'item')
        deep = xsd.Ref(Deep)
    t = g.pick('as', [lambda: Parts, lambda: Parts()])
    f = xsd.Ref(t)
    a, b = f.empty_value(), f.empty_value()
    v = g.opaque('v')
    g.check('two values', a is not b and type(a) is Parts and type(b) is Parts)
    g.check('lists of their own', a.items is not b.items and a.deep is not b.deep and a.deep.parts is not b.deep.parts)
    object.__setattr__(a, 'one', v)
    list.append(a.items, v)
    list.append(a.deep.parts, v)
    c = f.empty_value()
    for o in (b, c):
        g.check('initial', o.one is default and len(o.items) == 0 and len(o.deep.parts) == 0)


class Recorder(xsd.Element):
    """A field about which only its name and what it starts with are known."""

    def empty_value(self):
        self.log.append(self)
        return self.initial


@contract('C10', TARGETS)
def new_object(g):
    """A new object holds in each field what that field starts with, asked for once per object."""
    log = []

    def some(e):
        f = Recorder(xsd.AnyType)
        f._name, f.log = e.name('name'), log
        e.assume(f._name != '_xmlelement')
        f.initial = e.opaque('initial')
        f.takes = e.fn('accepts')
        return f
    g.override(xsd.Element.accept, lambda self, value: self.takes(value))
    Model = model(g, some)
    fields = Model._meta.all
    o = Model()
    for f in fields:
        g.check('what its accept makes of it', getattr(o, f._name) is f.takes(f.initial))
    g.same('asked once', log, [f for f in fields])


@contract('C10', TARGETS, runs=300)
def two_objects(g):
    """Whatever is done to one object is not seen in another, an earlier or a later one."""
    p = Nullable(g)

    class Inner(xsd.ComplexType):
        value = xsd.Element(p)
        values = xsd.ListElement(p, 'v')

    class Parts(xsd.Group):
        part = xsd.Element(p, nillable=True)
        parts = xsd.ListElement(p, 'part')

    class Model(xsd.ComplexType):
        code = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL, default='d')
        one = xsd.Element(p, nillable=True)
        items = xsd.ListElement(p, 'item')
        inner = xsd.Element(Inner)
        group = xsd.Ref(Parts)
    before = Model()
    a = Model()
    x = g.opaque('x')
    attempt(setattr, a, 'one', x)
    a.code = g.str('code')
    attempt(setattr, a.group, 'part', x)
    items = g.list('items', lambda e: e.opaque('v'))
    for o in (a.items, a.group.parts):
        if all(p.ok(y) for y in items):
            for y in items:
                o.append(y)
    a.inner = Inner()
    attempt(a.inner.values.append, x)
    kept = [y for y in a.items]
    after = Model()
    for o in (before, after):
        g.check('initial', o.code == 'd' and o.one is None and o.inner is None and o.group.part is None)
        g.check('empty', len(o.items) == 0 and len(o.group.parts) == 0 and len(Inner().values) == 0)
    after.items = a.items if all(p.ok(y) for y in a.items) else []
    list.append(after.items, x)
    list.append(after.group.parts, x)
    after.code = 'other'
    g.same('and back', [y for y in a.items], kept)
    g.check('the earlier one as well', len(before.items) == 0 and len(before.group.parts) == 0 and before.code == 'd')
    g.check('a list of its own', after.items is not a.items)


def act(g, s, o, v, at, others):
    """One change to the object o, which holds v."""
    if not s.fields:
        return
    f = g.pick(at + ' field', s.fields)
    if f.kind == 'group':
        return act(g, f.type, getattr(o, f.py), v[f.py], at + ' in', [])
    if f.kind in ('list', 'nested list'):
        how = g.pick(at + ' how', ['append', 'append', 'assign', 'clear', 'inner', 'borrow'])
        if how == 'clear':
            list.clear(getattr(o, f.py))
            v[f.py] = []
        elif how == 'inner' and f.kind == 'nested list' and v[f.py]:
            k = g.int(at + ' k', 0, len(v[f.py]) - 1)
            if isinstance(v[f.py][k], dict):
                act(g, f.type, getattr(o, f.py)[k], v[f.py][k], at + ' inner', [])
        elif how == 'borrow' and others and f.kind == 'list':
            p, w = g.pick(at + ' from', others)
            setattr(o, f.py, getattr(p, f.py))
            v[f.py] = list(w[f.py])
        elif f.max is not None and len(v[f.py]) >= f.max:
            pass
        else:
            x = shapes.one(g, f, at, False)
            y = shapes.build(g, f.type, x, at) if isinstance(x, dict) else x
            if how == 'assign':
                setattr(o, f.py, [y])
                v[f.py] = [x]
            else:
                getattr(o, f.py).append(y)
                v[f.py] = v[f.py] + [x]
    elif f.kind == 'nested' and isinstance(v[f.py], dict) and g.bool(at + ' inside'):
        act(g, f.type, getattr(o, f.py), v[f.py], at + ' inside', [])
    else:
        x = shapes.one(g, f, at, False)
        setattr(o, f.py, shapes.build(g, f.type, x, at) if isinstance(x, dict) else x)
        v[f.py] = x


@contract('C10', TARGETS, proof=False, runs=600)
def histories(g):
    """Any operations on several objects of a generated class."""
    s = shapes.shape(g, 's', 2)
    objects = []
    for n in range(g.int('steps', 2, 8)):
        what = g.pick(f'{n} what', ['new', 'act', 'act', 'act', 'build', 'parse'])
        if what == 'new':
            objects.append((s.cls(), shapes.initial(s)))
        elif what == 'build':
            v = shapes.value(g, s, f'{n} v')
            o = shapes.build(g, s, v, f'{n} b')
            for f in s.fields:
                if v[f.py] is None:
                    v[f.py] = f.default
            objects.append((o, v))
        elif what == 'parse' and objects:
            ok, data = attempt(objects[-1][0].xml, 'root')
            if ok:
                s.cls.parsexml(data)
        elif objects:
            k = g.int(f'{n} which', 0, len(objects) - 1)
            o, v = objects[k]
            act(g, s, o, v, str(n), [x for i, x in enumerate(objects) if i != k])
        for o, v in objects:
            g.same('only the changed object has changed', shapes.show(shapes.read(s, o)), shapes.show(v))
    g.same('later objects start afresh', shapes.show(shapes.read(s, s.cls())), shapes.show(shapes.initial(s)))
