"""C06 Assignment stores only values the field type accepts."""
from soapfish import xsd
from vc.contract import contract

from . import shapes
from .lib import Probe, attempt, model

TARGETS = ['soapfish.xsd.ComplexType.__setattr__', 'soapfish.xsd.ComplexType.__init__',
           'soapfish.xsd.ComplexType._find_field', 'soapfish.xsd.Element.accept', 'soapfish.xsd.ListElement.accept',
           'soapfish.xsd.ComplexType.accept']


class Base(xsd.ComplexType):
    '''Has only its name in common with the class below.'''


TWIN = Base
TWIN.__qualname__ = 'nested_object_accepted_by_class.<locals>.Base'


def some_field(e):
    kind = e.pick('kind', ['element', 'attribute'])
    if kind == 'element':
        f = xsd.Element(Probe(e), nillable=e.bool('nillable'), minOccurs=e.pick('minOccurs', [0, 1]))
    else:
        f = xsd.Attribute(Probe(e), nillable=e.bool('nillable'), use=e.pick('use', [xsd.Use.OPTIONAL, xsd.Use.REQUIRED]))
    f._name = e.name('name')
    return f


def admits(f, v):
    return v is None or (f.nillable if v is xsd.NIL else f._passed_type.ok(v))


def stored(f, v):
    return v if v is None or v is xsd.NIL else f._passed_type.out(v)


@contract('C06', TARGETS, runs=500)
def one_assignment(g):
    """From any state of the object."""
    Model = model(g, some_field)
    fields = Model._meta.all
    inst = object.__new__(Model)
    g.havoc(inst, 'before', fields)
    ref = object.__new__(Model)
    g.havoc(ref, 'before', fields)
    name = g.pick('attr', [lambda: g.name('attr')] + ([lambda: fields[0]._name] if not g.symbolic and fields else []))
    g.assume(name != "_xmlelement")
    v = g.pick('value', [lambda: g.opaque('v'), lambda: xsd.NIL, lambda: None, lambda: g.int('number'), lambda: g.str('text')])
    ok, r = attempt(setattr, inst, name, v)
    declared = any(f._name == name and admits(f, v) for f in fields)
    g.check('accepted exactly when a field of that name admits the value', ok == declared)
    for f in fields:
        now = getattr(inst, f._name)
        if ok and f._name == name:
            g.check('what the type accepts is stored', now is stored(f, v))
        else:
            g.check('every other field is left alone', now is getattr(ref, f._name))


@contract('C06', TARGETS)
def nested_object_accepted_by_class(g):
    """A nested object is accepted exactly when it is an instance of the declared class, or missing."""
    class Base(xsd.ComplexType):
        pass

    class Derived(Base):
        pass

    class Other(xsd.ComplexType):
        pass
    declared = g.pick('declared', [Base, Derived, Other, xsd.ComplexType])
    f = xsd.Element(g.pick('given as', [lambda: declared, lambda: declared()]) if declared is not xsd.ComplexType else declared,
                    nillable=g.bool('nillable'))
    v = g.pick('value', [lambda: Base(), lambda: Derived(), lambda: Other(), lambda: TWIN(), lambda: g.opaque('v'), lambda: g.str('s'),
                         lambda: Base, lambda: None, lambda: {}, lambda: xsd.NIL, lambda: g.int('i')])
    ok, r = attempt(f.accept, v)
    if v is xsd.NIL:
        g.check('nil only if nillable', ok == f.nillable)
    else:
        g.check('accepted exactly when of the class', ok == (v is None or isinstance(v, declared)))
    if ok:
        g.check('unchanged', r is v)


@contract('C06', TARGETS)
def constructor(g):
    """Keywords are assigned like attributes; a refused one makes the constructor fail."""
    a, b = Probe(g, 'a'), Probe(g, 'b')

    class Model(xsd.ComplexType):
        alpha = xsd.Element(a)
        beta = xsd.Attribute(b, tagname='Beta', use=xsd.Use.OPTIONAL)
    va, vb = g.opaque('va'), g.opaque('vb')
    given = g.pick('given', [[], ['alpha'], ['beta'], ['alpha', 'beta'], ['beta', 'alpha'], ['gamma'], ['alpha', 'Beta']])
    kw = {}
    for k in given:
        kw[k] = va if k == 'alpha' else vb
    ok, r = attempt(lambda: Model(**kw))
    fine = 'gamma' not in given and 'Beta' not in given
    if 'alpha' in given:
        fine = fine and a.ok(va)
    if 'beta' in given:
        fine = fine and b.ok(vb)
    g.check('fails exactly when a keyword is refused', ok == fine)
    if ok:
        g.check('alpha', r.alpha is (a.out(va) if 'alpha' in given else None))
        g.check('beta', r.beta is (b.out(vb) if 'beta' in given else None))


@contract('C06', TARGETS)
def list_assignment(g):
    """A list assigned to a repeated field: every item as its type accepts it, or an error."""
    p = Probe(g)
    f = xsd.ListElement(p, 'tag', maxOccurs=g.pick('maxOccurs', [None, xsd.UNBOUNDED, lambda: g.int('maxOccurs', 0)]), nillable=g.bool('nillable'))
    items = g.list('items', lambda e: e.pick('item', [lambda: e.opaque('v'), lambda: xsd.NIL]))
    ok, r = attempt(f.accept, items)
    most = f._maxOccurs
    g.check('accepted exactly when every item is', ok == ((most is None or len(items) <= most) and all(admits(f, v) for v in items)))
    if ok:
        g.same('accepted items', [x for x in r], [stored(f, v) for v in items])


@contract('C06', TARGETS)
def nil_is_no_list(g):
    f = xsd.ListElement(Probe(g), 'tag', nillable=g.bool('nillable'))
    v = g.pick('value', [xsd.NIL, 'text'])
    ok, r = attempt(f.accept, v)
    g.check('refused', not ok)


@contract('C06', TARGETS, proof=False, runs=400)
def histories(g):
    """Sequences of assignments on objects of generated classes."""
    s = shapes.shape(g, 's', 1, refs=False)
    o = s.cls()
    state = shapes.initial(s)
    for step in range(g.int('steps', 1, 6)):
        w = f'step {step}'
        f = g.pick(w + ' field', s.fields + [None])
        if f is None:
            n = g.pick(w + ' unknown', ['nothing', '__x', 'Tag', 'tail'])
            if n in [f.py for f in s.fields]:
                continue
            ok, r = attempt(setattr, o, n, g.pick(w + ' v', [None, 5, 'x']))
            g.check('an unknown name is refused', not ok)
        elif f.kind in ('list', 'nested list'):
            n = g.int(w + ' n', 0, 3)
            good = [shapes.one(g, f, f'{w}.{i}', False) for i in range(n)]
            objs = [shapes.build(g, f.type, x, f'{w}.b{i}') if isinstance(x, dict) else x for i, x in enumerate(good)]
            bad = g.bool(w + ' bad')
            if bad:
                objs.insert(g.int(w + ' at', 0, n), object())
            fits = not bad and (f.max is None or n <= f.max)
            ok, r = attempt(setattr, o, f.py, objs)
            g.check('a list is accepted exactly when all its items are', ok == fits)
            if ok:
                state[f.py] = good
        elif f.kind == 'nested':
            x = g.pick(w + ' v', ['object', 'other', 'nil', 'none', 'dict'])
            good = shapes.value(g, f.type, w)
            v = {'object': lambda: shapes.build(g, f.type, good, w + 'b'), 'other': lambda: Other(), 'nil': lambda: xsd.NIL,
                 'none': lambda: None, 'dict': lambda: {}}[x]()
            ok, r = attempt(setattr, o, f.py, v)
            g.check('a nested object is accepted exactly when it fits', ok == (x in ('object', 'none') or x == 'nil' and f.nillable))
            if ok:
                state[f.py] = good if x == 'object' else v
        else:
            x = g.pick(w + ' v', ['good', 'bad', 'nil', 'none', 'norm'])
            code = f.type.code.split(' class')[0]
            nil = f.nillable if f.kind != 'attribute' else False
            if x == 'good' or x == 'norm' and code not in shapes.NORM:
                v = g.pick(w + ' good', f.type.values)
                ok, r = attempt(setattr, o, f.py, v)
                g.check('a value of the type is accepted', ok)
                state[f.py] = v
            elif x == 'norm':
                v, n = g.pick(w + ' norm', shapes.NORM[code])
                ok, r = attempt(setattr, o, f.py, v)
                g.check('an equivalent value is accepted', ok)
                state[f.py] = n
            elif x == 'bad':
                ok, r = attempt(setattr, o, f.py, g.pick(w + ' bad', shapes.BAD[code] + [object(), [], {}]))
                g.check('another value is refused', not ok)
            elif x == 'none':
                ok, r = attempt(setattr, o, f.py, None)
                g.check('None is accepted', ok)
                state[f.py] = None
            else:
                ok, r = attempt(setattr, o, f.py, xsd.NIL)
                g.check('nil only where nillable', ok == nil)
                if ok:
                    state[f.py] = xsd.NIL
        now = shapes.read(s, o)
        g.same('fields after the assignment', shapes.show(now), shapes.show(state))


class Other(xsd.ComplexType):
    x = xsd.Element(xsd.String)
