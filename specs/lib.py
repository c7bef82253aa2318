"""Helpers of the contracts (interpreted together with the code under verification)."""
from soapfish import xsd


def attempt(f, *args, **kwargs):
    """(True, result) or (False, exception)"""
    try:
        return True, f(*args, **kwargs)
    except Exception as e:
        return False, e


def inside(v, min_inc=None, max_inc=None, min_exc=None, max_exc=None):
    ok = True
    if min_inc is not None:
        ok = ok and v >= min_inc
    if max_inc is not None:
        ok = ok and v <= max_inc
    if min_exc is not None:
        ok = ok and v > min_exc
    if max_exc is not None:
        ok = ok and v < max_exc
    return ok


class Probe(xsd.Type):
    """A type about which nothing is known but that it accepts some values, and each in its own way."""

    def __init__(self, e, name='type'):
        self.ok = e.fn(name + ' accepts', 'bool')
        self.out = e.fn(name + ' accepted')

    def accept(self, value):
        if not self.ok(value):
            raise ValueError('refused')
        return self.out(value)


class Nullable(Probe):
    """The same, but takes a missing value as every type does."""

    def accept(self, value):
        return None if value is None else super().accept(value)


class Writer(Probe):
    """Renders a text of its own for every item."""

    def __init__(self, e):
        super().__init__(e)
        self.text = e.fn('text of', 'str')

    def render(self, parent, value, namespace, elementFormDefault):
        parent.text = self.text(value)
        if namespace is not None:
            parent.set('namespace', namespace)
        if elementFormDefault is not None:
            parent.set('form', elementFormDefault)

    def parse_xmlelement(self, xmlelement):
        return self.out(xmlelement.text)


def model(g, field, min=0):
    """A model class with any number of fields."""
    class Model(xsd.ComplexType):
        pass
    Model._meta.all = g.list('fields', field, min)
    return Model


def settled(*modules):
    """Has the types of all fields of the classes of some modules evaluated, which otherwise happens when they are first used."""
    for m in modules:
        for c in vars(m).values():
            if isinstance(c, type) and issubclass(c, xsd.ComplexType):
                for f in c._meta.all:
                    f._evaluate_type()
