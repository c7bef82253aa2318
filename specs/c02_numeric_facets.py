"""C02 Every declared numeric facet is enforced."""
import math
import re

from soapfish import xsd
from vc.contract import contract

from .lib import attempt, inside

TARGETS = ['soapfish.xsd.Decimal.__init__', 'soapfish.xsd.Decimal.accept', 'soapfish.xsd.Decimal._check_restrictions',
           'soapfish.xsd.Double.__init__', 'soapfish.xsd.Float.__init__', 'soapfish.xsd.Integer.__init__',
           'soapfish.xsd.Integer.accept']
BOUNDS = ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive')


def number(g, name):
    return g.pick(name + ' kind', [lambda: g.int(name), lambda: g.float(name + ' float'),
                                   lambda: g.decimal(name + ' decimal')])


def finite(v):
    return isinstance(v, int) or math.isfinite(v)


def make(name):
    def declared_bounds(g):
        """Any combination of integer bounds."""
        v = number(g, 'v')
        facets = {}
        for b in BOUNDS:
            if g.bool('declares ' + b):
                facets[b] = g.int(b)
        t = getattr(xsd, name)(**facets)
        ok, r = attempt(t.accept, v)
        g.check('accepted exactly when inside the declared bounds',
                ok == inside(v, facets.get('minInclusive'), facets.get('maxInclusive'),
                             facets.get('minExclusive'), facets.get('maxExclusive')))
        if ok:
            g.same('returned numerically unchanged', r, v)
    declared_bounds.__name__ = 'declared_bounds_' + name
    contract('C02', TARGETS, runs=600, seconds=250)(declared_bounds)

    def declared_bound(g):
        """One bound of any kind."""
        v = number(g, 'v')
        b = g.pick('bound', BOUNDS)
        n = number(g, 'n')
        g.assume(finite(v) and finite(n))
        ok, r = attempt(getattr(xsd, name)(**{b: n}).accept, v)
        g.check('accepted exactly when inside the declared bound', ok == (
            v >= n if b == 'minInclusive' else v <= n if b == 'maxInclusive' else v > n if b == 'minExclusive' else v < n))
        if ok:
            g.same('returned numerically unchanged', r, v)
    declared_bound.__name__ = 'declared_bound_' + name
    contract('C02', TARGETS, runs=600, seconds=250)(declared_bound)

    def declared_enumeration(g):
        v = number(g, 'v')
        values = g.list('enumeration', lambda e: e.int('value'))
        t = getattr(xsd, name)(enumeration=values)
        ok, r = attempt(t.accept, v)
        g.check('accepted exactly when enumerated', ok == (v in values))
        if ok:
            g.same('returned numerically unchanged', r, v)
    declared_enumeration.__name__ = 'declared_enumeration_' + name
    contract('C02', TARGETS)(declared_enumeration)

    def declared_pattern(g):
        v, plain, whole, frac = g.number('v', exponent=False)
        p = g.pattern('p')
        t = getattr(xsd, name)(pattern=p)
        ok, r = attempt(t.accept, v)
        g.check('accepted exactly when the pattern matches the whole text of the number',
                ok == (re.fullmatch(p, str(v)) is not None))
        if ok:
            g.same('returned numerically unchanged', r, v)
    declared_pattern.__name__ = 'declared_pattern_' + name
    contract('C02', TARGETS, runs=500)(declared_pattern)


for _name in ('Decimal', 'Double', 'Float'):
    make(_name)


@contract('C02', TARGETS)
def no_facet_declared(g):
    name = g.pick('type', ['Decimal', 'Double', 'Float'])
    v = number(g, 'v')
    g.assume(finite(v))
    ok, r = attempt(getattr(xsd, name)().accept, v)
    g.check('every finite number is accepted', ok)
    g.same('returned numerically unchanged', r, v)


@contract('C02', TARGETS, runs=1000)
def declared_total_digits(g):
    v, plain, whole, frac = g.number('v')
    n = g.int('totalDigits', 0)
    t = xsd.Decimal(totalDigits=n)
    ok, r = attempt(t.accept, v)
    digits = len(str(whole)) + (len(frac) if frac is not None else 0)
    g.check('accepted exactly when it has no more digits', ok == (digits <= n))
    if ok:
        g.same('returned numerically unchanged', r, v)


@contract('C02', TARGETS, runs=1000)
def declared_fraction_digits(g):
    v, plain, whole, frac = g.number('v')
    n = g.int('fractionDigits', 0)
    t = xsd.Decimal(fractionDigits=n)
    ok, r = attempt(t.accept, v)
    digits = len(frac) if frac is not None else 0
    if ok:
        g.check('accepted only if it has no more fraction digits', digits <= n)
        g.same('returned numerically unchanged', r, v)
    else:
        g.check('a number with exactly that many is not refused', digits != n)


@contract('C02', TARGETS, runs=600)
def integer_digits(g):
    """The digit facets of integer types."""
    v = g.int('v')
    n = g.int('totalDigits', 0)
    name = g.pick('type', ['Integer', 'Long', 'NonNegativeInteger', 'UnsignedByte'])
    t = getattr(xsd, name)(totalDigits=n)
    ok, r = attempt(t.accept, v)
    plain = getattr(xsd, name)()
    g.check('accepted exactly when in the value space and no longer than declared',
            ok == (attempt(plain.accept, v)[0] and len(str(abs(v))) <= n))


@contract('C02', TARGETS, runs=600)
def integer_pattern(g):
    """A pattern declared for an integer type is enforced in addition to the type's own."""
    v = g.int('v')
    p = g.pattern('p')
    name = g.pick('type', ['Integer', 'Int', 'PositiveInteger', 'UnsignedLong'])
    ok, r = attempt(getattr(xsd, name)(pattern=p).accept, v)
    g.check('accepted exactly when in the value space and matching',
            ok == (attempt(getattr(xsd, name)().accept, v)[0] and re.fullmatch(p, str(v)) is not None))


@contract('C02', TARGETS, runs=2000, seconds=300)
def all_facets_together(g):
    """Any subset of the facets, on integers."""
    v = g.int('v')
    facets = {}
    ok = True
    for b in BOUNDS:
        if g.bool('declares ' + b):
            facets[b] = g.int(b)
    ok = inside(v, facets.get('minInclusive'), facets.get('maxInclusive'), facets.get('minExclusive'),
                facets.get('maxExclusive'))
    if g.bool('declares enumeration'):
        e1, e2 = g.int('e1'), g.int('e2')
        facets['enumeration'] = [e1, e2]
        ok = ok and (v == e1 or v == e2)
    if g.bool('declares totalDigits'):
        facets['totalDigits'] = g.int('totalDigits', 0)
        ok = ok and len(str(abs(v))) <= facets['totalDigits']
    if g.bool('declares pattern'):
        facets['pattern'] = g.pattern('p')
        ok = ok and re.fullmatch(facets['pattern'], str(v)) is not None
    accepted, r = attempt(xsd.Decimal(**facets).accept, v)
    g.check('accepted exactly when every declared facet is satisfied', accepted == ok)


@contract('C02', TARGETS)
def other_values_refused(g):
    name = g.pick('type', ['Decimal', 'Double', 'Float'])
    v = g.pick('value', [lambda: g.opaque('o'), lambda: [], lambda: {}, lambda: (), lambda: b'1', lambda: object, 1j,
                         '', ' ', 'a', '1,5', '--1', '1-', '+', '1 2', 'None', 'true', '0x10', 'one'])
    ok, r = attempt(getattr(xsd, name)().accept, v)
    g.check('refused', not ok)


@contract('C02', TARGETS, runs=500)
def text_of_a_number(g):
    """Text of a number is accepted as the number it denotes."""
    name = g.pick('type', ['Decimal', 'Double', 'Float'])
    v = g.float('v', finite=True)
    ok, r = attempt(getattr(xsd, name)().accept, str(v))
    g.check('accepted', ok)
    g.same('read as the number', r, v)
