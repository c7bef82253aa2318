"""C01 Integer types accept exactly their value space."""
from soapfish import xsd
from vc.contract import contract

from .lib import attempt, inside

# XML Schema part 2, section 3.3: the value space of each built-in integer type
RANGES = {
    'Integer': (None, None),
    'NonNegativeInteger': (0, None),
    'NonPositiveInteger': (None, 0),
    'NegativeInteger': (None, -1),
    'PositiveInteger': (1, None),
    'Long': (-2 ** 63, 2 ** 63 - 1),
    'Int': (-2 ** 31, 2 ** 31 - 1),
    'Short': (-2 ** 15, 2 ** 15 - 1),
    'Byte': (-2 ** 7, 2 ** 7 - 1),
    'UnsignedLong': (0, 2 ** 64 - 1),
    'UnsignedInt': (0, 2 ** 32 - 1),
    'UnsignedShort': (0, 2 ** 16 - 1),
    'UnsignedByte': (0, 2 ** 8 - 1),
}
TARGETS = ['soapfish.xsd.Integer.__init__', 'soapfish.xsd.Integer.accept', 'soapfish.xsd.Decimal._check_restrictions',
           'soapfish.xsd.Decimal.xmlvalue', 'soapfish.xsd.Decimal.pythonvalue']


def bounds(g):
    facets = {}
    for name in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
        if g.bool('declares ' + name):
            facets[name] = g.int(name)
    return facets


def in_space(name, facets, v):
    lo, hi = RANGES[name]
    return inside(v, lo, hi) and inside(v, facets.get('minInclusive'), facets.get('maxInclusive'),
                                        facets.get('minExclusive'), facets.get('maxExclusive'))


def make(name):
    def value_space(g):
        v = g.int('v')
        facets = bounds(g)
        t = getattr(xsd, name)(**facets)
        given = v if g.bool('given as number') else str(v)
        ok, r = attempt(t.accept, given)
        g.check('accepted exactly when inside the value space and the declared bounds', ok == in_space(name, facets, v))
        if ok:
            g.check('the accepted integer is returned unchanged', r == v)
            text = t.xmlvalue(r)
            g.check('rendered as its decimal text', text == str(v))
            g.check('the rendered text parses back to it', t.pythonvalue(text) == v)
    value_space.__name__ = 'value_space_' + name
    contract('C01', TARGETS, runs=400, seconds=120)(value_space)


for _name in RANGES:
    make(_name)


@contract('C01', TARGETS)
def text_read_with_signs_and_zeros(g):
    """Decimal text with leading zeros or a plus sign denotes the integer, too."""
    name = g.pick('type', list(RANGES))
    v = g.int('v', 0, 999)
    sign = g.pick('sign', ['', '+', '-'])
    text = sign + '{:03d}'.format(v)
    n = -v if sign == '-' else v
    t = getattr(xsd, name)()
    ok, r = attempt(t.accept, text)
    g.check('accepted exactly when the integer is inside the value space', ok == in_space(name, {}, n))
    if ok:
        g.check('read as the integer it denotes', r == n)


@contract('C01', TARGETS)
def other_values_refused(g):
    name = g.pick('type', list(RANGES))
    t = getattr(xsd, name)()
    v = g.pick('value', [lambda: g.float('f'), lambda: g.decimal('d'), lambda: g.opaque('o'), lambda: [], lambda: {},
                         lambda: (), lambda: b'1', lambda: object, 1j,
                         '', ' ', 'a', '1.0', '1.5', '1e3', '0x10', '--1', '1-', '+', '-', '1 2', 'nan', 'inf', 'None',
                         'true', '1,000', 'one'])
    ok, r = attempt(t.accept, v)
    g.check('refused', not ok)


@contract('C01', TARGETS)
def missing_value(g):
    name = g.pick('type', list(RANGES))
    g.check('None stays None', getattr(xsd, name)().accept(None) is None)


@contract('C01', TARGETS)
def declared_enumeration(g):
    """Bounds declared through other facets narrow the value space, too."""
    name = g.pick('type', list(RANGES))
    v, e1, e2 = g.int('v'), g.int('e1'), g.int('e2')
    t = getattr(xsd, name)(enumeration=[e1, e2])
    ok, r = attempt(t.accept, v)
    g.check('accepted exactly when enumerated and inside the value space',
            ok == (in_space(name, {}, v) and (v == e1 or v == e2)))
