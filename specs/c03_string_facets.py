"""C03 String facets are enforced on the normalised text."""
import re

from soapfish import xsd
from vc.contract import contract

from .lib import attempt

TARGETS = ['soapfish.xsd.String.__init__', 'soapfish.xsd.String.accept', 'soapfish.xsd.String._clean_whitespace']
MODES = [None, 'preserve', 'replace', 'collapse']


def normalised(mode, v):
    """XML Schema part 2, section 4.3.6"""
    if mode == 'replace' or mode == 'collapse':
        v = v.replace('\t', ' ').replace('\n', ' ').replace('\r', ' ')
    if mode == 'collapse':
        v = re.sub(' +', ' ', v).strip(' ')
    return v


def make_type(g, facets, mode):
    """Facets are given to the constructor or defined in a class."""
    if mode is not None:
        facets['whiteSpace'] = mode
    if g.bool('facets defined in a class'):
        class Special(xsd.String):
            pass
        for k, v in facets.items():
            setattr(Special, k, v)
        return Special()
    return xsd.String(**facets)


@contract('C03', TARGETS, runs=1500, seconds=200)
def facets_on_normalised_text(g):
    v = g.str('v')
    mode = g.pick('whiteSpace', MODES)
    n = normalised(mode, v)
    facets, ok = {}, True
    if g.bool('declares length'):
        facets['length'] = g.int('length', 0)
        ok = ok and len(n) == facets['length']
    if g.bool('declares minLength'):
        facets['minLength'] = g.int('minLength', 0)
        ok = ok and len(n) >= facets['minLength']
    if g.bool('declares maxLength'):
        facets['maxLength'] = g.int('maxLength', 0)
        ok = ok and len(n) <= facets['maxLength']
    if g.bool('declares pattern'):
        facets['pattern'] = g.pattern('pattern')
        ok = ok and re.fullmatch(facets['pattern'], n) is not None
    accepted, r = attempt(make_type(g, facets, mode).accept, v)
    g.check('accepted exactly when the normalised text satisfies all facets', accepted == ok)
    if accepted:
        g.check('the normalised text is returned', r == n)


@contract('C03', TARGETS, runs=800)
def enumeration_of_normalised_text(g):
    v = g.str('v')
    mode = g.pick('whiteSpace', MODES)
    n = normalised(mode, v)
    values = g.list('enumeration', lambda e: e.str('value'), min=1)
    accepted, r = attempt(make_type(g, {'enumeration': values}, mode).accept, v)
    g.check('accepted exactly when enumerated', accepted == (n in values))
    if accepted:
        g.check('the normalised text is returned', r == n)


@contract('C03', TARGETS, runs=1000)
def enumeration_with_other_facets(g):
    v, a, b = g.str('v'), g.str('a'), g.str('b')
    n = g.int('maxLength', 0)
    accepted, r = attempt(xsd.String(enumeration=[a, b], maxLength=n).accept, v)
    g.check('accepted exactly when enumerated and short enough', accepted == ((v == a or v == b) and len(v) <= n))


@contract('C03', TARGETS)
def no_facet_declared(g):
    v = g.str('v')
    mode = g.pick('whiteSpace', [None, 'preserve'])
    ok, r = attempt(make_type(g, {}, mode).accept, v)
    g.check('any text is accepted', ok)
    g.check('and left alone', r == v)


@contract('C03', TARGETS)
def anything_but_text_refused(g):
    name = g.pick('type', ['String', 'AnyURI', 'QName', 'NMTOKEN', 'Base64Binary', 'Duration'])
    v = g.pick('value', [lambda: g.int('i'), lambda: g.float('f'), lambda: g.decimal('d'), lambda: g.opaque('o'),
                         lambda: g.bool('b'), lambda: [], lambda: ['a'], lambda: {}, lambda: (), lambda: b'abc',
                         lambda: object, 1j])
    ok, r = attempt(getattr(xsd, name)().accept, v)
    g.check('refused', not ok)


@contract('C03', TARGETS)
def rendered_text(g):
    """The text of an accepted value is the value, and parsing gives it back."""
    v = g.str('v')
    t = xsd.String()
    g.check('rendered unchanged', t.xmlvalue(v) == v)
    g.check('parsed unchanged', t.pythonvalue(v) == v)
