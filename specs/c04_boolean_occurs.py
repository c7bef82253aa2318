"""C04 Boolean and occurrence-limit texts map one to one."""
import decimal

from soapfish import xsd
from vc.contract import contract

from .lib import attempt

TARGETS = ['soapfish.xsd.Boolean.accept', 'soapfish.xsd.Boolean.xmlvalue', 'soapfish.xsd.Boolean.pythonvalue',
           'soapfish.xsd.MaxOccurs.accept', 'soapfish.xsd.MaxOccurs.xmlvalue', 'soapfish.xsd.MaxOccurs.pythonvalue']


@contract('C04', TARGETS, runs=600)
def boolean_accepts_truth_values_only(g):
    v = g.pick('value', [lambda: g.bool('b'), lambda: g.int('i'), lambda: g.float('f'), lambda: g.decimal('d'),
                         lambda: g.str('s'), lambda: g.opaque('o'), lambda: [], lambda: [True], lambda: {},
                         lambda: (), lambda: b'true'])
    ok, r = attempt(xsd.Boolean().accept, v)
    if isinstance(v, (bool, int, float, decimal.Decimal)):
        g.check('accepted exactly when equal to a truth value', ok == (v == 0 or v == 1))
        if ok:
            g.check('stored as a truth value', r is True or r is False)
            g.check('stored as the equal one', r == (v == 1))
    else:
        g.check('refused', not ok)


@contract('C04', TARGETS)
def boolean_rendered(g):
    b = g.bool('b')
    t = xsd.Boolean()
    text = t.xmlvalue(b)
    g.check("'true' for true, 'false' for false", text == ('true' if b else 'false'))
    back = t.pythonvalue(text)
    g.check('parsed back as truth value', back is True or back is False)
    g.check('parsed back as the same one', back == b)


@contract('C04', TARGETS, runs=600)
def boolean_texts_parsed(g):
    s = g.str('s')
    g.assume(s != 'nil')
    ok, r = attempt(xsd.Boolean().pythonvalue, s)
    g.check('exactly the four lexical forms are read', ok == (s in ('true', '1', 'false', '0')))
    if ok:
        g.check('as a truth value', r is True or r is False)
        g.check('as the right one', r == (s in ('true', '1')))


@contract('C04', TARGETS, runs=400)
def number_of_occurrences(g):
    n = g.int('n', 0)
    t = xsd.MaxOccurs()
    g.check('accepted unchanged', t.accept(n) == n)
    text = t.xmlvalue(n)
    g.check('rendered as its decimal text', text == str(n))
    g.check('read back', t.pythonvalue(text) == n)
    g.check('never unbounded', not (t.pythonvalue(text) == xsd.UNBOUNDED))


@contract('C04', TARGETS)
def no_limit(g):
    t = xsd.MaxOccurs()
    u = g.pick('unbounded', [xsd.UNBOUNDED, decimal.Decimal('infinity'), float('inf'), 'unbounded'])
    r = t.accept(u)
    g.check('accepted as no limit', r == xsd.UNBOUNDED)
    g.check("rendered as 'unbounded'", t.xmlvalue(r) == 'unbounded')
    g.check('read back', t.pythonvalue('unbounded') == xsd.UNBOUNDED)


@contract('C04', TARGETS)
def missing_limit(g):
    g.check('None stays None', xsd.MaxOccurs().accept(None) is None and xsd.Boolean().accept(None) is None)
