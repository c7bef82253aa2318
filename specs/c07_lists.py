"""C07 Repeated fields respect their occurrence limits."""
from lxml import etree

from soapfish import namespaces as ns
from soapfish import xsd
from vc.contract import contract

from . import shapes
from .lib import Writer, attempt

TARGETS = ['soapfish.xsd.TypedList.append', 'soapfish.xsd.ListElement.render', 'soapfish.xsd.ListElement.empty_value',
           'soapfish.xsd.ListElement.__init__', 'soapfish.xsd.ListElement.parse', 'soapfish.xsd.Element._evaluate_type']
NIL_ATTR = f'{{{ns.xsi}}}nil'


def limits(g):
    lo = g.pick('declared minimum', [None, lambda: g.int('minOccurs', 0)])
    hi = g.pick('declared maximum', [None, xsd.UNBOUNDED, lambda: g.int('maxOccurs', 0)])
    return lo, hi


def item(e):
    return e.pick('item', [lambda: e.opaque('v'), lambda: xsd.NIL, lambda: e.str('s'), lambda: e.int('n')])


@contract('C07', TARGETS, runs=400)
def append(g):
    p = Writer(g)
    lo, hi = limits(g)
    f = xsd.ListElement(g.pick('type given as', [lambda: p, lambda: lambda: p]), 'tag', minOccurs=lo, maxOccurs=hi,
                        nillable=g.bool('nillable'))
    L = f.empty_value()
    g.check('starts empty', len(L) == 0)
    before = g.list('before', item)
    list.extend(L, before)
    v = item(g)
    ok, r = attempt(L.append, v)
    fits = hi is None or len(before) + 1 <= hi
    g.check('appended exactly when it fits', ok == (fits and (f.nillable if v is xsd.NIL else p.ok(v))))
    if ok:
        g.same('as accepted, at the end', [x for x in L], before + [v if v is xsd.NIL else p.out(v)])
    else:
        g.same('as before', [x for x in L], before)


@contract('C07', TARGETS, runs=400)
def render(g):
    p = Writer(g)
    lo, hi = limits(g)
    own = g.pick('own namespace', [None, lambda: g.uri('own'), ''])
    outer = g.pick('namespace', [None, lambda: g.uri('outer')])
    form = g.pick('form', [None, xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED])
    f = xsd.ListElement(p, 'tag', minOccurs=lo, maxOccurs=hi, nillable=True, namespace=own)
    items = g.list('items', item)
    parent = etree.Element('parent')
    etree.SubElement(parent, 'earlier')
    ok, r = attempt(lambda: f.render(parent, 'field', items, outer, form))
    n = len(items)
    g.check('renders exactly when the number of items is within the limits',
            ok == ((lo is None or n >= lo) and (hi is None or n <= hi)))
    if not ok:
        return
    space = outer if own is None else own
    want = etree.Element('parent')
    etree.SubElement(want, 'earlier')
    for x in items:
        e = etree.SubElement(want, 'tag' if space is None or form != 'qualified' else '{' + space + '}tag')
        if x is xsd.NIL:
            e.set(NIL_ATTR, 'true')
        else:
            p.render(e, x, space, form)
    g.same('one element per item, in order', parent, want)


@contract('C07', TARGETS, runs=200)
def parse_appends(g):
    """A parsed element becomes one more item, under the same limits."""
    p = Writer(g)
    hi = g.pick('declared maximum', [None, xsd.UNBOUNDED, lambda: g.int('maxOccurs', 0)])

    class Model(xsd.ComplexType):
        items = xsd.ListElement(p, 'tag', maxOccurs=hi, nillable=g.bool('nillable'))
    f = Model.items
    o = Model()
    before = g.list('before', item)
    list.extend(o.items, before)
    e = etree.Element('tag')
    nil = g.pick('nil', [None, 'true', '1', 'false', '0', 'TRUE'])
    if nil is not None:
        e.set(NIL_ATTR, nil)
    e.text = g.xmltext('text')
    ok, r = attempt(lambda: f.parse(o, 'items', e))
    is_nil = nil == 'true' or nil == '1'
    v = xsd.NIL if is_nil else p.out(e.text)
    fits = hi is None or len(before) + 1 <= hi
    g.check('accepted exactly when it fits', ok == (fits and (f.nillable if is_nil else p.ok(v))))
    if ok:
        g.check('one more', len(o.items) == len(before) + 1)
        g.check('the parsed item at the end', o.items[-1] is (v if is_nil else p.out(v)))


@contract('C07', TARGETS, proof=False, runs=600)
def histories(g):
    """Appends and renderings of a list field of a generated type, through the public interface."""
    s = shapes.shape(g, 's', 1, kinds=('list', 'nested list'), max_fields=2)
    g.assume(len(s.fields) > 0)
    f = s.fields[0]
    f.min = g.pick('min', [None, 0, 1, 2, 3])
    f.max = g.pick('max', [None, 0, 1, 2, 3, xsd.UNBOUNDED])
    field = xsd.ListElement(f.field._passed_type, f.tag, minOccurs=f.min, maxOccurs=f.max, nillable=f.nillable)
    cls = type('Model', (xsd.ComplexType,), {f.py: field})
    o, state = cls(), []
    other = cls()
    for step in range(g.int('steps', 1, 8)):
        w = f'step {step}'
        what = g.pick(w, ['good', 'good', 'good', 'bad', 'nil', 'render'])
        L = getattr(o, f.py)
        if what == 'render':
            ok, r = attempt(o.xml, 'root')
            n = len(state)
            g.check('renders within the limits only', ok == ((f.min is None or n >= f.min) and (f.max is None or n <= f.max)))
            if ok:
                root = etree.fromstring(r)
                g.check('one element per item', len(root) == n and all(c.tag == f.tag for c in root))
                want = etree.Element('root')
                for x in state:
                    c = etree.SubElement(want, f.tag)
                    if x is xsd.NIL:
                        c.set(NIL_ATTR, 'true')
                    elif isinstance(x, dict):
                        shapes.expected(f.type, x, c)
                    else:
                        c.text = f.type.text(x)
                g.same('the elements', root, etree.fromstring(etree.tostring(want)))
        elif what == 'nil':
            ok, r = attempt(L.append, xsd.NIL)
            g.check('nil only in a nillable list with room', ok == (f.nillable and (f.max is None or len(state) < f.max)))
            if ok:
                state.append(xsd.NIL)
        elif what == 'bad':
            ok, r = attempt(L.append, object())
            g.check('a wrong item is refused', not ok)
        else:
            x = shapes.one(g, f, w, False)
            ok, r = attempt(L.append, shapes.build(g, f.type, x, w) if isinstance(x, dict) else x)
            g.check('an item is accepted while there is room', ok == (f.max is None or len(state) < f.max))
            if ok:
                state.append(x)
        now = [shapes.read(f.type, x) if isinstance(x, xsd.ComplexType) else x for x in getattr(o, f.py)]
        g.same('items', shapes.show(now), shapes.show(state))
        g.check('other object untouched', getattr(other, f.py) == [])
