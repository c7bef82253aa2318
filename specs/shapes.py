"""Generated model classes and objects for the native checks, with an independent description of their documents."""
import datetime
import decimal

from lxml import etree

from soapfish import namespaces as ns
from soapfish import xsd
from soapfish.xsd_types import XSDDate

UTC = datetime.timezone.utc
TEXTS = ['a', 'ab c', 'x<y&z>', 'é漢', '"q"', "it's", ' lead', 'true', '0', '12', 'a\nb', ']]>', '{x}y', 'nil', 'x' * 50]
INTS = [0, 1, -1, 7, 42, 100, -128, 127]
TIMES = [datetime.time(0, 0, 0), datetime.time(23, 59, 59), datetime.time(5, 6, 7)]
NAMES = ['x', 'name', 'Item', 'value', 'a_b', 'ident', 'Code', 'n', 'Body', 'entry', 'kind', 'ID']
TAGS = ['tag', 'Value', 'some-tag', 'import', 'class', 'X', 'name', 'text']


def tz(minutes):
    return datetime.timezone(datetime.timedelta(minutes=minutes))


class Simple:
    def __init__(self, code, make, values, text, eq=None):
        self.code, self.make, self.values, self.text = code, make, values, text


def off_text(d):
    m = int(d.total_seconds()) // 60
    s = '-' if m < 0 else '+'
    return '%s%02d:%02d' % (s, abs(m) // 60, abs(m) % 60)


SIMPLE = [
    Simple('string', lambda: xsd.String(), TEXTS, str),
    Simple('string class', lambda: xsd.String, TEXTS, str),
    Simple('enumeration', lambda: xsd.String(enumeration=['A', 'B', 'c d']), ['A', 'B', 'c d'], str),
    Simple('short string', lambda: xsd.String(minLength=1, maxLength=3), ['a', 'abc', 'é漢'], str),
    Simple('integer', lambda: xsd.Integer, INTS + [10 ** 20], str),
    Simple('int', lambda: xsd.Int, INTS + [2 ** 31 - 1, -2 ** 31], str),
    Simple('byte', lambda: xsd.Byte(), INTS, str),
    Simple('unsigned', lambda: xsd.UnsignedShort, [0, 1, 65535], str),
    Simple('bounded', lambda: xsd.Int(minInclusive=-1, maxInclusive=100), [-1, 0, 100], str),
    Simple('boolean', lambda: xsd.Boolean, [True, False], lambda v: 'true' if v else 'false'),
    Simple('decimal', lambda: xsd.Decimal, [decimal.Decimal('0.5'), decimal.Decimal('0'), decimal.Decimal('12.25'), decimal.Decimal('-3')], str),
    Simple('double', lambda: xsd.Double, [0.5, 12.25, -3.0], repr),
    Simple('date', lambda: xsd.Date, [XSDDate(2020, 2, 29), XSDDate(999, 1, 1)],
           lambda v: '%04d-%02d-%02d' % (v.year, v.month, v.day)),
    Simple('datetime', lambda: xsd.DateTime,
           [datetime.datetime(2020, 2, 29, 1, 2, 3, tzinfo=UTC), datetime.datetime(1999, 12, 31, 23, 59, 59, tzinfo=tz(-90)),
            datetime.datetime(2011, 6, 30, 0, 0, 0, tzinfo=tz(345))],
           lambda v: v.strftime('%Y-%m-%dT%H:%M:%S') + off_text(v.utcoffset())),
    Simple('time', lambda: xsd.Time, TIMES, lambda v: v.strftime('%H:%M:%S')),
]


BAD = {'string': [5, 1.5, b'a', True], 'enumeration': ['C', 'a', 5, ''], 'short string': ['', 'abcd', 3],
       'integer': ['x', 1.5, '1.5', b'1'], 'int': [2 ** 31, -2 ** 31 - 1, 'x', 0.5], 'byte': [128, -129, '200', '', 2.0],
       'unsigned': [-1, 65536, '-1', 'x'], 'bounded': [-2, 101, '101', 1.0], 'boolean': [2, 'true', 'yes', -1],
       'decimal': ['x', b'1'], 'double': ['x', b'1'], 'date': ['2020-01-01x', 5, 'x'], 'datetime': [5], 'time': [5]}
NORM = {'integer': [('12', 12), ('-7', -7)], 'int': [('5', 5)], 'byte': [('-128', -128)], 'unsigned': [('65535', 65535)],
        'bounded': [('100', 100)], 'boolean': [(1, True), (0, False)]}


class Field:
    pass


class Shape:
    """A generated class: cls, fields in declaration order."""


def shape(g, at, depth=2, base=xsd.ComplexType, attributes=True, kinds=None, max_fields=4, names=None, indicator=None,
          ns_choices=(None, None, None, 'urn:other', ''), defaults=True, used=None, refs=True, indicators=None):
    s = Shape()
    s.fields = []
    s.base = base
    used = set() if used is None else used
    n = g.int(at + ' fields', 0 if base is xsd.ComplexType else 1, max_fields)
    body = {'__module__': __name__}
    for k in range(n):
        w = f'{at}.{k}'
        f = Field()
        choices = ['element', 'element', 'list', 'nested', 'nested list']
        if attributes:
            choices += ['attribute', 'attribute']
        if refs and base is xsd.ComplexType:
            choices.append('group')
        if kinds:
            choices = [c for c in choices if c in kinds]
        f.kind = g.pick(w + ' kind', choices)
        if f.kind in ('nested', 'nested list', 'group') and depth <= 0:
            f.kind = 'list' if f.kind == 'nested list' else 'element'
        f.py = g.pick(w + ' name', NAMES)
        while f.py in used:
            f.py += '_'
        f.tag = g.pick(w + ' tag', [None, None] + TAGS) if f.kind not in ('list', 'nested list', 'group') else \
            None if f.kind == 'group' else g.pick(w + ' tag', TAGS)
        xml = f.tag or f.py
        if xml in used or f.py in used:
            f.tag = xml + f'_{k}' + at.replace('.', '_').replace(' ', '_')
        used.update((f.py, f.tag or f.py))
        f.xml = f.tag or f.py
        f.nillable = g.bool(w + ' nillable') and f.kind not in ('attribute', 'group')
        f.min, f.max, f.default, f.ns, f.use = 1, None, None, None, None
        if f.kind in ('nested', 'nested list'):
            f.type = shape(g, w, depth - 1, attributes=attributes, max_fields=max_fields, ns_choices=ns_choices,
                           defaults=defaults, refs=refs, indicators=indicators)
            t = g.pick(w + ' as', [lambda: f.type.cls, lambda: f.type.cls()])
        elif f.kind == 'group':
            f.type = shape(g, w, 0, xsd.Group, attributes=False, max_fields=2, used=used, ns_choices=(None,), defaults=False)
            t = f.type.cls
        else:
            f.type = g.pick(w + ' type', SIMPLE)
            t = f.type.make()
        if f.kind in ('element', 'nested'):
            f.min = g.pick(w + ' minOccurs', [1, 0])
            f.ns = g.pick(w + ' ns', list(ns_choices))
            if f.kind == 'element' and defaults and g.pick(w + ' default', [False, False, True]):
                f.default = g.pick(w + ' default value', f.type.values)
            f.field = xsd.Element(t, minOccurs=f.min, tagname=f.tag, nillable=f.nillable, default=f.default, namespace=f.ns)
        elif f.kind == 'attribute':
            f.use = g.pick(w + ' use', [xsd.Use.OPTIONAL, xsd.Use.REQUIRED])
            if defaults and g.pick(w + ' default', [False, False, True]):
                f.default = g.pick(w + ' default value', f.type.values)
            f.field = xsd.Attribute(t, use=f.use, tagname=f.tag, default=f.default)
        elif f.kind == 'group':
            f.field = xsd.Ref(t, minOccurs=1)
        else:
            f.min = g.pick(w + ' minOccurs', [None, 0, 1, 2])
            f.max = g.pick(w + ' maxOccurs', [None, xsd.UNBOUNDED, 2, 3])
            f.ns = g.pick(w + ' ns', list(ns_choices))
            f.field = xsd.ListElement(t, f.tag, minOccurs=f.min, maxOccurs=f.max, nillable=f.nillable, namespace=f.ns)
        body[f.py] = f.field
        s.fields.append(f)
    if indicators:
        indicator = g.pick(at + ' indicator', indicators)
    if indicator is not None:
        body['INDICATOR'] = indicator
    s.cls = type(base)(g.pick(at + ' class', ['Model', 'Thing', 'Order']) + at.replace('.', '_').replace(' ', '_'), (base,), body)
    return s


def value(g, s, at, complete=False):
    """A value for every field (None where missing); complete: every field required by the schema is present."""
    v = {}
    for k, f in enumerate(s.fields):
        w = f'{at}.{k}'
        if f.kind == 'group':
            v[f.py] = value(g, f.type, w, complete)
        elif f.kind in ('list', 'nested list'):
            n = g.int(w + ' n', f.min or 0, 3 if f.max is None else min(3, int(f.max) if f.max.is_finite() else 3)) \
                if isinstance(f.max, decimal.Decimal) else g.int(w + ' n', f.min or 0, 3 if f.max is None else f.max)
            v[f.py] = [xsd.NIL if f.nillable and g.pick(f'{w}.{i} nil', [False, False, True]) else one(g, f, f'{w}.{i}', complete)
                       for i in range(n)]
        else:
            must = f.use == xsd.Use.REQUIRED or complete and f.min and f.kind != 'attribute'
            state = g.pick(w + ' state', ['value', 'value', 'value', 'nil', 'missing'])
            if state == 'nil' and f.nillable:
                v[f.py] = xsd.NIL
            elif state == 'missing' and not must and f.default is None:
                v[f.py] = None
            else:
                v[f.py] = one(g, f, w, complete)
    return v


def one(g, f, w, complete):
    if f.kind in ('nested', 'nested list'):
        return value(g, f.type, w, complete)
    return g.pick(w + ' value', f.type.values)


def build(g, s, v, at):
    """The model object holding v."""
    how = g.pick(at + ' built', ['constructor', 'attributes'])
    def py(f, x, w):
        return build(g, f.type, x, w) if isinstance(x, dict) else x
    if how == 'constructor':
        o = s.cls(**{f.py: py(f, v[f.py], f'{at}.{f.py}') for f in s.fields
                     if f.kind in ('element', 'nested', 'attribute') and v[f.py] is not None})
    else:
        o = s.cls()
        for f in s.fields:
            if f.kind in ('element', 'nested', 'attribute') and v[f.py] is not None:
                setattr(o, f.py, py(f, v[f.py], f'{at}.{f.py}'))
    for f in s.fields:
        if f.kind in ('list', 'nested list'):
            for i, x in enumerate(v[f.py]):
                getattr(o, f.py).append(py(f, x, f'{at}.{f.py}.{i}'))
        elif f.kind == 'group':
            fill(g, getattr(o, f.py), f.type, v[f.py], f'{at}.{f.py}')
    return o


def fill(g, o, s, v, at):
    for f in s.fields:
        x = v[f.py]
        if isinstance(x, list):
            for i, y in enumerate(x):
                getattr(o, f.py).append(build(g, f.type, y, f'{at}.{f.py}.{i}') if isinstance(y, dict) else y)
        elif x is not None:
            setattr(o, f.py, build(g, f.type, x, f'{at}.{f.py}') if isinstance(x, dict) else x)


def expected(s, v, e, namespace=None, qualified=False, schema=None):
    """Adds to e what the document of v must contain."""
    for f in s.fields:
        x = v[f.py]
        if f.kind == 'group':
            expected(f.type, x, e, namespace, qualified)
        elif f.kind == 'attribute':
            if x is not None:
                e.set(f.xml, f.type.text(x))
        else:
            for y in x if isinstance(x, list) else [] if x is None else [x]:
                own = f.ns if f.ns is not None else namespace
                c = etree.SubElement(e, f'{{{own}}}{f.xml}' if own is not None and qualified else f.xml)
                if y is xsd.NIL:
                    c.set(f'{{{ns.xsi}}}nil', 'true')
                elif isinstance(y, dict):
                    expected(f.type, y, c, own, qualified)
                else:
                    c.text = f.type.text(y)


def read(s, o):
    """The value an object holds."""
    v = {}
    for f in s.fields:
        x = getattr(o, f.py)
        if f.kind == 'group':
            v[f.py] = read(f.type, x)
        elif isinstance(x, list):
            v[f.py] = [read(f.type, y) if isinstance(y, xsd.ComplexType) else y for y in x]
        else:
            v[f.py] = read(f.type, x) if isinstance(x, xsd.ComplexType) else x
    return v


def initial(s):
    return {f.py: initial(f.type) if f.kind == 'group' else [] if f.kind in ('list', 'nested list') else f.default
            for f in s.fields}


def show(v):
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    if isinstance(v, list):
        return [show(x) for x in v]
    if isinstance(v, (datetime.datetime, datetime.time)) and v.tzinfo is not None:
        return v.replace(tzinfo=None).isoformat() + off_text(v.utcoffset())
    if isinstance(v, decimal.Decimal):
        v = float(v)
    return 'NIL' if v is xsd.NIL else repr(v)
