"""C26 Generated Python code reproduces the schema it came from."""
import decimal
import gc
import inspect
import keyword
import os
import re
import sys
import tempfile
import types
import urllib.parse

import jinja2
import requests
from lxml import etree

from soapfish import py2wsdl, py2xsd, soap, utils, wsa, wsdl, wsdl2py, xsd, xsd2py, xsdspec
from soapfish.core import SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher
from vc.contract import contract

from .c16_xsd import got_simple, q
from .lib import attempt, settled

settled(xsdspec)

COMPILED = {}
SETTINGS = ('block_start_string', 'block_end_string', 'variable_start_string', 'variable_end_string', 'comment_start_string',
            'comment_end_string', 'line_statement_prefix', 'line_comment_prefix', 'trim_blocks', 'lstrip_blocks', 'newline_sequence',
            'keep_trailing_newline', 'sandboxed', 'optimized', 'undefined', 'finalize', 'autoescape', 'is_async')


def compiled_once(compiler):
    """Jinja takes much longer to compile a template than to render it: equal templates in equal environments are compiled once."""
    def compile(self, source, *args, **more):
        if not isinstance(source, str):
            return compiler(self, source, *args, **more)
        key = (source, args, tuple(more.items()), *[getattr(self, name) for name in SETTINGS], tuple(self.extensions),
               *[(name, getattr(f, '__code__', f)) for names in (self.filters, self.tests) for name, f in sorted(names.items())])
        try:
            if key not in COMPILED:
                COMPILED[key] = compiler(self, source, *args, **more)
            return COMPILED[key]
        except TypeError:  # something in it has no hash
            return compiler(self, source, *args, **more)
    return compile


jinja2.Environment.compile = compiled_once(jinja2.Environment.compile)

TARGETS = ['soapfish.xsd2py.generate_code_from_xsd', 'soapfish.xsd2py.schema_to_py', 'soapfish.xsd2py.resolve_import',
           'soapfish.xsd2py.rewrite_paths', 'soapfish.xsd2py._reorder_complexTypes', 'soapfish.utils.get_rendering_environment',
           'soapfish.xsd2py.find_xsd_namespaces', 'soapfish.utils.remove_namespace', 'soapfish.utils.schema_select',
           'soapfish.utils.resolve_location', 'soapfish.wsdl.get_by_name', 'soapfish.wsdl.get_message_header',
           'soapfish.wsdl.get_message_object', 'soapfish.wsdl2py.generate_code_from_wsdl', 'soapfish.wsdl2py.merge_imports',
           'soapfish.wsdl2py.reorder_schemas', 'soapfish.py2xsd.generate_xsd', 'soapfish.py2wsdl.generate_wsdl']
X = 'http://www.w3.org/2001/XMLSchema'
W = 'http://schemas.xmlsoap.org/wsdl/'
TNS = 'urn:generated'
# The first two have digests that begin with the same twelve digits
SPACES = ['urn:2509048', 'urn:15975291', 'urn:file2', "http://x/it's?a=b", 'urn:a', 'urn:a/b']

# (base, facets, texts that are valid)
LOCAL = [('string', [('enumeration', 'A'), ('enumeration', "it's"), ('enumeration', 'a"b\\')], ['A', "it's"]),
         ('string', [('minLength', '1'), ('maxLength', '3')], ['a', 'abc']),
         ('string', [('length', '2')], ['ab']),
         ('string', [('pattern', r"[a-c]+\d*'?")], ['abc12', "a'"]),
         ('string', [('whiteSpace', 'collapse')], ['a b']),
         ('int', [('minInclusive', '-5'), ('maxInclusive', '100')], ['-5', '7']),
         ('integer', [('minInclusive', '0'), ('maxExclusive', '10')], ['0', '9']),
         ('decimal', [('minExclusive', '0'), ('maxExclusive', '10.5'), ('fractionDigits', '2')], ["0.25", "10.25"]),
         ('decimal', [('totalDigits', '4'), ('fractionDigits', '1')], ["123.4", "-1.5"]),
         ('decimal', [('fractionDigits', '0')], ['12']),
         ('int', [('enumeration', '1'), ('enumeration', '-20')], ['1', '-20']),
         ('decimal', [('enumeration', '0.1'), ('enumeration', '3')], ['0.1', '3']),
         ('integer', [('minInclusive', '007'), ('maxInclusive', '+100')], ['7', '100']),
         ('integer', [('maxExclusive', '100000000000000000000001')], ['100000000000000000000000']),
         ('decimal', [('minInclusive', '0.10'), ('maxInclusive', '99999999999999999.99')], ['0.1', '7.5']),
         ('decimal', [('minInclusive', '-.5'), ('maxExclusive', '5.')], ['-0.5', '4.75']),
         ('double', [('minInclusive', '-INF'), ('maxInclusive', '1E3')], ['1000.0', '-0.25']),
         ('float', [('minExclusive', '0'), ('maxInclusive', 'INF')], ['1000.5', '0.25']),
         ('string', [('minLength', '01'), ('maxLength', '08')], ['abcdefgh'])]
BUILTIN = [('string', ['a b', '<&>', 'é']), ('int', ['0', '-7']), ('boolean', ['true', 'false']), ('decimal', ['1.5']),
           ('date', ['2020-02-29']), ('dateTime', ['2020-02-29T01:02:03+00:00']), ('time', ['01:02:03']), ('long', ['5']),
           ('integer', ['100000000000000000000']), ('double', ['0.5']), ('unsignedShort', ['65535']), ('positiveInteger', ['1'])]
NAMES = ['x', 'name', 'Item', 'value', 'a_b', 'ident', 'some-name', 'class', 'from', 'Code', 'n.m', 'None', 'entry', 'xml', 'create', 'cls', 'instance', 'xsd', 'render', '_meta', 'SCHEMA', '__x', '__init__']
TYPES = ['order', 'Item', 'code', 'line-item', 'Base.type', 'address', 'kindOf', 'import', 'True', 'ID', 'schema_x', 'person']


def low(name):
    """The name that the generated class gives its type: a Python name."""
    name = ''.join(c if c.isalnum() else '_' for c in name)
    if keyword.iskeyword(name[0].upper() + name[1:]):
        name = '_' + name[0].upper() + name[1:]
    return name if name in ('QName', 'NMTOKEN', 'NMTOKENS') else name[0].lower() + name[1:]


NUMBERS = ['int', 'integer', 'decimal', 'double', 'float']
WHOLE = {'integer': (None, None), 'int': (-2 ** 31, 2 ** 31 - 1), 'long': (-2 ** 63, 2 ** 63 - 1)}


def as_number(text):
    if isinstance(text, decimal.Decimal):
        return text
    text = text.strip()
    return text.removeprefix('+') if text.lstrip('+-') in ('INF', 'NaN') else decimal.Decimal(text)


def plain(t, root=None):
    """A restriction without the facets that its base has anyhow, with numbers for what they are."""
    kind, ns, base, values, facets = t
    root = root or (base if ns == X else None)
    if root in WHOLE:
        lo, hi = WHOLE[root]
        implied = {'pattern': '[-+]?[0-9]+', 'fractionDigits': '0', 'minInclusive': str(lo), 'maxInclusive': str(hi)}
        facets = {k: v for k, v in facets.items() if implied.get(k) not in (v, str(v))}
    if root in NUMBERS:
        values = [as_number(v) for v in values]
    facets = {k: v if k in ('pattern', 'whiteSpace') else as_number(v) for k, v in facets.items()}
    return kind, ns, base, values, facets


def python(name):
    return name.lower().replace('-', '_').replace('.', '_')


class Doc:
    """A schema document that is being made, with what it says."""

    def __init__(self, g, at, namespace, used):
        self.g, self.at, self.namespace, self.used = g, at, namespace, used
        self.p = g.pick(at + ' prefix', ['xs', 'xsd', None])
        self.simple, self.complex, self.elements, self.groups = {}, {}, {}, {}
        nsmap = {self.p: X, 'tns': namespace}
        self.x = etree.Element('{%s}schema' % X, nsmap=nsmap)
        self.x.set('targetNamespace', namespace)
        self.form = g.pick(at + ' form', [None, 'qualified', 'unqualified'])
        if self.form is not None:
            self.x.set('elementFormDefault', self.form)

    def b(self, name):
        return f'{self.p}:{name}' if self.p else name

    def sub(self, e, tag, **attributes):
        return etree.SubElement(e, '{%s}%s' % (X, tag), attributes)

    def fresh(self, at, names, used=None):
        used = self.used if used is None else used
        name = self.g.pick(at, names)
        while python(name) in used:
            name += 'x'
        used.add(python(name))
        return name

    def restriction(self, e, local, base=None):
        base_name, facets, texts = local
        r = self.sub(e, 'restriction', base=base or self.b(base_name))
        for k, v in facets:
            self.sub(r, k, value=v)
        return ('restriction', X, base_name, [v for k, v in facets if k == 'enumeration'],
                {k: v for k, v in facets if k != 'enumeration'})

    def simple_type(self, at):
        name = self.fresh(at + ' name', TYPES)
        e = self.sub(self.x, 'simpleType', name=name)
        if self.bases() and self.g.bool(at + ' restricts a named type'):
            self.simple[name] = self.refined(e, at)
        else:
            local = self.g.pick(at + ' restricts', LOCAL)
            self.simple[name] = self.restriction(e, local), local[2]

    def bases(self):
        """Types that others may restrict (libxml2 has none below exclusive bounds, nor two levels below others)."""
        def usable(t):
            return not {'minExclusive', 'maxExclusive'} & {*t[4]} and (t[1] == X or t[1] == self.namespace and not any(
                k.startswith('m') for n, (x, _) in self.simple.items() if low(n) == t[2] for k in x[4]) and low_of(t))

        def low_of(t):
            return all(x[1] == X for n, (x, _) in self.simple.items() if low(n) == t[2])
        return sorted(n for n, (t, _) in self.simple.items() if usable(t))

    def refined(self, e, at, of=None, base=None, prefix='tns'):
        """A restriction of a named type: some of its values."""
        of = of or self
        base = base or self.g.pick(at + ' its base', of.bases())
        texts = of.simple[base][1]
        texts = texts[:self.g.int(at + ' values', 1, len(texts))]
        r = self.sub(e, 'restriction', base=f'{prefix}:{base}')
        for v in texts:
            self.sub(r, 'enumeration', value=v)
        return ('restriction', of.namespace, low(base), texts, {}), texts

    def attribute(self, e, at, used):
        g = self.g
        name = self.fresh(at + ' name', NAMES, used)
        use = g.pick(at + ' use', [None, 'optional', 'required'])
        if self.simple and g.bool(at + ' named'):
            t = g.pick(at + ' type', sorted(self.simple))
            a = self.sub(e, 'attribute', name=name, type='tns:' + t)
            want = (name, use or 'optional', self.namespace, low(t))
            texts = self.simple[t][1]
        else:
            t, texts = g.pick(at + ' type', BUILTIN)
            a = self.sub(e, 'attribute', name=name, type=self.b(t))
            want = (name, use or 'optional', X, t)
        if use:
            a.set('use', use)
        return want, texts

    def element(self, box, at, used, depth, single=False):
        g = self.g
        name = self.fresh(at + ' name', NAMES, used)
        e = self.sub(box, 'element', name=name)
        lo = g.pick(at + ' min', [None, '0', '1'] if single else [None, '0', '1', '2'])
        hi = g.pick(at + ' max', [None, '1'] if single or lo != '2' and g.bool(at + ' one') else ['2', 'unbounded', '10'])
        if lo is not None:
            e.set('minOccurs', lo)
        if hi is not None:
            e.set('maxOccurs', hi)
        nil = g.pick(at + ' nillable', [None, None, 'true', 'false'])
        if nil is not None:
            e.set('nillable', nil)
        kind = g.pick(at + ' kind', ['builtin', 'simple', 'complex', 'local', 'inline'])
        inner = None
        if kind == 'inline' and depth > 0:
            c = self.sub(e, 'complexType')
            inner = self.content(c, at, depth - 1)
            t = ('complex', inner)
        elif kind == 'local':
            local = g.pick(at + ' restricts', LOCAL)
            t = self.restriction(self.sub(e, 'simpleType'), local)
            inner = local[2]
        elif kind == 'simple' and self.simple:
            n = g.pick(at + ' type', sorted(self.simple))
            e.set('type', 'tns:' + n)
            t, inner = ('ref', self.namespace, low(n)), self.simple[n][1]
        elif kind == 'complex' and self.planned:
            n = g.pick(at + ' type', self.planned)
            e.set('type', 'tns:' + n)
            t, inner = ('ref', self.namespace, low(n)), n
        else:
            n, inner = g.pick(at + ' type', BUILTIN)
            e.set('type', self.b(n))
            t = ('ref', X, n)
        return (name, lo or '1', hi or '1', nil == 'true', t), inner

    def content(self, c, at, depth, base=None, of=None):
        """Fills a complex type (or extension): (kind, elements, attributes, inners)."""
        g = self.g
        inherited = {python(n) for n, *_ in base[1] + base[2]} if base else set()
        used = {python(n) for n in [*self.groups, *(of or self).groups]} | inherited
        kind = g.pick(at + ' content', ['sequence', 'sequence', 'sequence', 'choice', 'all']) if base is None else 'sequence'
        elements, attributes = [], []
        if base is None or g.pick(at + ' has elements', [True, True, False]):
            box = self.sub(c, kind)
            n = g.int(at + ' elements', 0 if kind == 'sequence' else 1, 3)
            elements = [self.element(box, f'{at}.{k}', used, depth, kind == 'all')[0] for k in range(n)]
        attributes = [self.attribute(c, f'{at}.a{k}', used)[0] for k in range(g.int(at + ' attributes', 0, 2))]
        for name, group in self.groups.items():
            names = {python(n) for n, *_ in group}
            if not names & used and python(name) not in inherited and g.bool(f'{at} {name}'):
                used |= names
                self.sub(c, 'attributeGroup', ref='tns:' + name)
                attributes += group
        return kind, elements, attributes

    def attribute_group(self, at):
        name = self.fresh(at + ' name', TYPES)
        e = self.sub(self.x, 'attributeGroup', name=name)
        used = set()
        self.groups[name] = [self.attribute(e, f'{at}.{k}', used)[0] for k in range(self.g.int(at + ' attributes', 1, 2))]

    def restricted(self, e, at, base):
        """A restriction that says all elements again, more strictly: required, or fewer."""
        kind, elements, attributes = base
        box = self.sub(e, kind)
        out = []
        for k, (name, lo, hi, nil, (how, *t)) in enumerate(elements):
            w = f'{at}.{k}'
            c = self.sub(box, 'element', name=name)
            c.set('nillable', 'true' if nil else 'false')
            c.set('type', self.b(t[1]) if t[0] == X else 'tns:' + self.original[t[1]])
            if lo == '0' and self.g.bool(w + ' now required'):
                lo = '1'
            if hi == 'unbounded' and self.g.bool(w + ' now bounded'):
                hi = '7'
            c.set('minOccurs', lo)
            c.set('maxOccurs', hi)
            out.append((name, lo, hi, nil, (how, *t)))
        return kind, out, attributes


def got_type(e):
    if e.get('type') is not None:
        assert not len(e)
        return ('ref', *q(e, e.get('type')))
    assert len(e) == 1
    return plain(got_simple(e[0])) if etree.QName(e[0]).localname == 'simpleType' else ('complex', got_complex(e[0]))


def got_complex(e):
    boxes = [c for c in e if c.tag != '{%s}attribute' % X]
    assert len(boxes) <= 1 and all(c.tag == '{%s}element' % X for b in boxes for c in b)
    return (etree.QName(boxes[0]).localname if boxes else None,
            [(c.get('name'), c.get('minOccurs', '1'), c.get('maxOccurs', '1'), c.get('nillable') == 'true', got_type(c))
             for b in boxes for c in b],
            sorted((c.get('name'), c.get('use', 'optional'), *q(c, c.get('type'))) for c in e if c.tag == '{%s}attribute' % X))


def loaded(code):
    name = 'soapfish_generated_code'
    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(compile(code, name, 'exec'), m.__dict__)
    return m


def schema_of(m):
    return [v for v in vars(m).values() if isinstance(v, xsd.Schema)][-1]


def document(g, at='D', namespace=TNS, used=None, most=3):
    d = Doc(g, at, namespace, set() if used is None else used)
    for k in range(g.int(at + ' simple types', 0, most)):
        d.simple_type(f'{at}.s{k}')
    for k in range(g.int(at + ' attribute groups', 0, 1)):
        d.attribute_group(f'{at}.g{k}')
    n = g.int(at + ' complex types', 0, most)
    d.planned = [d.fresh(f'{at}.c{k} name', TYPES) for k in range(n)]
    d.original = {low(n): n for n in [*d.simple, *d.planned]}
    for k, name in enumerate(d.planned):
        w = f'{at}.c{k}'
        c = d.sub(d.x, 'complexType', name=name)
        if k and g.pick(w + ' derived', [False, False, True]):
            base = g.pick(w + ' base', d.planned[:k])
            inherited = d.complex[base]
            if inherited[0] == 'sequence':
                if all(t[0] == 'ref' for *_, t in inherited[1]) and g.bool(w + ' restricts'):
                    e = d.sub(d.sub(c, 'complexContent'), 'restriction', base='tns:' + base)
                    d.complex[name] = d.restricted(e, w, inherited)
                else:
                    e = d.sub(d.sub(c, 'complexContent'), 'extension', base='tns:' + base)
                    own = d.content(e, w, 1, inherited)
                    d.complex[name] = ('sequence', inherited[1] + own[1], inherited[2] + own[2])
                continue
        d.complex[name] = d.content(c, w, 1)
    for k in range(g.int(at + ' elements', 1, most)):
        w = f'{at}.e{k}'
        name = d.fresh(w + ' name', TYPES)
        e = d.sub(d.x, 'element', name=name)
        nil = g.pick(w + ' nillable', [None, None, 'true', 'false'])
        if nil is not None:
            e.set('nillable', nil)
        kind = g.pick(w + ' kind', ['builtin', 'simple', 'complex', 'local', 'inline'])
        if kind == 'inline':
            t = ('complex', d.content(d.sub(e, 'complexType'), w, 1))
        elif kind == 'local':
            t = d.restriction(d.sub(e, 'simpleType'), g.pick(w + ' restricts', LOCAL))
        elif kind == 'simple' and d.simple:
            n = g.pick(w + ' type', sorted(d.simple))
            e.set('type', 'tns:' + n)
            t = ('ref', namespace, low(n))
        elif kind == 'complex' and d.planned:
            n = g.pick(w + ' type', d.planned)
            e.set('type', 'tns:' + n)
            t = ('ref', namespace, low(n))
        else:
            n, _ = g.pick(w + ' type', BUILTIN)
            e.set('type', d.b(n))
            t = ('ref', X, n)
        d.elements[name] = (nil == 'true', t)
    order = list(d.x)
    g_order = g.pick(at + ' order', ['as made', 'reversed', 'elements first'])
    if g_order == 'reversed':
        d.x[:] = order[::-1]
    elif g_order == 'elements first':
        d.x[:] = [c for c in order if c.tag.endswith('}element')] + [c for c in order if not c.tag.endswith('}element')]
    return d


def said(x):
    """What a document says: simple types, complex types, elements."""
    names = {}
    for c in x:
        t = etree.QName(c).localname
        key = (t, c.get('name') if t == 'element' else low(c.get('name')))
        assert key not in names
        names[key] = plain(got_simple(c)) if t == 'simpleType' else got_complex(c) if t == 'complexType' else \
            (c.get('nillable') == 'true', got_type(c))
    return names


def ordered(t):
    """The order of attributes says nothing."""
    if t[0] == 'restriction':
        return plain(t)
    if t[0] == 'complex':
        return ('complex', ordered(t[1]))
    if len(t) == 3 and isinstance(t[1], list):
        return t[0], [(*e[:4], ordered(e[4])) for e in t[1]], sorted(t[2])
    return t


def wanted(d, others=()):
    return resolved(wanted_of(d), d, others)


def resolved(names, d, others=()):
    """The facets of simple types with those that they inherit: they may be said again."""
    known = {(o.namespace, n): t for o in [*others, d] for (kind, n), t in wanted_of(o).items() if kind == 'simpleType'}

    def root(t):
        return t[2] if t[1] == X else root(known[t[1], t[2]])

    def facets(t):
        if t[0] == 'complex':
            return ('complex', facets(t[1]))
        if len(t) == 3 and isinstance(t[1], list):
            return t[0], [(*e[:4], facets(e[4])) for e in t[1]], t[2]
        if t[0] != 'restriction' or t[1] == X:
            return t
        base = facets(known[t[1], t[2]])
        return plain((*t[:3], t[3] or base[3], {**base[4], **t[4]}), root(t))
    return {k: (t[0], facets(t[1])) if k[0] == 'element' else facets(t) for k, t in names.items()}


def wanted_of(d):
    return {**{('simpleType', low(n)): plain(t) for n, (t, _) in d.simple.items()},
            **{('complexType', low(n)): ordered(t) for n, t in d.complex.items()},
            **{('element', n): (nil, ordered(t)) for n, (nil, t) in d.elements.items()}}


def texts_of(d, t):
    """Texts of a simple type."""
    if t[0] == 'restriction' and t[1] != X:
        return t[3]
    if t[0] == 'restriction':
        return [x for b, f, texts in LOCAL for x in texts if (b, [v for k, v in f if k == 'enumeration'],
                {k: v for k, v in f if k != 'enumeration'}) == (t[2], t[3], t[4])]
    return dict(BUILTIN)[t[2]] if t[1] == X else d.simple[d.original[t[2]]][1]


def fill(g, d, e, content, at, depth):
    """Puts into e what a type with this content may have."""
    g.assume(depth)
    kind, elements, attributes = content
    for name, use, ns, t in attributes:
        if use == 'required' or g.bool(f'{at}@{name}'):
            e.set(name, g.pick(f'{at}@{name} value', texts_of(d, ('ref', ns, t))))
    if kind == 'choice':
        elements = [g.pick(at + ' chosen', elements)]
    for name, lo, hi, nil, t in elements:
        w = f'{at}/{name}'
        most = 1 if hi == '1' else 3
        for k in range(g.int(w + ' times', max(int(lo), kind == 'choice'), min(most, 10 if hi == 'unbounded' else int(hi)))):
            c = etree.SubElement(e, f'{{{d.namespace}}}{name}' if d.form == 'qualified' else name)
            inner = t[1] if t[0] == 'complex' else d.complex.get(d.original.get(t[2])) if t[0] == 'ref' and t[1] != X else None
            if nil and g.bool(f'{w} {k} nil') and not (inner and any(a[1] == 'required' for a in inner[2])):
                c.set('{http://www.w3.org/2001/XMLSchema-instance}nil', 'true')
            elif inner:
                fill(g, d, c, inner, f'{w}.{k}', depth - 1)
            else:
                c.text = g.pick(f'{w} {k} value', texts_of(d, t))


def text_seen(text):
    """Decimal numbers may be written with or without a fraction of zero."""
    return text[:-2] if text[-2:] == '.0' and text[:-2].isdigit() else text


def seen(e):
    """What an element says."""
    return e.tag, {k: text_seen(v) for k, v in e.attrib.items()}, text_seen(e.text or '') if not len(e) else '', [seen(c) for c in e]


@contract('C26', TARGETS, proof=False, runs=4000, seconds=150)
def instances(g):
    """Documents of a schema are read and written by the generated classes."""
    d = document(g)
    m = loaded(xsd2py.generate_code_from_xsd(etree.tostring(d.x)))
    schema = schema_of(m)
    roots = filled(d)
    g.assume(roots)
    name = g.pick('root', list(roots))
    content = roots[name]
    x = etree.Element(f'{{{d.namespace}}}{name}')
    fill(g, d, x, content, 'x', 4)
    text = etree.tostring(x)
    g.note(etree.tostring(d.x).decode() + text.decode())
    assert etree.XMLSchema(etree.fromstring(etree.tostring(d.x))).validate(etree.fromstring(text))
    element = schema.elements[name]
    element._evaluate_type()
    o = type(element._type).parsexml(text, schema=schema)
    y = etree.fromstring(o.xml(name, namespace=d.namespace, elementFormDefault=schema.elementFormDefault))
    g.check('the same document', seen(y) == seen(x), etree.tostring(y).decode())


@contract('C26', TARGETS, proof=False, runs=4000, seconds=150)
def documents(g):
    """Code generated from any schema document imports, and the schema it defines says the same again."""
    d = document(g)
    text = etree.tostring(d.x)
    etree.XMLSchema(etree.fromstring(text))
    code = xsd2py.generate_code_from_xsd(text)
    g.note(text.decode())
    g.note(code.decode())
    m = loaded(code)
    schema = schema_of(m)
    y = etree.fromstring(etree.tostring(py2xsd.generate_xsd(schema)))
    g.check('namespace', y.get('targetNamespace') == d.namespace)
    g.check('form', y.get('elementFormDefault', 'unqualified') == (d.form or 'unqualified'))
    got, want = resolved(said(y), d), wanted(d)
    g.check('the same content', got == want, repr([(k, got.get(k), want.get(k)) for k in {*got, *want} if got.get(k) != want.get(k)]))
    etree.XMLSchema(y)


def crossed(g, docs, k, at):
    """Adds elements of types of other documents: what must be imported, and which elements there are now."""
    d, others = docs[k], [o for o in docs[:k] if o.planned or o.simple]
    if not others or not g.bool(at + ' uses others'):
        return []
    seen = []
    for i in range(g.int(at + ' uses', 1, 2)):
        o = g.pick(f'{at} other {i}', others)
        t = g.pick(f'{at} its type {i}', [*o.planned, *o.simple])
        name = d.fresh(f'{at} cross {i}', TYPES)
        how = g.pick(f'{at} how {i}', ['element', 'derived', 'local'])
        if how == 'derived' and t in o.complex and o.complex[t][0] == 'sequence':
            c = etree.SubElement(d.x, '{%s}complexType' % X, {'name': name}, nsmap={'o': o.namespace})
            own = d.content(d.sub(d.sub(c, 'complexContent'), 'extension', base='o:' + t), f'{at} derived {i}', 1, o.complex[t], o)
            d.complex[name] = ('sequence', o.complex[t][1] + own[1], o.complex[t][2] + own[2])
        elif how == 'derived' and t in o.bases():
            e = etree.SubElement(d.x, '{%s}simpleType' % X, {'name': name}, nsmap={'o': o.namespace})
            d.simple[name] = d.refined(e, f'{at} derived {i}', o, t, 'o')
        elif how == 'local' and t in o.bases():
            e = etree.SubElement(d.x, '{%s}element' % X, {'name': name}, nsmap={'o': o.namespace})
            d.elements[name] = (False, d.refined(d.sub(e, 'simpleType'), f'{at} local {i}', o, t, 'o')[0])
        else:
            etree.SubElement(d.x, '{%s}element' % X, {'name': name, 'type': 'o:' + t}, nsmap={'o': o.namespace})
            d.elements[name] = (False, ('ref', o.namespace, low(t)))
        if o not in seen:
            seen.append(o)
    return seen


def imported(d, o, **more):
    """Inserts an import of the other document."""
    d.x.insert(0, etree.Element('{%s}import' % X, {'namespace': o.namespace, **more}))


FOLDERS = ['', 'a/', 'a/b/', "it's c d/"]


def relative(to, at):
    return os.path.relpath(to, os.path.dirname(at) or '.')


OPERATIONS = ['getIt', 'Put', 'x-y', 'import', 'é', 'a.b', 'call', 'xsd', 'soap', 'request', 'SERVICE', 'Item', 'Code', 'print']
ACTIONS = [None, 'urn:a', 'http://x/?a=1&b=2', "it's", 'a\\b', '']
PARTS = ['body', 'parameters', 'x-y', 'from', 'request', 'self', 'header', 'part.1']
PORTS = ['Port', 'my-port', 'a.b', 'import', 'P1']
PLACES = ['http://x/', 'http://x:8080/a/b?c=d', "https://x/it's", 'http://x', 'http://user@x/a%20b']


def local_name(e):
    return etree.QName(e).localname


def filled(d):
    """The elements that are known to hold something, and what."""
    return {n: t[1] if t[0] == 'complex' else d.complex[d.original[t[2]]] for n, (_, t) in d.elements.items()
            if t[0] == 'complex' or t[0] == 'ref' and t[1] == d.namespace and d.original.get(t[2]) in d.complex}


class Wsdl:
    """A WSDL document that is being made, with what it says."""

    def __init__(self, g, talking=False):
        self.g, self.talking = g, talking
        self.version = g.pick('version', [11, 12])
        self.soap = 'http://schemas.xmlsoap.org/wsdl/soap/' if self.version == 11 else 'http://schemas.xmlsoap.org/wsdl/soap12/'
        used, self.docs = set(), []
        for k in range(g.int('schemas', 1, 2)):
            self.docs.append(document(g, f'D{k}', SPACES[k], used))
            for o in crossed(g, self.docs, k, f'D{k}'):
                imported(self.docs[k], o)
            if g.bool(f'D{k} imports the namespace of XML'):
                self.docs[k].x.insert(0, etree.Element('{%s}import' % X, namespace='http://www.w3.org/XML/1998/namespace'))
        self.namespace = g.pick('namespace', ['urn:service', "urn:it's", SPACES[0]])
        self.x = etree.Element('{%s}definitions' % W, nsmap={'wsdl': W, 'soap': self.soap, 'me': self.namespace, 'xs': X,
                                                               **{f's{k}': d.namespace for k, d in enumerate(self.docs)}})
        self.x.set('targetNamespace', self.namespace)
        self.schemas = self.docs if g.bool('schemas in order') else self.docs[::-1]
        self.sub(self.x, 'types').text = 'SCHEMAS'
        self.operations, self.headers, names = [], {}, set()
        port_type = etree.Element('{%s}portType' % W, name='Type')
        binding = etree.Element('{%s}binding' % W, name='Binding', type='me:Type')
        style = g.pick('style', [None, 'document', 'rpc'])
        b = etree.SubElement(binding, '{%s}binding' % self.soap, transport='http://schemas.xmlsoap.org/soap/http')
        if style:
            b.set('style', style)
        for k in range(g.int('operations', 0, 3)):
            at = f'm{k}'
            name = g.pick(at + ' name', OPERATIONS)
            while python(name) in names:
                name += 'x'
            names.add(python(name))
            action = g.pick(at + ' action', ACTIONS)
            own_style = g.pick(at + ' style', [None, 'document', 'rpc'])
            p = self.sub(port_type, 'operation', name=name)
            o = self.sub(binding, 'operation', name=name)
            a = etree.SubElement(o, '{%s}operation' % self.soap)
            if action is not None:
                a.set('soapAction', action)
            if own_style:
                a.set('style', own_style)
            said_ = []
            for way in ('input', 'output'):
                m = f'{g.pick(at + way, ["Message", "a.b", "from"])}{k}{way}'
                self.sub(p, way, message='me:' + m)
                message = self.sub(self.x, 'message', name=m)
                part = g.pick(f'{at} {way} part', PARTS)
                attribute, text, qname = self.content(f'{at} {way}')
                self.sub(message, 'part', name=part).set(attribute, text)
                bound = self.sub(o, way)
                etree.SubElement(bound, '{%s}body' % self.soap, use='literal')
                self.header(bound, f'{at} {way}', m, part)
                said_.append((attribute, qname, part))
            self.operations.append((name, action, own_style or style or 'document', *said_))
        self.x.append(port_type)
        self.x.append(binding)
        self.beside(port_type, binding)
        self.ports, service = [], self.sub(self.x, 'service', name='Service')
        for k in range(g.int('ports', 1, 2)):
            name = g.pick(f'p{k}', PORTS) + 'x' * k
            place = g.pick(f'p{k} location', PLACES)
            port = self.sub(service, 'port', name=name, binding='me:Binding')
            etree.SubElement(port, '{%s}address' % self.soap, location=place)
            self.ports.append((name, place))

    def sub(self, e, tag, **attributes):
        return etree.SubElement(e, '{%s}%s' % (W, tag), attributes)

    def beside(self, port_type, binding):
        """What no port uses, and what only people read."""
        g = self.g
        if g.bool('another port type'):
            other = self.sub(self.x, 'portType', name='Other')
            for k, p in enumerate(port_type):
                message = self.sub(self.x, 'message', name=f'Other{k}')
                self.sub(message, 'part', name='other', element='s0:' + sorted(self.docs[0].elements)[0])
                o = self.sub(other, 'operation', name=p.get('name'))
                for way in ('input', 'output'):
                    self.sub(o, way, message=f'me:Other{k}')
            if g.bool('another binding'):
                another = self.sub(self.x, 'binding', name='OtherBinding', type='me:Other')
                etree.SubElement(another, '{%s}binding' % self.soap, transport='http://schemas.xmlsoap.org/soap/http')
                for p in port_type:
                    o = self.sub(another, 'operation', name=p.get('name'))
                    etree.SubElement(o, '{%s}operation' % self.soap, soapAction='urn:other')
                    for way in ('input', 'output'):
                        etree.SubElement(self.sub(o, way), '{%s}body' % self.soap, use='literal')
        if g.bool('faults'):
            for p, o in zip(port_type, list(binding)[1:]):
                self.sub(p, 'fault', name='Failed', message='me:Failed')
                etree.SubElement(self.sub(o, 'fault', name='Failed'), '{%s}fault' % self.soap, name='Failed', use='literal')
        if g.bool('documented'):
            for e in list(self.x.iter('{%s}*' % W)):
                if local_name(e) in ('portType', 'operation', 'message', 'binding', 'input'):
                    d = etree.Element('{%s}documentation' % W)
                    d.text = 'What it is: "x"'
                    e.insert(0, d)

    def text(self, x=None):
        """The schemas are put in as they are, with the prefixes they have."""
        return etree.tostring(self.x if x is None else x).replace(b'SCHEMAS', b''.join(etree.tostring(d.x) for d in self.schemas))

    def content(self, at, elements_only=False):
        """What a part says, and what it means."""
        g = self.g
        k = g.int(at + ' schema', 0, len(self.docs) - 1)
        d = self.docs[k]
        kind = 'element' if elements_only or self.talking else g.pick(at + ' by', ['element', 'element', 'type', 'builtin'])
        if kind == 'builtin':
            t = g.pick(at + ' type', ['string', 'int', 'boolean'])
            return 'type', 'xs:' + t, (X, t)
        if kind == 'type' and d.planned:
            t = g.pick(at + ' type', d.planned)
            return 'type', f's{k}:{t}', (d.namespace, low(t))
        names = sorted(d.elements)
        if self.talking and filled(d):
            names = sorted(filled(d))
        name = g.pick(at + ' element', names)
        return 'element', f's{k}:{name}', (d.namespace, name)

    def header(self, bound, at, message, body):
        g = self.g
        if not g.bool(at + ' has a header'):
            return
        k = g.int(at + ' header schema', 0, len(self.docs) - 1)
        d, name = self.docs[k], at.replace(' ', '')
        self.sub(self.x, 'message', name='Head' + name)
        blocks, used = [], set()
        for i in range(g.int(at + ' header parts', 1, 2)):
            part = d.fresh(f'{at} header part {i}', PARTS, used)
            element = g.pick(f'{at} header element {i}', sorted(d.elements))
            self.sub(self.x[-1], 'part', name=part, element=f's{k}:{element}')
            etree.SubElement(bound, '{%s}header' % self.soap, message='me:Head' + name, part=part, use='literal')
            blocks.append((d.namespace, element))
        self.headers[message] = blocks


@contract('C26', TARGETS, proof=False, runs=4000, seconds=150)
def services(g):
    """Code generated from any WSDL document imports; its service has the same operations, and describes them again."""
    w = Wsdl(g)
    text = w.text()
    target = g.pick('target', ['client', 'server'])
    g.note(text.decode())
    check_code(g, w, wsdl2py.generate_code_from_wsdl(text, target, g.bool('addressing')), target)


@contract('C26', TARGETS, proof=False, runs=4000, seconds=150)
def services_apart(g):
    """The same for documents in several files, each of which imports some others."""
    w = Wsdl(g)
    n = g.int('files', 1, 3)
    paths = ['main.wsdl'] + [g.pick(f'folder {k}', FOLDERS) + f'file{k}.wsdl' for k in range(1, n + 1)]
    parts = [etree.Element(w.x.tag, w.x.attrib, nsmap=w.x.nsmap) for _ in paths]
    for k, c in enumerate(list(w.x)):
        parts[g.int(f'{k} is in', 0, n)].append(c)
    for k in range(1, n + 1):
        for j in {g.int(f'{k} imported by', 0, k - 1), g.int(f'{k} also imported by', 0, k - 1)}:
            parts[j].insert(0, etree.Element('{%s}import' % W, namespace=w.namespace, location=relative(paths[k], paths[j])))
    target = g.pick('target', ['client', 'server'])
    extra = None
    if g.bool('a schema of its own'):
        extra = document(g, 'E', 'urn:extra', w.docs[0].used)
        at = next(path for path, x in zip(paths, parts) if any(c.tag == '{%s}types' % W for c in x))
        extra.path = g.pick('its folder', FOLDERS) + 'extra.xsd'
        imported(g.pick('imported by', w.docs), extra, schemaLocation=relative(extra.path, at))
    with tempfile.TemporaryDirectory() as folder:
        if extra:
            os.makedirs(os.path.dirname(os.path.join(folder, extra.path)), exist_ok=True)
            with open(os.path.join(folder, extra.path), 'wb') as f:
                f.write(etree.tostring(extra.x))
        for path, x in zip(paths, parts):
            place = os.path.join(folder, path)
            os.makedirs(os.path.dirname(place), exist_ok=True)
            with open(place, 'wb') as f:
                f.write(w.text(x))
        g.note('\n'.join(w.text(x).decode() for x in parts))
        start = folder
        if g.bool('remote'):
            start = served(g, folder)
        if g.bool('program'):
            out = os.path.join(folder, 'out.py')
            wsdl2py.main(['--' + target, start + '/main.wsdl', out])
            gc.collect()
            with open(out, 'rb') as o:
                code = o.read()
        else:
            code = wsdl2py.generate_code_from_wsdl(w.text(parts[0]), target, cwd=start)
    m = check_code(g, w, code, target)
    if extra:
        schema = [v for v in vars(m).values() if isinstance(v, xsd.Schema) and v.targetNamespace == extra.namespace]
        g.check('the schema apart', len({id(x) for x in schema}) == 1)
        g.check('with its content', resolved(said(etree.fromstring(etree.tostring(py2xsd.generate_xsd(schema[0])))), extra) == wanted(extra))


def check_code(g, w, code, target):
    g.note(code.decode())
    m = loaded(code)
    found = {v.name: v for k, v in vars(m).items() if isinstance(v, soap.Service)}
    g.check('a service for each port', sorted(found) == sorted(name for name, _ in w.ports))
    for name, place in w.ports:
        s = found[name]
        g.check('namespace', s.targetNamespace == w.namespace)
        g.check('version', s.version.NAME == f'soap{w.version}')
        scheme, rest = place.split('://')
        host, *path = rest.split('/', 1)
        g.check('location', s.location == '${scheme}://${host}' + ''.join('/' + p for p in path))
        methods = list(s.methods)
        g.check('operations', [(x.operationName, x.soapAction, getattr(x.style, 'value', x.style)) for x in methods]
                == [o[:3] for o in w.operations])
        for x, (op, action, style, asked, answered) in zip(methods, w.operations):
            for content, part, header, (by, (ns, local), wanted_part), way in (
                    (x.input, x.inputPartName, x.input_header, asked, 'input'),
                    (x.output, x.outputPartName, x.output_header, answered, 'output')):
                if by == 'element':
                    g.check('parts', content == local and part == wanted_part)
                else:
                    g.check('types', isinstance(content, type) and
                            content is getattr(xsd if ns == X else m, local[0].upper() + local[1:] if ns == X else class_name(local)))
                message = [v for v in w.headers if v.endswith(f'{w.operations.index((op, action, style, asked, answered))}{way}')]
                blocks = w.headers[message[0]] if message else []
                got = [(f.namespace, f.tagname or f._name) for f in header._meta.fields if f not in xsd.ComplexType._meta.fields
                       and f not in wsa.Header._meta.fields] if header else []
                g.check('headers', sorted(got) == sorted(blocks), (got, blocks))
        check_again(g, w, s)
        if target == 'client':
            check_stub(g, w, m, s, scheme, host)
        else:
            g.check('functions', all(callable(x.function) and not isinstance(x.function, type) for x in methods))
            if all('type' not in (asked[0], answered[0]) for *_, asked, answered in w.operations):
                SOAPDispatcher(s)  # it can be served
    return m


class Answer:
    def __init__(self, r):
        self.headers, self.content = r.http_headers, r.http_content


@contract('C26', TARGETS, proof=False, runs=3000, seconds=100)
def conversations(g):
    """The stub and the service in generated code understand each other: what one side says, the other side hears."""
    w = Wsdl(g, talking=True)
    contents = {(d.namespace, n): (d, content) for d in w.docs for n, content in filled(d).items()}
    talks = [(k, asked[1], answered[1]) for k, (_, action, _, asked, answered) in enumerate(w.operations)
             if asked[0] == 'element' and asked[1] in contents and answered[0] == 'element' and answered[1] in contents
             and not any((o[1] == action if action else o[3][1] == asked[1]) for o in w.operations[:k])]
    g.assume(talks)
    text = w.text()
    m = loaded(wsdl2py.generate_code_from_wsdl(text, 'client'))
    g.note(text.decode())
    service = next(v for v in vars(m).values() if isinstance(v, soap.Service))
    stub = next(v for v in vars(m).values() if isinstance(v, type) and issubclass(v, soap.Stub) and v.SERVICE is service)

    def document_of(name, at):
        d, content = contents[name]
        x = etree.Element('{%s}%s' % name)
        fill(g, d, x, content, at, 4)
        element = service.find_element_by_name(name[1])
        element._evaluate_type()
        g.note(etree.tostring(x).decode())
        return x, type(element._type).parsexml(etree.tostring(x))

    def header_of(cls, at):
        """Some of the declared blocks, and what they say."""
        blocks = [(f.namespace, f.tagname or f._name) for f in cls._meta.fields] if cls else []
        if cls is None or len(set(blocks)) < len(blocks) or not g.bool(at):
            return None, None
        header, said_ = cls(), {}
        for f in cls._meta.fields:
            name = (f.namespace, f.tagname or f._name)
            if name in contents and g.bool(f'{at} {f._name}'):
                x, o = document_of(name, f'{at} {f._name} value')
                setattr(header, f._name, o)
                said_[f._name] = (name, seen(x))
        return header, said_

    def same_header(way, header, said_):
        if said_ is not None and (said_ or header is not None):
            g.check(way + ' header', {f._name: ((f.namespace, f.tagname or f._name),
                                                written(getattr(header, f._name), (f.namespace, f.tagname or f._name)))
                                      for f in type(header)._meta.fields if getattr(header, f._name) is not None} == said_)

    def written(o, name):
        return seen(etree.fromstring(o.xml(name[1], namespace=name[0], elementFormDefault=o.SCHEMA.elementFormDefault)))
    k, asked, answered = g.pick('operation', talks)
    x, question = document_of(asked, 'x')
    y, answer = document_of(answered, 'y')
    heard = []

    method = service.methods[k]
    header, sent = header_of(method.input_header, 'header')
    reply_header, replied = header_of(method.output_header, 'reply header')

    def handler(request, content):
        heard.append((content, request.soap_header))
        return SOAPResponse(answer, soap_header=reply_header)
    for j, method in enumerate(service.methods):
        method.function = handler if j == k else None
    d = SOAPDispatcher(service)

    def post(url, auth=None, headers=None, data=None, **more):
        g.note(data.decode())
        env = {'REQUEST_METHOD': 'POST', **{'HTTP_' + h.upper().replace('-', '_'): v for h, v in headers.items()}}
        env['CONTENT_TYPE'] = env.pop('HTTP_CONTENT_TYPE', None)
        return Answer(d.dispatch(SOAPRequest(env, data)))
    g.override(requests.post, post)
    member = [v for v in vars(stub).values() if callable(v)][k]
    r = member(stub(), question, header=header)
    g.check('asked once', len(heard) == 1)
    g.check('what was asked', written(heard[0][0], asked) == seen(x))
    same_header('its', heard[0][1], sent)
    same_header('the answer\'s', r.soap_header, replied)
    g.check('what was answered', written(r.soap_body, answered) == seen(y))


def class_name(local):
    """The class of a type of this (generated) name."""
    name = local[0].upper() + local[1:]
    return f'_{name}' if keyword.iskeyword(name) else name


def check_stub(g, w, m, s, scheme, host):
    stub = next(v for v in vars(m).values() if isinstance(v, type) and issubclass(v, soap.Stub) and v.SERVICE is s)
    g.check('stub', (stub.SCHEME, stub.HOST) == (scheme, host))
    members = [v for k, v in vars(stub).items() if callable(v)]
    g.check('as many methods', len(members) == len(w.operations))
    calls = []

    class Recording(stub):
        def call(self, *args, **kw):
            calls.append((args, kw))
    o = Recording.__new__(Recording)
    for f in members:
        f(o, 'value')
    g.check('calls', calls == [((op[0], 'value'), {'header': None}) for op in w.operations])


def check_again(g, w, s):
    """The service describes the same operations and schemas."""
    d = etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(s)))
    g.note(etree.tostring(d).decode())
    for o in w.docs:
        x = [x for x in d.iter('{%s}schema' % X) if x.get('targetNamespace') == o.namespace]
        g.check('one schema', len(x) == 1)
        x = [c for c in x[0] if c.tag != '{%s}import' % X]
        got = resolved(said(x), o, w.docs)
        g.check('schemas', got == wanted(o, w.docs), repr((got, wanted(o, w.docs))))
    parts = {}
    for e in d.iter('{%s}message' % W):
        p = e[0]
        parts[e.get('name')] = ('element', q(p, p.get('element'))) if p.get('element') else ('type', q(p, p.get('type')))
    got = [(e.get('name'), *[parts[c.get('message').split(':')[1]] for c in e])
           for e in d.iter('{%s}operation' % W) if e.getparent().tag == '{%s}portType' % W]
    g.check('the same operations', got == [(op[0], op[3][:2], op[4][:2]) for op in w.operations], repr(got))
    bound = [(e.getparent().get('name'), e.get('soapAction'), e.get('style')) for e in d.iter('{%s}operation' % w.soap)]
    g.check('the same actions', bound == [op[:3] for op in w.operations], repr(bound))


class Files:
    """Schema documents in several files, each of which refers to some of those before it."""

    def __init__(self, g, documents=(1, 4), most=3):
        self.g, used = g, set()
        self.docs, self.refs, self.included = [], [], []
        n = g.int('documents', *documents)
        for k in range(n):
            at = f'D{k}'
            # Some have the namespace of one that includes them, or leave it out:
            d = document(g, at, SPACES[k], used, most)
            d.path = f'file{k}.xsd' if k == n - 1 else self.place(at, f'file{k}.xsd')
            self.docs.append(d)
            others = crossed(g, self.docs, k, at)
            if k == n - 1:
                others += [o for o in self.docs[:-1] if o not in others and not any(o in refs for refs in self.refs)]
            for o in self.docs[:k]:
                if o not in others and g.pick(f'{at} refers to {o.at}', [False, False, True]):
                    others.append(o)
            for o in others:
                imported(d, o, schemaLocation=relative(o.path, d.path))
            self.refs.append(others)
        for k in range(g.int('included', 0, 2)):
            at = f'I{k}'
            into = g.pick(at + ' into', self.docs)
            d = document(g, at, into.namespace, used, most)
            if g.bool(at + ' without namespace') and not (d.simple or d.planned or d.groups):
                del d.x.attrib['targetNamespace']
            d.path = self.place(at, f'included{k}.xsd')
            into.x.insert(0, etree.Element('{%s}include' % X, schemaLocation=relative(d.path, into.path)))
            self.included.append((into, d))

    def place(self, at, name):
        """Files in different folders may have the same name."""
        folder = self.g.pick(at + ' folder', FOLDERS)
        common = folder + self.g.pick(at + ' file name', [name, 'types.xsd'])
        return common if all(d.path != common for d in [*self.docs, *[d for _, d in self.included]]) else folder + name

    def write(self, folder):
        for d in self.docs + [d for _, d in self.included]:
            path = os.path.join(folder, d.path)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(etree.tostring(d.x))


def served(g, folder):
    """The files of a folder are at a place in the web."""
    place = g.pick('place', ['http://host', 'https://host:8080/a/b'])

    def fetch(path):
        assert path.startswith(place + '/'), path
        with open(os.path.join(folder, path.removeprefix(place + '/')), 'rb') as x:
            return x.read()
    g.override(utils.open_document, fetch)
    return place


def schemas_of(schema, seen):
    """The schemas that are reached from one."""
    if schema not in seen:
        seen.append(schema)
        for x in [*schema.imports, *schema.includes]:
            schemas_of(x, seen)
    return seen


@contract('C26', TARGETS, proof=False, runs=4000, seconds=150)
def files(g):
    """Every document that is imported or included, from anywhere, is taken in once, and says the same again."""
    check_files(g, Files(g))


@contract('C26', TARGETS, proof=False, runs=4000, seconds=150)
def graphs_of_files(g):
    """The same for more documents of less content."""
    check_files(g, Files(g, (3, 6), 1))


def check_files(g, f):
    with tempfile.TemporaryDirectory() as folder:
        f.write(folder)
        main = f.docs[-1]
        g.note('\n'.join(etree.tostring(d.x).decode() for d in f.docs + [d for _, d in f.included]))
        how, remote = g.pick('how', ['function', 'program', 'WSDL']), g.bool('remote')
        text = etree.tostring(main.x)
        place = served(g, folder) if remote else folder
        if how == 'function':
            code = xsd2py.generate_code_from_xsd(text, cwd=place)
        elif how == 'program':
            out = os.path.join(folder, 'out.py')
            xsd2py.main([f'{place}/{main.path}', out])
            gc.collect()
            with open(out, 'rb') as o:
                code = o.read()
        else:
            code = wsdl2py.generate_code_from_wsdl(WITH_TYPES.replace(b'SCHEMAS', text), 'client', cwd=place)
    g.note(code.decode())
    defined = [line for line in code.decode().splitlines() if line.startswith('class ')]
    g.check('each class once', len(defined) == len(set(defined)))
    m = loaded(code)
    mains = [v for k, v in vars(m).items() if isinstance(v, xsd.Schema) and v.targetNamespace == main.namespace and v.location is None]
    g.check('one main schema', len({id(x) for x in mains}) == 1)
    root = place.split('/', 3)[3] + '/' if remote and place.count('/') > 2 else ''
    by_place = {x.location.split('//', 1)[1].split('/', 1)[1].removeprefix(root) if x.location else main.path: x
                for x in schemas_of(mains[0], [])}
    everything = [(d, d.path) for d in f.docs] + [(d, d.path) for _, d in f.included]
    g.check('all documents', sorted(by_place) == sorted(path for _, path in everything), repr(sorted(by_place)))
    for d, path in everything:
        schema = by_place[path]
        g.check('namespace', schema.targetNamespace == d.namespace, path)
        x = etree.fromstring(etree.tostring(py2xsd.generate_xsd(schema)))
        got, want = resolved(said_of(x), d, f.docs), wanted(d, f.docs)
        g.check('the same content', got == want, repr([(k, got.get(k), want.get(k)) for k in {*got, *want} if got.get(k) != want.get(k)]))
    for d, others in zip(f.docs, f.refs):
        g.check('imports', sorted(x.targetNamespace for x in by_place[d.path].imports) == sorted(o.namespace for o in others))


def said_of(x):
    for c in list(x):
        if local_name(c) in ('import', 'include'):
            x.remove(c)
    return said(x)


WITH_TYPES = (b'<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" targetNamespace="urn:w"><w:types>SCHEMAS</w:types>'
              b'<w:binding xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" name="B" type="T"><soap:binding/></w:binding>'
              b'</w:definitions>')


ENV = utils.get_rendering_environment({'xs', None}, module='soapfish')


@contract('C26', TARGETS, runs=300)
def local_names(g):
    """A qualified name is known by its local part."""
    prefix, name = g.str('prefix', ':', nonempty=True), g.str('name', ':', nonempty=True)
    g.check('prefixed', utils.remove_namespace(prefix + ':' + name) == name)
    g.check('plain', utils.remove_namespace(name) == name)
    g.check('none', utils.remove_namespace(None) is None)


@contract('C26', TARGETS, runs=300)
def found_by_name(g):
    """Messages, bindings and the like are found by the local part of a name: the first of that name."""
    def one(e):
        x = Bare()
        x.name = e.str('name')
        return x
    items = g.list('items', one)
    prefix, name = g.str('prefix', ':', nonempty=True), g.str('wanted', ':', nonempty=True)
    full = g.pick('full', [name, lambda: prefix + ':' + name])
    ok, r = attempt(wsdl.get_by_name, items, full)
    first = next((x for x in items if x.name == name), None)
    g.check('found', ok == (first is not None))
    if ok:
        g.check('the first', r is first)


class Bare:
    """Anything with attributes."""


@contract('C26', TARGETS, runs=300)
def selected(g):
    """The schema that declares all the elements is the first that does."""
    def one(e):
        x = Schema()
        x.declares = e.fn('declares', 'bool')
        return x
    schemas = g.list('schemas', one)
    names = [g.str('a', ':', nonempty=True), g.str('b', ':', nonempty=True)][:g.pick('elements', [1, 2])]
    r = utils.schema_select(schemas, ['p:' + x for x in names])
    first = next((x for x in schemas if all([x.declares(n) for n in names])), None)
    g.check('the first', r is first)


class Schema:
    """A schema that knows some elements."""

    def get_element_by_name(self, name):
        return object if self.declares(name) else None


FILTERS = ENV.filters


RESERVED = sorted({*keyword.kwlist, *dir(xsd.ComplexType), 'cls', 'create', 'instance', 'xsd'})


@contract('C26', TARGETS, runs=600)
def names_of_python(g):
    """Names in the code mean nothing else: no words of the language, nothing that complex types have."""
    fix = FILTERS['fix_keyword']
    name = g.str('name', nonempty=True) if g.symbolic else g.pick('a name', NAMES + TYPES + ['x_', '_x', '__y', '__y__', 'a-b.c'])
    plain = re.sub(r'\W', '_', name)
    g.check('only characters that names may have', fix(name) == fix(plain))
    g.assume(plain not in RESERVED)
    r = fix(name)
    g.check('the name', r in (plain, plain + '__'))
    g.check('no word', r not in keyword.kwlist)
    g.check('not private', not r.startswith('__') or r.endswith('__'))


@contract('C26', TARGETS, runs=600, exhaustive=200)
def words_of_python(g):
    """Words that mean something are written otherwise."""
    name = g.pick('name', RESERVED)
    r = FILTERS['fix_keyword'](name)
    g.check('like it', r in ('_' + name, name + '_', name + '__', name + '___'))
    g.check('no such word', r not in RESERVED)
    g.check('not private', not r.startswith('__') or r.endswith('__'))


@contract('C26', TARGETS, runs=600, seconds=300)
def type_names(g):
    """Built-in types are those of soapfish; types that are defined already are named, others are found later."""
    name = g.str('name', ':', nonempty=True)
    c = FILTERS['capitalize'](name)
    known = g.list('known', lambda e: e.str('type'))
    prefix = g.pick('prefix', ['xs', lambda: g.str('other prefix', ':', nonempty=True)])
    r = FILTERS['type'](prefix + ':' + name, known)
    if prefix == 'xs':
        g.check('built in', r == 'xsd.' + c)
    elif c in known:
        g.check('defined', r == c)
    else:
        g.check('later', r == "__name__ + '." + c + "'")


@contract('C26', TARGETS, runs=600)
def types_of(g):
    """The type of an element or attribute is what it says or refers to, that of an extension or restriction its base."""
    f = FILTERS['type']
    name = g.pick('name', ['order', 'Item', 'x-y', 'true'])
    prefix = g.pick('prefix', [None, lambda: g.str('some prefix', ':', nonempty=True)])
    qname = name if prefix is None else prefix + ':' + name
    known = g.list('known', lambda e: e.str('type'))
    how = g.pick('of', ['element', 'attribute', 'extension', 'restriction', 'element reference', 'attribute reference'])
    if how == 'extension':
        x = xsdspec.Extension(base=qname)
    elif how == 'restriction':
        x = xsdspec.Restriction(base=qname)
    elif how == 'element':
        x = xsdspec.Element(type=qname)
    elif how == 'attribute':
        x = xsdspec.Attribute(type=qname)
    else:
        x = (xsdspec.Element if how == 'element reference' else xsdspec.Attribute)(ref=qname)
    g.check('the same', f(x, known) == f(qname, known))


@contract('C26', TARGETS, runs=300)
def other_filters(g):
    """Use and occurrence are written as the constants they are."""
    use = g.pick('use', list(xsd.Use))
    g.check('use', FILTERS['use'](use) == 'xsd.Use.' + use.name)
    n = g.int('times', 0)
    g.check('number', FILTERS['max_occurs'](n) == str(n))
    g.check('any number', FILTERS['max_occurs'](xsd.UNBOUNDED) == 'xsd.UNBOUNDED')


TO_PY = list(inspect.signature(xsd2py.schema_to_py).parameters)
FROM_XSD = list(inspect.signature(xsd2py.generate_code_from_xsd).parameters)


def passed(names, args, more):
    """The arguments of a call, by name."""
    by_name = dict(more)
    for name, value in zip(names, args):
        by_name[name] = value
    return by_name


PLACES_OF_FILES = [None, 'http://host/x.xsd', 'x.xsd', '../x.xsd', 'a/./b.xsd', 'a b/../c.xsd']


def reference(g, name):
    x = Bare()
    x.schemaLocation = g.pick(name, PLACES_OF_FILES)
    return x


@contract('C26', TARGETS, runs=400, exhaustive=2000, seconds=120)
def paths_rewritten(g):
    """Every location is that of the same file as seen from the folder of the first document; others stay."""
    s = Bare()
    s.includes, s.imports = [reference(g, 'include')], [reference(g, 'import')]
    cwd, base = g.pick('folder', ['/r', '/r/a', 'http://h/a/', 'http://h/a']), g.pick('first folder', ['/r', '/q/z'])
    before = [x.schemaLocation for x in s.includes + s.imports]
    xsd2py.rewrite_paths(s, cwd, base)
    for old, x in zip(before, s.includes + s.imports):
        new = x.schemaLocation
        if old is None or '://' in old:
            g.check('stays', new == old)
        elif '://' in cwd:
            g.check('from there', new == urllib.parse.urljoin('http://h/a/', old))
        else:
            g.check('the same file', os.path.normpath(os.path.join(base, new)) == os.path.normpath(os.path.join(cwd, old)))


@contract('C26', TARGETS, runs=300)
def locations_resolved(g):
    """A path is taken from the folder of what refers to it, and what it refers to from its own folder."""
    path = g.pick('path', ['x.xsd', 'a/x.xsd', '../x.xsd', 'http://host/a/x.xsd', '/r/x.xsd'])
    cwd = g.pick('folder', ['/r', '/r/a b'])
    full, folder, location = utils.resolve_location(path, cwd)
    if '://' in path:
        g.check('remote', (full, folder, location) == (path, 'http://host/a', path))
    else:
        g.check('the file', full == os.path.join(cwd, path))
        g.check('its folder', folder == os.path.dirname(full))
        g.check('known as', os.path.normpath(os.path.join(cwd, location)) == os.path.normpath(full))


@contract('C26', TARGETS, runs=400)
def each_document_once(g):
    """A document that has been taken in is not taken in again; another one is, under its location."""
    g.override(xsd2py.find_xsd_namespaces, lambda xml: set())
    seen = []

    def taken(*args, **more):
        seen.append(passed(TO_PY, args, more))
        return 'code'
    g.override(xsd2py.schema_to_py, taken)
    known = g.list('known', lambda e: e.str('path', nonempty=True))
    types_ = g.list('types', lambda e: e.str('type'))
    location = g.opt('location', lambda: g.str('where', nonempty=True))
    parent = g.opt('parent', lambda: g.str('namespace'))
    r = xsd2py.generate_code_from_xsd(etree.Element('{%s}schema' % X), known, types_, location, parent, encoding=None, cwd='/r')
    if location is not None and location in known:
        g.check('nothing', r == '' and not seen)
    else:
        g.check('its code', r == 'code' and len(seen) == 1)
        g.check('what is known', seen[0]['known_paths'] is known and seen[0]['known_types'] is types_)
        g.check('its place', seen[0]['location'] == location)
        g.check('its parent', seen[0]['parent_namespace'] == parent)


@contract('C26', TARGETS, runs=400)
def documents_imported(g):
    """Code of an import is that of the document at its location, with what is known already."""
    place = g.pick('place', ['x.xsd', 'a/x.xsd', 'http://host/x.xsd'])
    i = g.pick('kind', [xsdspec.Import, xsdspec.Include])()
    i.schemaLocation = place
    content, seen = g.opaque('content'), []
    g.override(xsd2py.open_document, lambda path: content if path == (place if '://' in place else '/r/' + place) else None)

    def taken(*args, **more):
        seen.append(passed(FROM_XSD, args, more))
        return 'code'
    g.override(xsd2py.generate_code_from_xsd, taken)
    paths, types_, schemas = [], [], []
    r = xsd2py.resolve_import(i, paths, types_, g.opt('parent', lambda: g.str('namespace')), '/elsewhere', '/r', schemas)
    g.check('its code', r == 'code' and len(seen) == 1)
    how = seen[0]
    g.check('its content', how['xml'] is content)
    g.check('what is known', how['known_paths'] is paths and how['known_types'] is types_ and how['known_schemas'] is schemas)
    g.check('its place', how['location'] == place)
    g.check('one base', how['base_path'] == '/r' and how['cwd'] == os.path.dirname(place if '://' in place else '/r/' + place))
    g.check('part of a module', how['standalone'] is False and how['encoding'] is None)


@contract('C26', TARGETS, proof=False, exhaustive=3000)
def base_types_first(g):
    """Complex types are defined after the types they are derived from, and none is lost."""
    n = g.int('types', 0, 4)
    names = [f't{k}' for k in range(n)]
    order = list(names)
    for k in range(n - 1):
        j = g.int(f'at {k}', k, n - 1)
        order[k], order[j] = order[j], order[k]
    bases = {}
    for k, name in enumerate(names):
        # Types are derived from earlier ones, so that there is no cycle:
        bases[name] = g.pick(f'base of {name}', [None, 'other', *names[:k]])
    made = {}
    for name, base in bases.items():
        made[name] = c = xsdspec.XSDComplexType(name=name)
        if base:
            how = 'extension' if (len(name + base) + n) % 2 else 'restriction'
            c.complexContent = xsdspec.ComplexContent(**{how: xsdspec.Extension(base='p:' + base)})
    s = xsdspec.Schema(complexTypes=[made[name] for name in order])
    xsd2py._reorder_complexTypes(s)
    g.check('the same types', sorted(c.name for c in s.complexTypes) == names and all(made[c.name] is c for c in s.complexTypes))
    at = {c.name: k for k, c in enumerate(s.complexTypes)}
    g.check('bases first', all(at[b] < at[name] for name, b in bases.items() if b in at))


@contract('C26', TARGETS, proof=False, exhaustive=3000)
def imported_schemas_first(g):
    """Schemas of a WSDL document come after those that they import, and none is lost."""
    n = g.int('schemas', 0, 4)
    order = list(range(n))
    for k in range(n - 1):
        j = g.int(f'at {k}', k, n - 1)
        order[k], order[j] = order[j], order[k]
    refs = {k: [j for j in range(k) if g.bool(f'{k} imports {j}')] for k in range(n)}
    foreign = g.bool('imports of others')
    made = {k: xsdspec.Schema(targetNamespace=f'urn:{k}', imports=[xsdspec.Import(namespace=f'urn:{j}') for j in js] +
                              [xsdspec.Import(namespace='urn:foreign')] * foreign) for k, js in refs.items()}
    r = wsdl2py.reorder_schemas([made[k] for k in order])
    at = [k for x in r for k in made if made[k] is x]
    g.check('the same schemas', len(r) == n and sorted(at) == list(range(n)))
    g.check('imported ones first', all(at.index(j) < at.index(k) for k, js in refs.items() for j in js))
