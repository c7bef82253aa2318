"""C27 A schema that is given with a document is enforced."""
from lxml import etree

from soapfish import py2xsd, xsd
from vc.contract import contract

from . import shapes
from .c16_xsd import TNS, document_schema, nil_ok
from .lib import attempt
from .linked import Linked

TARGETS = ['soapfish.xsd.ComplexType.xml', 'soapfish.xsd.ComplexType.parsexml']


class Note(xsd.ComplexType):
    text = xsd.Element(xsd.String)
    kind = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
    items = xsd.ListElement(xsd.String, 'item', minOccurs=0)


class Log:
    """What a compiled schema says about the last document."""

    message, line, column, last_error = 'invalid', 1, 1, None

    def __len__(self):
        return 1


class Judge:
    """A compiled schema: it knows whether a document is valid, and which ones it was asked about."""

    _vc_pytype = etree.XMLSchema  # what it is to isinstance() in proofs

    error_log = Log()

    def __init__(self, valid):
        self.valid, self.seen = valid, []

    def validate(self, e):
        self.seen.append(etree.fromstring(etree.tostring(e)))
        return self.valid

    __call__ = validate

    def assertValid(self, e):
        if not self.validate(e):
            raise etree.DocumentInvalid('invalid')


def schema(content, namespace=None):
    return etree.XMLSchema(etree.fromstring('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>%s</xs:schema>'
                                            % (' targetNamespace="%s"' % namespace if namespace else '', content)))


ANYTHING = {n: schema('<xs:element name="note" type="xs:anyType"/>', n) for n in (None, 'urn:n')}
NOTHING = schema('<xs:element name="other"/>')


def judge(g, namespace=None):
    """Any schema: in proofs, one that finds the document valid or not; natively, a compiled one."""
    valid = g.bool('valid')
    return valid, Judge(valid) if g.symbolic else ANYTHING[namespace] if valid else NOTHING


def judged(g, schema, document):
    """It is the whole document which has been judged."""
    if g.symbolic:
        g.check('judged', len(schema.seen) > 0)
        for x in schema.seen:
            g.same('the whole', x, etree.fromstring(document))


@contract('C27', TARGETS, runs=400)
def written(g):
    """What is written has been judged as it is written; what is invalid is not written at all."""
    o = Note()
    for name in ('text', 'kind'):
        setattr(o, name, g.pick(name, [None, lambda: g.xmltext(name + ' given')]))
    for k in range(g.pick('items', [0, 1, 2])):
        o.items.append(g.xmltext('item %d' % k))
    namespace = g.pick('namespace', [None, 'urn:n'])
    form = g.pick('form', [None, xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED])
    plain = o.xml('note', namespace, form, pretty_print=False)
    valid, schema = judge(g, namespace)
    ok, r = attempt(o.xml, 'note', namespace, form, schema=schema, pretty_print=False)
    g.check('refused if invalid', ok == valid)
    judged(g, schema, plain)
    if ok:
        g.same('as without the schema', etree.fromstring(r), etree.fromstring(plain))
    else:
        g.check('as such', isinstance(r, etree.DocumentInvalid))


@contract('C27', TARGETS, runs=400)
def read_compiled(g):
    """A document that is invalid is not read; a valid one is read as without the schema."""
    x = etree.Element('note')
    if g.bool('kind'):
        x.set('kind', g.xmltext('its kind'))
    for name in g.pick('children', [[], ['text'], ['item', 'text'], ['item', 'text', 'other', 'item']]):
        etree.SubElement(x, name).text = g.xmltext(name + str(len(x)))
    valid, schema = judge(g)
    text = etree.tostring(x)
    ok, r = attempt(Note.parsexml, text, schema)
    g.check('refused if invalid', ok == valid)
    judged(g, schema, text)
    if ok:
        plain = Note.parsexml(text)
        g.check('as without the schema', (r.text, r.kind, list(r.items)) == (plain.text, plain.kind, list(plain.items)))
    else:
        g.check('as such', isinstance(r, etree.LxmlError))


def changed(g, x):
    """The document, changed somehow or not."""
    every = list(x.iter())
    for k in range(g.pick('changes', [0, 0, 1, 1, 2])):
        e = g.pick(f'{k} changed', every)
        how = g.pick(f'{k} how', ['text', 'no text', 'dropped', 'twice', 'another', 'attribute', 'no attribute', 'first', 'name', 'comment', 'blank'])
        parent = e.getparent()
        if how == 'text':
            e.text = g.pick(f'{k} text', ['x', '1', '-1', 'true', '2020-01-01', '', '99999999999'])
        elif how == 'no text':
            e.text = None
        elif how == 'dropped' and parent is not None:
            parent.remove(e)
        elif how == 'twice' and parent is not None:
            parent.append(etree.fromstring(etree.tostring(e)))
        elif how == 'another':
            etree.SubElement(e, g.pick(f'{k} name', ['other', '{%s}other' % TNS]))
        elif how == 'attribute':
            e.set(g.pick(f'{k} attribute', ['other', 'name', 'x']), 'y')
        elif how == 'no attribute' and len(e.attrib):
            del e.attrib[sorted(e.attrib)[0]]
        elif how == 'first' and parent is not None:
            parent.insert(0, e)
        elif how == 'name' and isinstance(e.tag, str):
            e.tag = g.pick(f'{k} tag', ['other', '{%s}root' % TNS, 'root', etree.QName(e).localname])
        elif how == 'comment':
            e.insert(0, etree.Comment('c'))
        elif how == 'blank':
            e.append(etree.ProcessingInstruction('x', 'y'))
    return x


@contract('C27', TARGETS, proof=False, runs=1500)
def read(g):
    """A document is read with a schema exactly if it is valid under it, and then as it is read without."""
    s = shapes.shape(g, 'S', 2, ns_choices=(None,))
    schema, _, form = document_schema(g, s)
    compiled = etree.XMLSchema(etree.fromstring(etree.tostring(py2xsd.generate_xsd(schema))))
    v = shapes.value(g, s, 'v', complete=g.pick('complete', [True, True, False]))
    ok, o = attempt(shapes.build, g, s, v, 'o')
    g.assume(ok)
    ok, text = attempt(o.xml, 'root', namespace=TNS, elementFormDefault=form)
    g.assume(ok)
    valid = compiled.validate(etree.fromstring(text))
    given = g.pick('given', ['the schema', 'compiled'])
    ok, r = attempt(o.xml, 'root', namespace=TNS, elementFormDefault=form, schema=compiled)
    g.check('written if valid', ok == valid, repr(r))
    if ok:
        g.check('the same document', r == text)
    else:
        g.check('refused as such', isinstance(r, etree.DocumentInvalid))
    x = changed(g, etree.fromstring(text))
    g.note(etree.tostring(x).decode())
    text = g.pick('as', [etree.tostring(x), etree.tostring(x, encoding='unicode'), etree.tostring(x, encoding='utf-8', xml_declaration=True)])
    valid = compiled.validate(etree.fromstring(text))
    ok, r = attempt(s.cls.parsexml, text, compiled if given == 'compiled' else schema)
    if not valid:
        g.check('refused', not ok and isinstance(r, etree.LxmlError), repr(r))
        return
    plain, want = attempt(s.cls.parsexml, text)
    g.check('read if it can be', ok == plain, repr((r, want)))
    if ok:
        g.same('as without the schema', again(r, form), again(want, form))


def again(o, form):
    """What an object says."""
    ok, text = attempt(o.xml, 'root', namespace=TNS, elementFormDefault=form)
    return (True, text) if ok else (False, repr(text))


@contract('C27', [*TARGETS, 'soapfish.py2xsd.schema_validator'], proof=False, runs=600)
def schemas_apart(g):
    """The same for schemas that refer to one another, wherever they are said to be."""
    linked = Linked(g)
    cls = linked.types[-1]
    x, content = linked.tree()
    good = g.bool('good')
    if not good:
        linked.damaged(x)
    text = etree.tostring(x)
    g.note(text.decode())
    ok, r = attempt(cls.parsexml, text, linked.root)
    g.check('read exactly if valid', ok == good, repr(r))
    if good:
        g.check('what it says', linked.said(r) == content)
    else:
        g.check('refused', isinstance(r, etree.LxmlError))
