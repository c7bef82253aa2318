"""Generated services, requests and an independent reading of the answers, for the native checks."""
from lxml import etree

from soapfish import soap, soap11, soap12, xsd
from soapfish.core import SOAPRequest
from soapfish.soap_dispatch import SOAPDispatcher

TNS = 'urn:service'
ENV = {soap11: 'http://schemas.xmlsoap.org/soap/envelope/', soap12: 'http://www.w3.org/2003/05/soap-envelope'}
NAMES = ['getA', 'getB', 'put', 'List', 'remove', 'x-y', 'ping', 'Note']
ACTIONS = ['urn:getA', 'http://example.net/getA', 'http://example.net/put?x=1&y=2', 'urn:x y', 'action', 'getA', 'urn:é']
TEXTS = ['a', 'b c', '<&>', 'é漢', '0', 'true']


class Data(xsd.ComplexType):
    text = xsd.Element(xsd.String)
    number = xsd.Element(xsd.Int, minOccurs=0)
    items = xsd.ListElement(xsd.String, 'item', minOccurs=0, maxOccurs=xsd.UNBOUNDED)
    code = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)


class Result(xsd.ComplexType):
    text = xsd.Element(xsd.String)
    numbers = xsd.ListElement(xsd.Int, 'number', minOccurs=0, maxOccurs=xsd.UNBOUNDED)


class Ticket(xsd.ComplexType):
    user = xsd.Element(xsd.String)


class Head(xsd.ComplexType):
    ticket = xsd.Element(Ticket, namespace=TNS, minOccurs=0)


class ReplyHead(soap11.Header):
    ticket = xsd.Element(Ticket, namespace=TNS, minOccurs=0)


class World:
    """A service with its operations and a record of the calls its handlers received."""


def actions(version):
    """Texts an HTTP header of that version can carry as an action."""
    return ACTIONS


def world(g, version=None, methods=(1, 4), headers=None, unique=False, handler=None, style=None):
    w = World()
    w.version = version or g.pick('version', [soap11, soap12])
    w.form = g.pick('form', [xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED])
    w.calls = []
    n = g.int('methods', *methods)
    names = []
    elements = {}
    w.methods = []
    w.header = headers if headers is not None else g.pick('header', [None, None, Head])
    for k in range(n):
        name = g.pick(f'm{k} input', NAMES)
        if unique and name in names:
            name = name + str(k)
        names.append(name)
        elements.setdefault(name, xsd.Element(Data))
        out = g.pick(f'm{k} output', ['result', 'Answer'])
        elements.setdefault(out, xsd.Element(Result))
        action = g.pick(f'm{k} action', ACTIONS)
        if unique and action in [m.soapAction for m in w.methods]:
            action += str(k)

        def function(request, data, k=k):
            w.calls.append((k, request, data))
            return handler(w, k, request, data) if handler else Result(text='from %d' % k)
        w.methods.append(xsd.Method(name + ('Op%d' % k if unique else 'Op'), action, input=name, output=out, function=function))
        if w.header is not None and g.bool(f'm{k} header'):
            w.methods[-1].input_header = w.header
    for k in range(g.int('heads', 0, 2)):
        name = g.pick(f'h{k} name', NAMES + ['other'])
        if name not in elements:
            head = g.pick(f'h{k} head', [None] + names[:2])
            elements[name] = xsd.Element(Data, substitutionGroup=head)
    elements['Ticket'] = xsd.Element(Ticket)
    elements['ticket'] = xsd.Element(Ticket)
    w.elements = elements
    w.schema = xsd.Schema(TNS, elementFormDefault=w.form, complexTypes=[Data, Result, Ticket], elements=elements)
    w.service = soap.Service(targetNamespace=TNS, location='${scheme}://${host}/ws', schemas=[w.schema], methods=w.methods,
                             version=w.version, name='Svc')
    return w


def data(g, at):
    """Content of a Data element: (text, number, items, code)."""
    return (g.pick(at + ' text', TEXTS), g.pick(at + ' number', [None, 0, -5, 2 ** 31 - 1]),
            [g.pick(f'{at} item {k}', TEXTS) for k in range(g.int(at + ' items', 0, 2))], g.pick(at + ' code', [None, 'c', '<&"']))


def data_element(w, tag, d, ns=TNS):
    e = etree.Element('{%s}%s' % (ns, tag) if ns else tag)

    def child(name, text):
        c = etree.SubElement(e, '{%s}%s' % (TNS, name) if w.form == xsd.ElementFormDefault.QUALIFIED else name)
        c.text = text
    text, number, items, code = d
    child('text', text)
    if number is not None:
        child('number', str(number))
    for x in items:
        child('item', x)
    if code is not None:
        e.set('code', code)
    return e


def held(o):
    """The content of a Data object."""
    return (o.text, o.number, list(o.items), o.code)


def ticket_element(w, user, name='ticket'):
    e = etree.Element('{%s}%s' % (TNS, name))
    c = etree.SubElement(e, '{%s}user' % TNS if w.form == xsd.ElementFormDefault.QUALIFIED else 'user')
    c.text = user
    return e


def envelope(w, body, header=None, ns=None):
    ns = ns or ENV[w.version]
    e = etree.Element('{%s}Envelope' % ns, nsmap={'soap': ns})
    if header is not None:
        h = etree.SubElement(e, '{%s}Header' % ns)
        for x in header:
            h.append(x)
    if body is not None:
        b = etree.SubElement(e, '{%s}Body' % ns)
        for x in body:
            b.append(x)
    return etree.tostring(e)


def environ(w, action=None, method='POST', **more):
    e = {'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': '/', 'wsgi.url_scheme': 'http', 'HTTP_HOST': 'host'}
    if w.version is soap11:
        e['CONTENT_TYPE'] = 'text/xml; charset=utf-8'
        if action is not None:
            e['HTTP_SOAPACTION'] = '"%s"' % action
    else:
        e['CONTENT_TYPE'] = 'application/soap+xml; charset=utf-8' + ('; action="%s"' % action if action is not None else '')
    e.update(more)
    return e


def post(w, dispatcher, content, action=None):
    return dispatcher.dispatch(SOAPRequest(environ(w, action), content))


def answer(w, content):
    """(kind, code or root name, message or root element, header children) of an answer."""
    e = etree.fromstring(content)
    ns = ENV[w.version]
    assert e.tag == '{%s}Envelope' % ns, e.tag
    kids = list(e)
    head = None
    if kids and kids[0].tag == '{%s}Header' % ns:
        head = list(kids.pop(0))
    assert [k.tag for k in kids] == ['{%s}Body' % ns], kids
    content = list(kids[0])
    assert len(content) == 1, content
    x = content[0]
    if x.tag == '{%s}Fault' % ns:
        if w.version is soap11:
            c = [(y.tag, y.text) for y in x]
            assert [t for t, _ in c][:2] == ['faultcode', 'faultstring'], c
            return 'fault', c[0][1], c[1][1], head
        q = '{%s}' % ns
        c = x.find(q + 'Code/' + q + 'Value')
        r = x.find(q + 'Reason/' + q + 'Text')
        assert [y.tag for y in x][:2] == [q + 'Code', q + 'Reason']
        return 'fault', c.text, r.text, head
    return 'answer', etree.QName(x).localname, x, head


CLIENT = {soap11: 'Client', soap12: 'ns0:Sender'}
SERVER = {soap11: 'Server', soap12: 'ns0:Receiver'}


def make(w, **kw):
    return SOAPDispatcher(w.service, **kw)


def schema_text(w):
    """The schema of the service, written by hand."""
    out = ['<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="%s" targetNamespace="%s" elementFormDefault="%s">'
           % (TNS, TNS, w.form.value),
           '<xs:complexType name="data"><xs:sequence><xs:element name="text" type="xs:string"/>'
           '<xs:element name="number" type="xs:int" minOccurs="0"/>'
           '<xs:element name="item" type="xs:string" minOccurs="0" maxOccurs="unbounded"/></xs:sequence>'
           '<xs:attribute name="code" type="xs:string"/></xs:complexType>',
           '<xs:complexType name="result"><xs:sequence><xs:element name="text" type="xs:string"/>'
           '<xs:element name="number" type="xs:int" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType>',
           '<xs:complexType name="ticket"><xs:sequence><xs:element name="user" type="xs:string"/></xs:sequence></xs:complexType>']
    for name, e in w.elements.items():
        kind = {Data: 'data', Result: 'result', Ticket: 'ticket'}[e._passed_type]
        group = ' substitutionGroup="t:%s"' % e.substitutionGroup if e.substitutionGroup else ''
        out.append('<xs:element name="%s" type="t:%s"%s/>' % (name, kind, group))
    return ''.join(out) + '</xs:schema>'
