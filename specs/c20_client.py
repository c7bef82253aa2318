"""C20 The client stub sends what was asked and returns what came back."""
import requests
from lxml import etree

from soapfish import core, soap, soap11, soap12, xsd
from soapfish.core import SOAPError, SOAPRequest
from vc.contract import contract

from . import services
from .c13_faults import Note, NoteHeader, plug
from .c21_action import arrives
from .c25_lookup import Elements, Item, LOCAL, local
from .lib import attempt

TARGETS = ['soapfish.soap.Stub.__init__', 'soapfish.soap.Stub.call', 'soapfish.soap.Stub._handle_response',
           'soapfish.soap.Service.get_method', 'soapfish.soap.Service.find_element_by_name', 'soapfish.soap11.Envelope.response',
           'soapfish.soap12.Envelope.response', 'soapfish.soap11.Header.parse_as', 'soapfish.soap11.Body.parse_as']


class Ask(xsd.ComplexType):
    text = xsd.Element(xsd.String)
    number = xsd.Element(xsd.Int, minOccurs=0)


class Answer(xsd.ComplexType):
    text = xsd.Element(xsd.String)
    parts = xsd.ListElement(xsd.String, 'part', minOccurs=0, maxOccurs=xsd.UNBOUNDED)


class AnswerHead(xsd.ComplexType):
    note = xsd.Element(Note, namespace='urn:n', minOccurs=0)


SCHEMA = xsd.Schema('urn:s', complexTypes=[Ask, Answer], elements={
    'ask': xsd.Element(Ask), 'answer': xsd.Element(Answer), 'Reply': xsd.Element(Answer), 'Fault': xsd.Element(Answer)})


def headers_for(version, action):
    if version is soap11:
        return [('Content-Type', 'text/xml'), ('SOAPAction', action)]
    return [('Content-Type', 'application/soap+xml; action="' + action + '"')]


def empty_answer(version):
    e = etree.Element('{' + version.ENVELOPE_NAMESPACE + '}Envelope')
    b = etree.SubElement(e, '{' + version.ENVELOPE_NAMESPACE + '}Body')
    etree.SubElement(b, '{urn:s}answer')
    return etree.tostring(e)


def same_text(a, b):
    return (a or '') == (b or '')


class Post:
    """What a call posted."""


def posted(g, sent):
    g.check('one post', len(sent) == 1)
    args, kwargs = sent[0]
    names = ['url', 'data', 'json']
    p = Post()
    p.auth = None
    for k in range(len(args)):
        setattr(p, names[k], args[k])
    for k in kwargs:
        setattr(p, k, kwargs[k])
    return p


@contract('C20', TARGETS, runs=300)
def asks(g):
    """One post, to the configured place, with the operation's action and the credentials."""
    version = g.pick('version', [soap11, soap12])
    action = g.str('action') if g.symbolic else g.pick('action', services.ACTIONS)
    location = g.str('location', nonempty=True)
    other = xsd.Method('another', 'urn:another', input='other', output='answer')
    method = xsd.Method('op', action, input='ask', output='answer')
    service = soap.Service('urn:s', 'http://elsewhere/', [SCHEMA], [other, method], version=version)
    user = g.pick('user', [None, '', lambda: g.str('user name', nonempty=True)])
    password = g.pick('password', [None, '', lambda: g.str('password text', nonempty=True)])
    s = soap.Stub(user, password, service=service, location=location)
    sent = []
    plug(g, empty_answer(version), sent)
    ok, r = attempt(s.call, 'op', Ask(text='x'))
    g.check('answered', ok)
    p = posted(g, sent)
    g.check('the place', p.url == location)
    if user:
        g.check('credentials', p.auth is not None and len(p.auth) == 2 and p.auth[0] == user and p.auth[1] == password)
    else:
        g.check('no credentials', p.auth is None)
    for k, v in headers_for(version, action):
        g.check('HTTP header', p.headers.get(k) == v)


@contract('C20', TARGETS, runs=300)
def sends(g):
    """Exactly the parameter, under the operation's input element, and the header given."""
    version = g.pick('version', [soap11, soap12])
    tag = g.pick('input', ['Other', Ask])
    method = xsd.Method('op', 'action', input=tag, output='answer')
    s = soap.Stub(service=soap.Service('urn:s', 'http://h/', [SCHEMA], [method], version=version), location='http://h/')
    text, note = g.xmltext('text'), g.xmltext('note')
    number = g.pick('number', [None, lambda: g.int('some number', -2 ** 31, 2 ** 31 - 1)])
    ask = Ask(text=text, number=number)
    header = NoteHeader(note=Note(text=note)) if g.bool('header') else None
    sent = []
    plug(g, empty_answer(version), sent)
    ok, r = attempt(s.call, 'op', ask, header=header)
    g.check('answered', ok)
    q = '{' + version.ENVELOPE_NAMESPACE + '}'
    e = etree.fromstring(posted(g, sent).data)
    kids = [x for x in e]
    g.check('an envelope', e.tag == q + 'Envelope' and len(kids) == (1 if header is None else 2))
    if header is not None:
        g.check('the header', kids[0].tag == q + 'Header' and len(kids[0]) == 1 and kids[0][0].tag == '{urn:n}note'
                and len(kids[0][0]) == 1 and same_text(kids[0][0][0].text, note))
    body = kids[-1]
    g.check('the body', body.tag == q + 'Body' and len(body) == 1)
    name = tag if isinstance(tag, str) else 'ask'
    g.check('input element', body[0].tag == '{urn:s}' + name)
    g.check('its fields', len(body[0]) == (1 if number is None else 2) and body[0][0].tag == 'text')
    g.check('its text', same_text(body[0][0].text, text))
    if number is not None:
        g.check('its number', body[0][1].tag == 'number' and body[0][1].text == str(number))
    g.check('the parameter is left alone', same_text(ask.text, text) and ask.number == number)


def answered(g, version, output, header, note=None):
    """An answer of one text and some parts."""
    q = '{' + version.ENVELOPE_NAMESPACE + '}'
    e = etree.Element(q + 'Envelope')
    if header != 'none':
        h = etree.SubElement(e, q + 'Header')
        if header == 'nil':
            h.set('{http://www.w3.org/2001/XMLSchema-instance}nil', 'true')
        if header == 'note':
            etree.SubElement(etree.SubElement(h, '{urn:n}note'), '{urn:n}text').text = note
    b = etree.SubElement(e, q + 'Body')
    return e, etree.SubElement(b, '{urn:s}' + (output if isinstance(output, str) else 'answer'))


@contract('C20', TARGETS, runs=300)
def returns(g):
    """What came back: the body read as the operation's output."""
    version = g.pick('version', [soap11, soap12])
    output = g.pick('output', ['Reply', 'Fault', Answer])
    text = g.xmltext('text')
    e, x = answered(g, version, output, 'none')
    etree.SubElement(x, 'text').text = text
    parts = g.list('parts', part)
    x.extend(parts)
    plug(g, etree.tostring(e))
    method = xsd.Method('op', 'a', input='ask', output=output)
    s = soap.Stub(service=soap.Service('urn:s', 'http://h/', [SCHEMA], [method], version=version), location='http://h/')
    ok, r = attempt(s.call, 'op', Ask(text='x'))
    g.check('no error', ok)
    g.check('the answer', isinstance(r.soap_body, Answer) and same_text(r.soap_body.text, text))
    g.check('its parts', len(r.soap_body.parts) == len(parts) and all([same_text(r.soap_body.parts[k], parts[k].text) for k in range(len(parts))]))
    g.check('no header', r.soap_header is None)


def part(e):
    p = etree.Element('part')
    p.text = e.xmltext('text of part')
    return p


@contract('C20', TARGETS, runs=300)
def returns_header(g):
    """The header of an answer is read as the operation's output header, if it declares one."""
    version = g.pick('version', [soap11, soap12])
    declared = g.bool('declares a header')
    header = g.pick('header', ['none', 'nil', 'empty', 'note'])
    note = g.xmltext('note')
    e, x = answered(g, version, 'answer', header, note)
    plug(g, etree.tostring(e))
    method = xsd.Method('op', 'a', input='ask', output='answer', output_header=AnswerHead if declared else None,
                        input_header=g.pick('input header', [None, NoteHeader]))
    s = soap.Stub(service=soap.Service('urn:s', 'http://h/', [SCHEMA], [method], version=version), location='http://h/')
    ok, r = attempt(s.call, 'op', Ask(text='x'))
    g.check('no error', ok)
    g.check('the answer', isinstance(r.soap_body, Answer))
    if declared and header == 'note':
        g.check('the header', isinstance(r.soap_header, AnswerHead) and same_text(r.soap_header.note.text, note))
    elif declared and header == 'empty':
        g.check('an empty header', r.soap_header is None or isinstance(r.soap_header, AnswerHead) and r.soap_header.note is None)
    else:
        g.check('no header', r.soap_header is None)


@contract('C20', TARGETS, runs=200)
def simple_answers(g):
    """Answers whose output element has a simple type."""
    version = g.pick('version', [soap11, soap12])
    n = g.int('number', -2 ** 31, 2 ** 31 - 1)
    e, x = answered(g, version, 'count', 'none')
    x.text = str(n)
    plug(g, etree.tostring(e))
    schema = xsd.Schema('urn:s', complexTypes=[Ask], elements={'count': xsd.Element(xsd.Int)})
    method = xsd.Method('op', 'a', input='ask', output='count')
    s = soap.Stub(service=soap.Service('urn:s', 'http://h/', [schema], [method], version=version), location='http://h/')
    ok, r = attempt(s.call, 'op', Ask(text='x'))
    g.check('the number', ok and r.soap_body == n)


@contract('C20', TARGETS, runs=300)
def locations(g):
    """The place asked: the given one, or the service's with scheme and host filled in."""
    template = g.pick('template', ['http://h/ws', '${scheme}://${host}/ws', 'http://${host}/$x', '$host', '${scheme}://${host}/Path/Service.asmx?A=B%20c'])
    service = soap.Service('urn:s', template, [], [])

    of_class = service if g.bool('service of the class') else None
    scheme, host = g.pick('scheme', ['https', 'http']), g.pick('host', ['www.example.net', 'localhost:8080'])

    class Client(soap.Stub):
        SERVICE, SCHEME, HOST = of_class, scheme, host
    own = g.pick('location', [None, 'text', 'function', 'other'])
    log = []
    asked = g.str('place', nonempty=True)

    def find(template, context):
        log.append((template, context['scheme'], context['host']))
        return asked
    location = {'text': asked, 'function': find, 'other': 5, None: None}[own]
    args = {} if Client.SERVICE is not None else {'service': service}
    ok, s = attempt(Client, location=location, **args)
    if own == 'other':
        g.check('an error', not ok and isinstance(s, TypeError))
        return
    g.check('a client', ok and s.service is service)
    if own is None:
        g.check('filled in', s.location == template.replace('${scheme}', Client.SCHEME).replace('${host}', Client.HOST).replace('$host', Client.HOST))
    else:
        g.check('as given', s.location == asked)
    if own == 'function':
        g.check('asked once', len(log) == 1 and log[0] == (template, Client.SCHEME, Client.HOST))
    else:
        g.check('not asked', not log)


def operation(e):
    m = Item()
    m.operationName = local(e, 'operation')
    return m


@contract('C20', TARGETS, runs=300)
def operations(g):
    """The first operation of a name, among any number of them."""
    s = soap.Service('urn:s', 'l', [], g.list('methods', operation))
    name = local(g, 'wanted')
    want = next((m for m in s.methods if m.operationName == name), None)
    ok, r = attempt(s.get_method, name)
    g.check('found exactly if there', ok == (want is not None))
    if ok:
        g.check('the first', r is want)


@contract('C20', TARGETS, runs=300)
def elements(g):
    """The element of the first schema that has one of that name, among any number of them."""
    s = soap.Service('urn:s', 'l', g.list('schemas', Elements), [])
    name = local(g, 'wanted')
    schema = next((x for x in s.schemas if x.defines(name)), None)
    r = s.find_element_by_name(name)
    g.check('the first', r is (schema.element if schema is not None else None))


@contract('C20', TARGETS, proof=False, runs=1500, seconds=150)
def conversation(g):
    """A client talking to a dispatcher of the same service, over a wire that carries HTTP headers as a server does."""
    replies = []

    def handler(w, k, request, data):
        seen.append((k, request.soap_header.ticket.user if request.soap_header is not None and request.soap_header.ticket is not None else None,
                     services.held(data)))
        r = replies[0]
        if r[0] == 'fault':
            raise SOAPError(r[1], r[2])
        body = services.Result(text=r[1])
        for n in r[2]:
            body.numbers.append(n)
        if r[3] is not None:
            return core.SOAPResponse(body, soap_header=services.ReplyHead(ticket=services.Ticket(user=r[3])))
        return body
    w = services.world(g, unique=True, handler=handler)
    seen, posts = [], []
    services.ReplyHead.SCHEMA = w.schema

    class SendHead(soap11.Header):
        ticket = xsd.Element(services.Ticket, namespace=services.TNS, minOccurs=0)
    SendHead.SCHEMA = w.schema
    for m in w.methods:
        if g.bool(m.operationName + ' output header'):
            m.output_header = services.Head
    d = services.make(w)
    user = g.pick('user', [None, '', 'me'])
    s = soap.Stub(user, 'secret', service=w.service, location=g.pick('location', [None, 'http://h/x', lambda: lambda t, c: 'https://y/' + c['host']]))

    def post(url, data=None, json=None, auth=None, headers=None, **more):
        posts.append((url, auth, more))
        r = d.dispatch(SOAPRequest({'REQUEST_METHOD': 'POST', **arrives(headers)}, data))
        return Wire(r)

    class Wire:
        def __init__(self, r):
            self.content, self.headers, self.status_code, self.text = r.http_content, r.http_headers, r.http_status_code, r.http_content.decode()
    g.override(requests.post, post)
    for n in range(g.int('calls', 1, 3)):
        m = g.pick(f'call {n}', w.methods)
        given = services.data(g, f'data {n}')
        ask = services.Data(text=given[0], number=given[1], code=given[3])
        for x in given[2]:
            ask.items.append(x)
        ticket = g.pick(f'ticket {n}', [None, 'u', '<&é'])
        if g.bool(f'fault {n}'):
            reply = ('fault', g.pick(f'code {n}', ['Server', 'Client', 'Own.Code']), g.pick(f'why {n}', ['no', 'é <&>']))
        else:
            reply = ('answer', g.pick(f'text {n}', services.TEXTS), [g.int(f'number {n} {k}', -9, 9) for k in range(g.int(f'numbers {n}', 0, 2))],
                     g.pick(f'back {n}', [None, 'v', 'é&']))
        replies[:] = [reply]
        seen.clear()
        posts.clear()
        ok, r = attempt(s.call, m.operationName, ask, header=SendHead(ticket=services.Ticket(user=ticket)) if ticket is not None else None)
        g.check('one post', len(posts) == 1)
        where = {None: 'http://www.example.net/ws'}.get(s.location, s.location)
        g.check('the place', posts[0][0] == where)
        g.check('credentials', posts[0][1] == (('me', 'secret') if user == 'me' else None))
        g.check('one call', len(seen) == 1)
        g.same('the operation and what it was given', seen[0],
               (w.methods.index(m), ticket if m.input_header is not None else None, given))
        g.check('an error exactly if a fault came back', ok == (reply[0] != 'fault'))
        if not ok:
            g.check('a SOAP error', isinstance(r, SOAPError) and (r.code, r.message) == reply[1:])
            continue
        g.check('the answer', isinstance(r.soap_body, services.Result) and r.soap_body.text == reply[1] and list(r.soap_body.numbers) == reply[2])
        if m.output_header is not None and reply[3] is not None:
            g.check('the header', r.soap_header.ticket.user == reply[3])
        else:
            g.check('no header', r.soap_header is None)
