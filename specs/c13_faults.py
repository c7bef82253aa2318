"""C13 Faults carry code, message and actor unchanged."""
import requests
from lxml import etree

from soapfish import core, soap, soap11, soap12, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher
from vc.contract import contract

from . import services
from .c12_requests import bare
from .lib import attempt

TARGETS = ['soapfish.soap_dispatch.SOAPDispatcher.handle_soap_request', 'soapfish.soap11.Envelope.error_response',
           'soapfish.soap12.Envelope.error_response', 'soapfish.soap11.get_error_response', 'soapfish.soap12.get_error_response',
           'soapfish.soap11.parse_fault_message', 'soapfish.soap12.parse_fault_message', 'soapfish.soap.Stub._handle_response']


def fault_texts(content, version):
    """(code, message, actor, header children) of a fault message, read by its structure alone."""
    e = etree.fromstring(content)
    q = '{' + version.ENVELOPE_NAMESPACE + '}'
    assert e.tag == q + 'Envelope'
    kids = [x for x in e]
    head = None
    if len(kids) == 2:
        assert kids[0].tag == q + 'Header'
        head = [x for x in kids[0]]
    body = kids[-1]
    assert body.tag == q + 'Body' and len(body) == 1 and body[0].tag == q + 'Fault'
    f = body[0]
    if version is soap11:
        assert f[0].tag == 'faultcode' and f[1].tag == 'faultstring'
        if len(f) == 2:
            return f[0].text, f[1].text, None, head
        assert len(f) == 3 and f[2].tag == 'faultactor'
        return f[0].text, f[1].text, f[2].text, head
    assert f[0].tag == q + 'Code' and len(f[0]) == 1 and f[0][0].tag == q + 'Value'
    assert f[1].tag == q + 'Reason' and len(f[1]) == 1 and f[1][0].tag == q + 'Text'
    assert f[1][0].get('{http://www.w3.org/XML/1998/namespace}lang') is not None
    if len(f) == 2:
        return f[0][0].text, f[1][0].text, None, head
    assert len(f) == 3 and f[2].tag == q + 'Role'
    return f[0][0].text, f[1][0].text, f[2].text, head


def texts(g, version):
    code = g.pick('code', [version.Code.CLIENT, version.Code.SERVER, lambda: g.xmltext('own code')])
    return code, g.xmltext('message')


def same_text(a, b):
    return (a or '') == (b or '')


@contract('C13', TARGETS, runs=400)
def message(g):
    """A fault message holds code, message and actor, and is read back with them."""
    version = g.pick('version', [soap11, soap12])
    code, text = texts(g, version)
    actor = g.pick('actor', [None, lambda: g.xmltext('actor')])
    content = version.get_error_response(code, text, actor=actor)
    c, m, a, head = fault_texts(content, version)
    g.check('code', same_text(c, code))
    g.check('message', same_text(m, text))
    g.check('actor', same_text(a, actor))
    g.check('no header', head is None)
    f = version.Envelope.parsexml(content).Body.Fault
    c, m, a = version.parse_fault_message(f)
    g.check('code read', same_text(c, code))
    g.check('message read', same_text(m, text))
    g.check('actor read', same_text(a, actor))


class Note(xsd.ComplexType):
    text = xsd.Element(xsd.String, namespace='urn:n')


class NoteHeader(soap11.Header):
    note = xsd.Element(Note, namespace='urn:n')


NoteHeader.SCHEMA = xsd.Schema('urn:n', complexTypes=[Note, NoteHeader])


@contract('C13', TARGETS, runs=400)
def response(g):
    """A SOAP error raised or returned becomes a fault response with status 500 and the response's header."""
    version = g.pick('version', [soap11, soap12])
    code, text = g.xmltext('code'), g.xmltext('message')
    how = g.pick('how', ['raised', 'returned', 'in a response'])
    error = SOAPError(code, text, g.xmltext('actor'))
    header = None
    note = g.xmltext('note')
    if how == 'in a response' and g.bool('header'):
        header = NoteHeader(note=Note(text=note))
    before = g.int('status before', 100, 599)

    class Dispatcher(SOAPDispatcher):
        def middleware(self, i=0):
            def run(request):
                if how == 'raised':
                    raise error
                return error if how == 'returned' else SOAPResponse(error, soap_header=header, http_status_code=before)
            return run
    d = bare(g, version, cls=Dispatcher)
    request = SOAPRequest({}, b'')
    request.method = xsd.Method('op', 'a', output='out') if version is soap11 else None
    r = d.handle_soap_request(request)
    g.check('a response', isinstance(r, SOAPResponse))
    g.check('status', r.http_status_code == 500)
    g.check('content type', r.http_headers['Content-Type'] == version.CONTENT_TYPE)
    c, m, a, head = fault_texts(r.http_content, version)
    g.check('code', same_text(c, code))
    g.check('message', same_text(m, text))
    if header is None:
        g.check('no header', head is None)
    else:
        g.check('the header', head is not None and len(head) == 1 and len(head[0]) == 1 and same_text(head[0][0].text, note))


class Ask(xsd.ComplexType):
    text = xsd.Element(xsd.String)


Ask.SCHEMA = xsd.Schema('urn:s', complexTypes=[Ask])


class Reply:
    def __init__(self, content):
        self.content = content
        self.headers = {}


class Wire:
    pass


def plug(g, content, sent=None):
    """Every request of a client is answered with wire.content."""
    wire = Wire()
    wire.content = content

    def post(*args, **kwargs):
        if sent is not None:
            sent.append((args, kwargs))
        return Reply(wire.content)
    g.override(requests.post, post)
    return wire


def stub_for(g, version):
    s = soap.Stub(service=soap.Service('urn:s', 'http://h/', [], [xsd.Method('op', 'a', input='in', output='out')], version=version),
                  location='http://h/')
    return s


@contract('C13', TARGETS, runs=400)
def client(g):
    """A client that receives a fault raises a SOAP error with what the fault holds."""
    version = g.pick('version', [soap11, soap12])
    code, text = texts(g, version)
    actor = g.pick('actor', [None, lambda: g.xmltext('actor')])
    q = '{' + version.ENVELOPE_NAMESPACE + '}'
    e = etree.Element(q + 'Envelope')
    if g.bool('header'):
        h = etree.SubElement(e, q + 'Header')
        etree.SubElement(h, 'x').text = 'y'
    f = etree.SubElement(etree.SubElement(e, q + 'Body'), q + 'Fault')
    if version is soap11:
        etree.SubElement(f, 'faultcode').text = code
        etree.SubElement(f, 'faultstring').text = text
        if actor is not None:
            etree.SubElement(f, 'faultactor').text = actor
        if g.bool('detail'):
            etree.SubElement(f, 'detail').text = 'd'
    else:
        c = etree.SubElement(f, q + 'Code')
        etree.SubElement(c, q + 'Value').text = code
        if g.bool('subcode'):
            etree.SubElement(etree.SubElement(c, q + 'Subcode'), q + 'Value').text = 'sub'
        t = etree.SubElement(etree.SubElement(f, q + 'Reason'), q + 'Text')
        t.text = text
        t.set('{http://www.w3.org/XML/1998/namespace}lang', 'en')
        if actor is not None:
            etree.SubElement(f, q + 'Role').text = actor
    plug(g, etree.tostring(e))
    ok, x = attempt(stub_for(g, version).call, 'op', Ask(text='x'))
    g.check('a SOAP error', not ok and isinstance(x, SOAPError))
    g.check('code', same_text(x.code, code))
    g.check('message', same_text(x.message, text))
    g.check('actor', same_text(x.actor, actor))


@contract('C13', TARGETS, proof=False, runs=1500, seconds=150)
def end_to_end(g):
    """Handlers, middlewares and hooks that fault; the answer is read by hand and by the client stub."""
    version = g.pick('version', [soap11, soap12])
    code = g.pick('code', [version.Code.CLIENT, version.Code.SERVER, 'Client', 'Server.Custom', 'ns0:Sender', 'a:b', '42', 'é<&>'])
    text = g.pick('text', ['no', 'not found: <x> & "y"', 'é漢', 'two\nlines', ' spaced ', '%s {}', 'a' * 3000, lambda: g.xmltext('any')])
    actor = g.pick('actor', [None, 'urn:actor', 'é'])
    where = g.pick('where', ['handler', 'handler returns', 'handler response', 'middleware', 'middleware returns', 'after'])
    header = g.pick('reply header', [None, lambda: services.ReplyHead(ticket=services.Ticket(user='u<&'))])

    def handler(w, k, request, data):
        if where == 'handler':
            raise SOAPError(code, text, actor)
        if where == 'handler returns':
            return SOAPError(code, text, actor)
        if where == 'handler response':
            return SOAPResponse(SOAPError(code, text, actor), soap_header=header)
        return services.Result(text='fine')

    def middleware(request, next_call):
        if where == 'middleware':
            raise SOAPError(code, text, actor)
        if where == 'middleware returns':
            return SOAPError(code, text, actor)
        r = next_call(request)
        if where == 'after':
            raise SOAPError(code, text, actor)
        return r
    w = services.world(g, version=version, unique=True, headers=False, handler=handler)
    if header is not None:
        services.ReplyHead.SCHEMA = w.schema
    d = services.make(w, middlewares=[middleware] if g.bool('with middleware') or where in ('middleware', 'middleware returns', 'after') else [])
    k = g.int('operation', 0, len(w.methods) - 1)
    r = services.post(w, d, services.envelope(w, [services.data_element(w, w.methods[k].input, ('a', None, [], None))]),
                      w.methods[k].soapAction if g.bool('by action') else None)
    g.check('status', r.http_status_code == 500 and r.http_status_text == '500 Internal Server Error')
    kind, c, m, head = services.answer(w, r.http_content)
    g.check('a fault', kind == 'fault')
    g.same('code', c, str(getattr(code, 'value', code)))
    g.same('message', m, text or None)
    if where == 'handler response' and header is not None:
        g.check('header', head is not None and [x.text for h in head for x in h.iter() if x.text] == ['u<&'])
    else:
        g.check('no header', not head)
    s = soap.Stub(service=w.service, location='http://host/ws')
    wire = plug(g, r.http_content)
    ok, x = attempt(s.call, w.methods[k].operationName, services.Data(text='x'))
    g.check('a SOAP error at the client', not ok and isinstance(x, SOAPError))
    g.same('code there', x.code, str(getattr(code, 'value', code)))
    g.same('message there', x.message, text or None)
    # a fault with an actor, built and read by the library
    wire.content = version.get_error_response(code, text, actor=actor)
    ok, x = attempt(stub_for(g, version).call, 'op', Ask(text='x'))
    g.check('a SOAP error', not ok and isinstance(x, SOAPError))
    g.same('all of it', (x.code, x.message, x.actor), (str(getattr(code, 'value', code)), text or None, actor))
