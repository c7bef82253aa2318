"""C22 Requests leave no trace in the dispatcher."""
from lxml import etree

from soapfish import core, soap, soap11, soap12, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher
from vc.contract import contract

from . import services
from .c12_requests import Element, Reader, bare, invalid, node, tree
from .c20_client import Answer, AnswerHead, Ask, SCHEMA
from .lib import attempt, model, settled, Probe

settled(soap11, soap12, xsd)
for c in Ask, Answer, AnswerHead:
    c._force_elements_type_evalution()

TARGETS = ['soapfish.soap_dispatch.SOAPDispatcher.dispatch', 'soapfish.soap_dispatch.SOAPDispatcher.handle_soap_request',
           'soapfish.soap_dispatch.SOAPDispatcher.handle_wsdl_request', 'soapfish.soap_dispatch.SOAPDispatcher.handle_xsd_request',
           'soapfish.soap_dispatch.SOAPDispatcher._prepare_request', 'soapfish.core.SOAPResponse.__init__', 'soapfish.core.SOAPRequest.__init__']


@contract('C22', TARGETS, runs=100)
def descriptions(g):
    """Serving the description or a schema writes to nothing; the same request has the same answer."""
    d = bare(g, soap11)
    d.wsdl = g.pick('description', [b'<a location="${scheme}://${host}/ws"/>', b'<a/>'])
    d.xsds = {'a': g.bytes('content')}
    env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': g.pick('query', ['wsdl', 'xsd=a', 'xsd=b', 'x'])}
    if g.bool('host'):
        env['HTTP_HOST'] = 'h'
        env['wsgi.url_scheme'] = 'https'
    ok, r = g.frame('nothing written', lambda: d.dispatch(SOAPRequest(env, b'')))
    g.check('answered', ok)
    r.http_headers['X'] = 'y'
    again = d.dispatch(SOAPRequest(env, b''))
    g.check('the same answer', again.http_content == r.http_content and again.http_status_code == r.http_status_code)
    g.check('a clean one', 'X' not in again.http_headers)


@contract('C22', TARGETS, runs=300)
def handling(g):
    """Handling a SOAP request, whatever becomes of it, writes to nothing but the request."""
    version = g.pick('version', [soap11, soap12])
    what = g.pick('handler', ['answers', 'answers in full', 'faults', 'returns a fault'])
    text = g.xmltext('answer')

    def function(request, body):
        if what == 'faults':
            raise SOAPError('code', text)
        if what == 'returns a fault':
            return SOAPError('code', text)
        a = Answer(text=text)
        return SOAPResponse(a) if what == 'answers in full' else a
    valid = g.fn('valid', 'bool')

    def validator(e):
        if not valid(e.text):
            raise invalid()
    method = xsd.Method('op', 'urn:a', input='ask', output='answer', function=function)
    other = xsd.Method('other', 'urn:b', input='other', output='answer', function=function)
    d = bare(g, version, methods=[other, method], schemas=[SCHEMA], validator=validator)
    q = '{' + version.ENVELOPE_NAMESPACE + '}'
    e = etree.Element(q + 'Envelope')
    if g.bool('header'):
        etree.SubElement(etree.SubElement(e, q + 'Header'), '{urn:n}note').text = g.xmltext('note')
    x = etree.SubElement(etree.SubElement(e, q + 'Body'), '{urn:s}' + g.pick('root', ['ask', 'unknown']))
    x.text = g.xmltext('inside')
    request = SOAPRequest({'REQUEST_METHOD': 'POST'}, etree.tostring(e))
    ok, r = g.frame('nothing written', lambda: d.dispatch(request), [request])
    g.check('answered', ok and isinstance(r, SOAPResponse))


@contract('C22', TARGETS, runs=300)
def unreadable(g):
    """The same for content that cannot be read."""
    d = bare(g)
    request = SOAPRequest({'REQUEST_METHOD': 'POST'}, g.bytes('content'))
    text = g.str('text')
    what = g.pick('error', [lambda: etree.XMLSyntaxError('bad', 1, 1, 1), lambda: ValueError(text)])

    def parsexml(cls, xml, schema=None):
        raise what
    g.override(xsd.ComplexType.parsexml.__func__, parsexml)
    ok, r = g.frame('nothing written', lambda: d.dispatch(request), [request])
    g.check('answered', ok and r.http_status_code == 500)


@contract('C22', TARGETS, runs=300)
def fresh_headers(g):
    """Every response and request starts with its own, empty state."""
    a, b = SOAPResponse(g.opaque('a')), SOAPResponse(g.opaque('b'))
    a.http_headers['X'] = 'y'
    g.check('own headers', b.http_headers == {} and SOAPResponse(g.opaque('c')).http_headers == {})
    given = {'X': 'z'}
    c = SOAPResponse(g.opaque('d'), http_headers=given)
    g.check('headers given', c.http_headers == {'X': 'z'})
    r = SOAPRequest({}, b'')
    r.method, r.soap_body, r.soap_header, r.dispatcher = 1, 2, 3, 4
    s = SOAPRequest({}, b'')
    g.check('nothing in a new request', s.method is None and s.soap_body is None and s.soap_header is None and s.dispatcher is None)


class Watched:
    """Requests with what they should lead to."""


def request(g, w, at):
    """A request of any kind: (environment, content)."""
    kind = g.pick(at, ['valid', 'valid', 'valid', 'invalid', 'garbage', 'unknown', 'action', 'header', 'bad header', 'wsdl', 'xsd', 'other'])
    host = g.pick(at + ' host', ['h1', 'h2:8080'])
    more = {'HTTP_HOST': host, 'wsgi.url_scheme': g.pick(at + ' scheme', ['http', 'https'])}
    if kind in ('wsdl', 'xsd', 'other'):
        q = {'wsdl': 'wsdl', 'xsd': g.pick(at + ' xsd', ['xsd=part.xsd', 'xsd=none', 'xsd']), 'other': ''}[kind]
        return services.environ(w, None, 'GET', QUERY_STRING=q, **more), b''
    m = g.pick(at + ' operation', w.methods)
    body = services.data_element(w, 'unheard' if kind == 'unknown' else m.input, services.data(g, at))
    header = None
    if kind == 'invalid':
        body.append(etree.Element('surprise'))
    if kind == 'header' or g.bool(at + ' ticket'):
        header = [services.ticket_element(w, g.pick(at + ' user', services.TEXTS))]
    if kind == 'bad header':
        header = [etree.Element('{urn:foreign}part')]
    content = services.envelope(w, [body], header)
    if kind == 'garbage':
        content = content[:g.int(at + ' cut', 0, len(content) - 1)]
    action = None
    if g.bool(at + ' by action'):
        action = 'urn:none' if kind == 'action' else m.soapAction
    return services.environ(w, action, **more), content


def asked(d, env, content):
    ok, r = attempt(d.dispatch, SOAPRequest(dict(env), content))
    if not ok:
        return 'raised', type(r), str(r)
    return r.http_status_code, r.http_status_text, r.http_content, dict(r.http_headers)


@contract('C22', TARGETS, proof=False, runs=1000, seconds=250)
def histories(g):
    """Any sequence of requests: each has the answer a fresh dispatcher gives, at any time and from any of several dispatchers."""
    def handler(w, k, request, data):
        text = '%d %s %s' % (k, data.text, data.number)
        if request.soap_header is not None and request.soap_header.ticket is not None:
            text += ' for ' + request.soap_header.ticket.user
        if request.method is not w.methods[k]:
            text += ' strange'
        if data.text == '0':
            raise SOAPError(w.version.Code.SERVER, 'no: ' + text)
        if data.text == 'true':
            return SOAPError('Own', text)
        r = services.Result(text=text)
        for i in range(len(data.items)):
            r.numbers.append(i)
        # what a handler does with what it was given is its own affair
        data.items.append('more')
        data.text = 'changed'
        if len(data.items) == 2:
            x = SOAPResponse(r, soap_header=services.ReplyHead(ticket=services.Ticket(user=text)))
            x.http_headers['X-Own'] = 'y'
            return x
        return r
    w = services.world(g, unique=True, handler=handler)
    services.ReplyHead.SCHEMA = w.schema
    part = xsd.Schema('urn:part', location='part.xsd', elements={'p': xsd.Element(xsd.String)})
    if g.bool('imports'):
        w.schema.imports = [part]
    log = []

    def middleware(request, next_call):
        log.append(request)
        r = next_call(request)
        r = r if isinstance(r, SOAPResponse) else SOAPResponse(r)
        r.http_headers['X-Middleware'] = str(len(request.http_content))
        return r

    def soap_response(dispatcher, request, response):
        response.http_headers['X-Hook'] = 'z'
        return response

    def any_request(dispatcher, request):
        return SOAPRequest(dict(request.environ, seen='yes'), request.http_content)
    options = {'strict_soap_header': g.bool('strict')}
    if g.bool('middleware'):
        options['middlewares'] = [middleware]
    if g.bool('hooks'):
        options['hooks'] = {'soap-response': soap_response, 'soap-request': any_request}

    def made():
        return services.make(w, **{k: list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in options.items()})
    used, second = made(), made()
    distinct = [request(g, w, f'request {k}') for k in range(g.int('requests', 2, 6))]
    alone = [asked(made(), *r) for r in distinct]
    order = [g.int(f'turn {k}', 0, len(distinct) - 1) for k in range(g.int('turns', 2, 12))]
    for n, k in enumerate(order):
        d = second if g.bool(f'turn {n} elsewhere') else used
        g.same('the answer it has alone', asked(d, *distinct[k]), alone[k])
    for k, r in enumerate(distinct):
        g.same('still the answer it has alone', asked(used, *r), alone[k])
        g.same('also from a new dispatcher', asked(made(), *r), alone[k])


@contract('C22', TARGETS, proof=False, runs=300, seconds=100)
def client_histories(g):
    """Model classes after requests: new objects start empty, whatever requests held."""
    w = services.world(g, unique=True)
    d = services.make(w)
    for k in range(g.int('requests', 1, 4)):
        asked(d, *request(g, w, f'request {k}'))
        g.check('a new object is empty', services.held(services.Data()) == (None, None, [], None))
        e = w.version.Envelope()
        g.check('a new envelope is empty', e.Header is None and e.Body is None)
        g.check('a new header is empty', services.Head().ticket is None)
