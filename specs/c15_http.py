"""C15 HTTP front ends pass requests and responses on faithfully."""
import io
import string
from urllib.parse import quote

import django.http
import django.views.decorators.csrf
import flask
from django.conf import settings

from soapfish import core, django_, flask_, soap, soap11, soap12, soap_dispatch, xsd
from soapfish.core import SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
from vc.contract import contract

from . import services
from .c12_requests import bare
from .lib import attempt

if not settings.configured:
    settings.configure(ALLOWED_HOSTS=['*'], DEBUG=True, LOGGING_CONFIG=None, USE_I18N=False, USE_TZ=True)

TARGETS = ['soapfish.soap_dispatch.SOAPDispatcher.dispatch', 'soapfish.soap_dispatch.SOAPDispatcher.handle_wsdl_request',
           'soapfish.soap_dispatch.SOAPDispatcher.handle_xsd_request', 'soapfish.soap_dispatch.WsgiSoapApplication.__call__',
           'soapfish.django_.django_dispatcher', 'soapfish.flask_.flask_dispatcher', 'soapfish.core.SOAPResponse.http_status_text']


def wants_wsdl(query):
    return any(p.split('=')[0] in ('wsdl', 'singleWsdl') for p in query.split('&'))


def wants_xsd(query):
    return any(p.split('=')[0] == 'xsd' for p in query.split('&'))


@contract('C15', TARGETS)
def by_method(g):
    """GET with wsdl, GET with xsd and POST reach their handler with the request; everything else is refused."""
    log = []
    answer = SOAPResponse('x', http_content=b'x')

    class Dispatcher(SOAPDispatcher):
        def handle_wsdl_request(self, request):
            log.append(('wsdl', request))
            return answer

        def handle_xsd_request(self, request):
            log.append(('xsd', request))
            return answer

        def handle_soap_request(self, request):
            log.append(('soap', request))
            return answer
    d = bare(g, soap11, cls=Dispatcher)
    method = g.str('method')
    if not g.symbolic:
        method = g.pick('one method', ['GET', 'POST', 'PUT', 'HEAD', 'OPTIONS', 'get', 'Post', '', 'DELETE', method])
    env = {}
    if g.bool('with method'):
        env['REQUEST_METHOD'] = method
    else:
        method = ''
    query = g.pick('query', [None, '', 'wsdl', 'singleWsdl', 'wsdl=', 'wsdl=1', 'a=b&wsdl', 'WSDL', 'xsd', 'xsd=', 'xsd=a', 'a=1&xsd=b',
                             'wsdl&xsd=a', 'xsd=a&wsdl', 'a=wsdl', 'a=xsd', 'awsdl', 'xsd2=a', '&', 'wsdl1'])
    if query is not None:
        env['QUERY_STRING'] = query
    else:
        query = ''
    request = SOAPRequest(env, b'')
    r = d.dispatch(request)
    want = None
    if method == 'GET' and wants_wsdl(query):
        want = 'wsdl'
    elif method == 'GET' and wants_xsd(query):
        want = 'xsd'
    elif method == 'POST':
        want = 'soap'
    if want is None:
        g.check('refused', not log and r.http_status_code == 400)
        g.check('with a content', isinstance(r.http_content, bytes))
    else:
        g.same('the handler', log, [(want, request)])
        g.check('its answer', r is answer)


@contract('C15', TARGETS)
def schemas_served(g):
    """GET xsd=NAME serves the schema of that name or status 404."""
    d = bare(g, soap11)
    contents = {'a': g.bytes('content of a'), 'b/c.xsd': g.bytes('content of b'), 'x y': g.bytes('content of x y'),
                'http://h/?q=1&r=é': g.bytes('content of url')}
    d.xsds = contents
    name = g.pick('name', ['a', 'b/c.xsd', 'x y', 'http://h/?q=1&r=é', 'A', 'c', '', 'b', 'a '])
    extra = g.pick('extra', ['', 'x=1', 'xsd2=b'])
    query = (extra + '&' if extra else '') + 'xsd=' + quote(name)
    r = d.dispatch(SOAPRequest({'REQUEST_METHOD': 'GET', 'QUERY_STRING': query}, b''))
    if name in contents:
        g.check('served', r.http_status_code == 200 and r.http_content is contents[name])
        g.check('as XML', r.http_headers['Content-Type'] == 'text/xml')
    else:
        g.check('not found', r.http_status_code == 404 and isinstance(r.http_content, bytes))


@contract('C15', TARGETS)
def description_served(g):
    """GET wsdl serves the description, with scheme and host of the request filled in."""
    d = bare(g, soap11)
    d.wsdl = g.pick('description', [b'<a location="${scheme}://${host}/ws"/>', b'<a location="http://h/$x$/${y}"/>',
                                    '<a>\u00e9 ${host}</a>'.encode()])
    env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': g.pick('query', ['wsdl', 'singleWsdl', 'wsdl=x'])}
    host = g.pick('host', [None, 'h', 'h.example:8080'])
    scheme = g.pick('scheme', [None, 'http', 'https'])
    if host is not None:
        env['HTTP_HOST'] = host
    if scheme is not None:
        env['wsgi.url_scheme'] = scheme
    outside = g.pick('scheme outside', [None, 'https', 'http'])
    if outside is not None:
        # A proxy says how the client came:
        env['X_FORWARDED_PROTO'] = scheme = outside
    r = d.dispatch(SOAPRequest(env, b''))
    want = d.wsdl.decode()
    if host is not None:
        want = want.replace('${host}', host).replace('${scheme}', scheme or 'http')
    g.check('served', r.http_status_code == 200 and r.http_content == want.encode())
    g.check('as XML', r.http_headers['Content-Type'] == 'text/xml')


class Peer:
    """Stands for a dispatcher: records the request and returns the given response."""

    def __init__(self, response):
        self.response, self.seen = response, []

    def dispatch(self, request):
        self.seen.append(request)
        return self.response


def some_response(g, code):
    return SOAPResponse(None, http_status_code=code, http_content=g.bytes('content'), http_headers=g.pick('headers', [
        lambda: {}, lambda: {'Content-Type': g.name('type')}, lambda: {'Content-Type': 'text/xml', 'X-A': g.name('a'), 'b': g.name('b')}]))


class Input:
    def __init__(self, content, reads):
        self.content, self.reads = content, reads

    def read(self, n=None):
        self.reads.append(n)
        return self.content


@contract('C15', TARGETS)
def wsgi(g):
    """The WSGI application hands on environment and content, and status, headers and content of the answer."""
    response = some_response(g, g.pick('status', [200, 400, 404, 500, 299, 503]))
    peer = Peer(response)
    reads, started = [], []
    content = g.bytes('posted')
    n = g.int('length', 0)
    env = {'wsgi.input': Input(content, reads), 'REQUEST_METHOD': 'POST', 'A': g.name('variable')}
    declared = g.pick('declared', ['yes', 'no', 'empty'])
    if declared == 'yes':
        env['CONTENT_LENGTH'] = str(n)
    elif declared == 'empty':
        env['CONTENT_LENGTH'] = ''

    def start_response(status, headers):
        started.append((status, headers))
    out = WsgiSoapApplication(peer)(env, start_response)
    g.same('exactly the declared length is read', reads, [n if declared == 'yes' else 0])
    g.check('dispatched once', len(peer.seen) == 1)
    g.check('the environment', peer.seen[0].environ is env)
    g.check('the content', peer.seen[0].http_content is content)
    g.check('answered once', len(started) == 1)
    g.check('status', started[0][0].split(' ')[0] == str(response.http_status_code) and len(started[0][0]) > 4)
    g.same('headers', list(started[0][1]), [(k, v) for k, v in response.http_headers.items()])
    g.check('content', len(out) == 1 and out[0] is response.http_content)


class FakeHeaders:
    def __init__(self, items):
        self.names, self.values_ = [], []
        self.update(items)

    def __setitem__(self, k, v):
        for i in range(len(self.names)):
            if self.names[i].lower() == k.lower():
                self.names[i], self.values_[i] = k, v
                return
        self.names.append(k)
        self.values_.append(v)

    set = __setitem__

    def __getitem__(self, k):
        for i in range(len(self.names)):
            if self.names[i].lower() == k.lower():
                return self.values_[i]
        raise KeyError(k)

    def items(self):
        return [(self.names[i], self.values_[i]) for i in range(len(self.names))]

    def update(self, items):
        for k, v in items.items() if isinstance(items, (dict, FakeHeaders)) else items:
            self[k] = v


class FakeResponse:
    """A response of the framework."""

    def __init__(self, content=b'', status=None, headers=None, mimetype=None, content_type=None, response=None, reason=None,
                 charset=None, direct_passthrough=False):
        self.content = content if response is None else response
        self.status_code = 200
        if status is not None:
            self.status_code = status if isinstance(status, int) else int(status.split(' ')[0])
        self.headers = FakeHeaders({'Content-Type': content_type or mimetype or 'text/html'})
        if headers is not None:
            self.headers.update(headers)

    def __setitem__(self, k, v):
        self.headers[k] = v

    def __getitem__(self, k):
        return self.headers[k]

    def set_data(self, content):
        self.content = content


class FakeRequest:
    def __init__(self, environ, content):
        self.environ = environ
        self.META = environ
        self.body = content
        self.content = content

    def get_data(self, *args, **kw):
        return self.content


CONSULTED = ['REQUEST_METHOD', 'QUERY_STRING', 'CONTENT_TYPE', 'HTTP_HOST', 'wsgi.url_scheme', 'HTTP_SOAPACTION', 'SOAPACTION', 'ACTION']


def framework(g, module, install):
    created = []
    response = some_response(g, g.int('status', 100, 599))
    service = g.opaque('service')
    hooks = g.opaque('hooks')
    peers = []

    def factory(*args, **kw):
        created.append((args, kw))
        peers.append(Peer(response))
        return peers[-1]
    g.override(SOAPDispatcher, factory)
    env = {}
    for k in CONSULTED:
        if g.bool('with ' + k) if k in ('SOAPACTION', 'ACTION') else True:
            env[k] = g.str(k)
    content = g.bytes('posted')
    out = install(service, hooks, FakeRequest(env, content))
    g.check('one dispatcher', len(created) == 1)
    args, kw = created[0]
    g.check('for the service', (list(args) + [kw.get('service')])[0] is service and kw.get('hooks') is hooks)
    g.check('dispatched once', len(peers[0].seen) == 1)
    seen = peers[0].seen[0]
    for k in CONSULTED:
        if k in env:
            g.check('environment: ' + k, seen.environ.get(k) == env[k])
    g.check('nothing invented', seen.environ.get('X_FORWARDED_PROTO') is None and seen.environ.get('ELSE', 'd') == 'd')
    g.check('the content', seen.http_content is content)
    g.check('status', out.status_code == response.http_status_code)
    for k, v in response.http_headers.items():
        g.check('header', out.headers[k] == v)
    g.check('no other header', all(k in response.http_headers or k == 'Content-Type' for k, v in out.headers.items()))
    g.check('content', out.content is response.http_content)


@contract('C15', TARGETS)
def django_view(g):
    """The Django view: the same with the framework's classes replaced by recorders."""
    def install(service, hooks, request):
        g.replace(django.http, 'HttpResponse', FakeResponse)
        g.override(django.views.decorators.csrf.csrf_exempt, lambda f: f)
        return django_.django_dispatcher(service, hooks=hooks)(request)
    framework(g, django_, install)


@contract('C15', TARGETS)
def flask_view(g):
    """The Flask view: the same."""
    def install(service, hooks, request):
        g.replace(flask, 'request', request)
        g.replace(flask, 'Response', FakeResponse)
        return flask_.flask_dispatcher(service, hooks=hooks)()
    framework(g, flask_, install)


def through_wsgi(app, env):
    got = []
    body = app(env, lambda status, headers, exc_info=None: got.append((status, headers)))
    content = b''.join(body)
    return int(got[0][0].split(' ')[0]), dict(got[0][1]), content


def send(front, d_factory, env):
    """(status, headers, content) of a request through a front end."""
    if front == 'wsgi':
        return through_wsgi(WsgiSoapApplication(d_factory('wsgi')), env)
    if front == 'django':
        from django.core.handlers.wsgi import WSGIRequest
        r = d_factory('django')(WSGIRequest(env))
        return r.status_code, dict(r.items()), r.content
    app = flask.Flask('x')
    app.add_url_rule('/', 'ws', d_factory('flask'), methods=['GET', 'POST', 'PUT', 'DELETE', 'PATCH'])
    return through_wsgi(app.wsgi_app, env)


def wsgi_environ(w, method, query, content, action=None):
    env = services.environ(w, action, method=method, QUERY_STRING=query)
    env.update({'wsgi.input': io.BytesIO(content), 'CONTENT_LENGTH': str(len(content)), 'SERVER_NAME': 'host', 'SERVER_PORT': '80',
                'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.errors': io.StringIO(), 'wsgi.version': (1, 0), 'wsgi.multithread': False,
                'wsgi.multiprocess': False, 'wsgi.run_once': False})
    return env


@contract('C15', TARGETS, proof=False, runs=600, seconds=200)
def frameworks(g):
    """The real frameworks around a recording dispatcher: any content type, method, query, bytes and answer."""
    front = g.pick('front', ['wsgi', 'django', 'flask'])
    content = g.pick('content', [b'', b'a=b&c=d', b'<a/>', '\u00e9'.encode(), b'\x00\xff', b'x' * 100000, lambda: g.bytes('bytes')])
    code = g.pick('status', [200, 201, 400, 404, 500, 503, 299])
    answer = g.pick('answer', [b'', b'ok', '<\u00e9/>'.encode(), b'\x00\xff', b'y' * 50000, lambda: g.bytes('answer bytes')])
    headers = g.pick('headers', [{}, {'Content-Type': 'text/xml'}, {'Content-Type': 'application/soap+xml', 'X-Custom': 'a b'},
                                 {'content-type': 'text/plain', 'Cache-Control': 'no-store'}])
    method = g.pick('method', ['GET', 'POST', 'PUT', 'DELETE'])
    query = g.pick('query', ['', 'wsdl', 'xsd=a%20b', 'a=%C3%A9'])
    ctype = g.pick('type', ['text/xml', 'application/x-www-form-urlencoded', 'application/soap+xml; action="x"', 'multipart/form-data; boundary=x', ''])
    seen = []

    class Dispatcher:
        def dispatch(self, request):
            env = request.environ
            seen.append(({k: env.get(k) for k in CONSULTED}, request.http_content))
            return SOAPResponse('x', http_content=answer, http_status_code=code, http_headers=dict(headers))
    g.override(SOAPDispatcher, lambda *args, **kw: Dispatcher())

    def factory(kind):
        if kind == 'wsgi':
            return Dispatcher()
        return django_.django_dispatcher(None) if kind == 'django' else flask_.flask_dispatcher(None)
    w = services.World()
    w.version = soap11
    env = wsgi_environ(w, method, query, content)
    env['CONTENT_TYPE'] = ctype
    scheme = g.pick('scheme', ['http', 'https'])
    env['wsgi.url_scheme'] = scheme
    if g.bool('with action'):
        env['HTTP_SOAPACTION'] = '"urn:a"'
    before = {k: env.get(k) for k in CONSULTED}
    if front == 'wsgi' and g.bool('longer stream'):
        env['wsgi.input'] = io.BytesIO(content + b'next request')
    got = send(front, factory, env)
    g.check('dispatched once', len(seen) == 1)
    want = dict(before)
    if front == 'django':
        if want['SOAPACTION'] is None:
            want['SOAPACTION'] = want['HTTP_SOAPACTION']
    g.same('environment', seen[0][0], want)
    g.same('content', seen[0][1], content)
    g.same('status', got[0], code)
    lower = {k.lower(): v for k, v in got[1].items()}
    for k, v in headers.items():
        g.same('header ' + k, lower.get(k.lower()), v)
    g.same('answer', got[2], answer)


@contract('C15', TARGETS, proof=False, runs=250, seconds=200)
def services_served(g):
    """Real services through the real frameworks, against the dispatcher called directly."""
    w = services.world(g, unique=True, headers=False)
    front = g.pick('front', ['wsgi', 'django', 'flask'])
    xsds = g.pick('schemas', [None, {'a b': b'<schema/>', 'q': b'<q/>'}])
    kw = {'xsds': xsds} if xsds is not None else {}

    def factory(kind):
        if kind == 'wsgi':
            return services.make(w, **kw)
        return django_.django_dispatcher(w.service, **kw) if kind == 'django' else flask_.flask_dispatcher(w.service, **kw)
    method = g.pick('method', ['POST', 'POST', 'GET', 'PUT', 'DELETE'])
    query = g.pick('query', ['', 'wsdl', 'singleWsdl', 'xsd=q', 'xsd=a+b', 'xsd=none', 'xsd='])
    k = g.int('operation', 0, len(w.methods) - 1)
    content = services.envelope(w, [services.data_element(w, w.methods[k].input, services.data(g, 'd'))])
    if method == 'POST' and g.bool('bad content'):
        content = g.pick('bad', [b'', b'<a', content[:-5], content.replace(b'text', b'tixt')])
    action = w.methods[k].soapAction if g.bool('by action') else None
    got = send(front, factory, wsgi_environ(w, method, query, content, action))
    calls = [c[0] for c in w.calls]
    direct = services.make(w, **kw).dispatch(SOAPRequest(wsgi_environ(w, method, query, content, action), content))
    g.same('the same handler', [c[0] for c in w.calls], calls * 2)
    g.same('status', got[0], direct.http_status_code)
    g.same('content', got[2], direct.http_content)
    lower = {k.lower(): v for k, v in got[1].items()}
    for h, v in direct.http_headers.items():
        g.same('header ' + h, lower.get(h.lower()), v)
    if method == 'GET':
        name = {'xsd=q': 'q', 'xsd=a+b': 'a b'}.get(query)
        if 'sdl' in query:
            g.check('description', got[0] == 200 and b'definitions' in got[2] and b'://host/ws' in got[2])
        elif name and xsds:
            g.check('schema', got[0] == 200 and got[2] == xsds[name])
        elif query.startswith('xsd='):
            g.check('no schema', got[0] == 404)
        else:
            g.check('refused', got[0] == 400)
    elif method != 'POST':
        g.check('refused', got[0] == 400)
    else:
        g.check('SOAP', services.answer(w, got[2])[0] in ('answer', 'fault'))
