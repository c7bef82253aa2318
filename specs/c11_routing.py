"""C11 Each request reaches the operation it names."""
from lxml import etree

from soapfish import core, soap, soap11, soap12, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher, call_method
from vc.contract import contract

from . import services
from .lib import attempt

TARGETS = ['soapfish.soap_dispatch.SOAPDispatcher._find_handler_for_request', 'soapfish.soap_dispatch.call_method',
           'soapfish.soap_dispatch.SOAPDispatcher._prepare_request']


class Elements:
    """A mapping of any number of element names to elements."""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs


NAMES = ['a', 'b', 'ab', 'É', 'getA']


def some_name(e, name, without=''):
    return e.str(name, without, nonempty=True) if e.symbolic or not e.bool(name + ' common') else e.pick(name + ' of', NAMES)


def operation(e):
    return xsd.Method(some_name(e, 'name'), e.str('action'), input=e.pick('input kind', [lambda: some_name(e, 'input'), None]),
                      function=e.opaque('function'))


def declared(e):
    return some_name(e, 'element'), xsd.Element(xsd.String, substitutionGroup=e.pick('head', [
        None, lambda: some_name(e, 'group', ':'), lambda: 'sns:' + some_name(e, 'group', ':')]))


def some_schema(e):
    s = xsd.Schema('urn:s')
    pairs = e.list('elements', declared)
    s.elements = Elements(pairs) if e.symbolic else dict(pairs)
    return s


def dispatcher(g, methods, schemas, version):
    d = object.__new__(SOAPDispatcher)
    d.service = soap.Service('urn:s', 'location', schemas, methods, version=version)
    return d


def body_root(g):
    root = g.str('root', '{}', nonempty=True) if g.symbolic else g.pick('root', NAMES)
    return root, etree.Element(g.pick('namespace', ['', '{urn:s}']) + root)


def request_with(version, action):
    env = {}
    if action is not None:
        if version is soap11:
            env['SOAPACTION'] = action
        else:
            env['CONTENT_TYPE'] = 'application/soap+xml; action="' + action + '"'
    return SOAPRequest(env, b'')


@contract('C11', TARGETS, runs=500)
def by_action(g):
    """With an action: the first operation that declares exactly it, or a client fault."""
    action = g.str('action', '"\\\r\n', nonempty=True)
    if not g.symbolic:
        action = g.pick('one', ['a', 'b', 'urn:x', action])
    methods = g.list('methods', operation)
    d = dispatcher(g, methods, g.list('schemas', some_schema), soap11)
    root, body = body_root(g)
    want = next((m for m in methods if m.soapAction == action), None)
    ok, m = attempt(d._find_handler_for_request, request_with(soap11, action), body)
    g.check('found exactly if declared', ok == (want is not None))
    if ok:
        g.check('the first one', m is want)
    else:
        g.check('a client fault', isinstance(m, SOAPError) and m.code == soap11.Code.CLIENT)


@contract('C11', TARGETS, runs=800, seconds=120)
def by_root(g):
    """Without an action: the first operation whose input is named like the root, or else like its substitution head."""
    methods = g.list('methods', operation)
    schemas = g.list('schemas', some_schema)
    version = g.pick('version', [soap11, soap12])
    d = dispatcher(g, methods, schemas, version)
    root, body = body_root(g)
    want = next((m for m in methods if m.input == root), None)
    if want is None:
        e = next((e for s in schemas for n, e in s.elements.items() if n == root), None)
        if e is not None and e.substitutionGroup is not None:
            head = e.substitutionGroup.split(':')[-1]
            want = next((m for m in methods if m.input == head), None)
    ok, m = attempt(d._find_handler_for_request, request_with(version, None), body)
    g.check('found exactly if declared', ok == (want is not None))
    if ok:
        g.check('the right one', m is want)
    else:
        g.check('a client fault', isinstance(m, SOAPError) and m.code == version.Code.CLIENT)


@contract('C11', TARGETS, runs=200)
def handler_call(g):
    """Exactly the handler of the operation found is called, once, with the request and the parsed body."""
    calls, prepared = [], []
    content = g.opaque('content')
    result = g.pick('result', [lambda: g.opaque('result'), lambda: SOAPResponse(g.opaque('body')), None])

    def function(request, body):
        calls.append((request, body))
        return result

    class Dispatcher:
        def _prepare_request(self, request):
            prepared.append(request)
            request.soap_body = content
            request.method = xsd.Method('op', 'a', function=function)
    r = SOAPRequest({}, b'')
    r.dispatcher = Dispatcher()
    out = call_method(r)
    g.same('prepared once', prepared, [r])
    g.same('called once', calls, [(r, content)])
    g.check('a response', isinstance(out, SOAPResponse))
    if isinstance(result, SOAPResponse):
        g.check('the very one returned', out is result)
    else:
        g.check('holding the result', out.soap_body is result)


@contract('C11', TARGETS, proof=False, runs=1500, seconds=120)
def requests(g):
    """Generated services and requests through the dispatcher."""
    w = services.world(g, headers=False)
    d = services.make(w)
    name = g.pick('root', [m.input for m in w.methods] + list(w.elements) + ['unknown'])
    action = g.pick('action', [None, '', 'urn:unknown'] + [m.soapAction for m in w.methods] + services.ACTIONS)
    g.assume(name not in ('result', 'Answer', 'ticket', 'Ticket'))
    content = services.data(g, 'd')
    r = services.post(w, d, services.envelope(w, [services.data_element(w, name, content)]), action)
    want = None
    if name in w.elements:
        if action:
            want = next((k for k, m in enumerate(w.methods) if m.soapAction == action), None)
        else:
            want = next((k for k, m in enumerate(w.methods) if m.input == name), None)
            if want is None:
                head = w.elements[name].substitutionGroup
                want = next((k for k, m in enumerate(w.methods) if m.input == head), None) if head else None
    kind, code, message, _ = services.answer(w, r.http_content)
    g.same('calls', [k for k, _, _ in w.calls], [] if want is None else [want])
    if want is None:
        g.check('a client fault', kind == 'fault' and code == services.CLIENT[w.version] and r.http_status_code == 500)
    else:
        g.same('content', services.held(w.calls[0][2]), content)
        g.check('answered', kind == 'answer' and code == w.methods[want].output and r.http_status_code == 200)
