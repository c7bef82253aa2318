"""C14 Middlewares and hooks wrap every request in order, once."""
from lxml import etree

from soapfish import core, py2xsd, soap, soap11, soap12, soap_dispatch, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher
from vc.contract import contract

from . import services
from .c12_requests import bare
from .lib import attempt

TARGETS = ['soapfish.soap_dispatch.SOAPDispatcher.middleware', 'soapfish.soap_dispatch.SOAPDispatcher._call_hook',
           'soapfish.soap_dispatch.SOAPDispatcher.handle_soap_request', 'soapfish.soap_dispatch.SOAPDispatcher.handle_wsdl_request',
           'soapfish.soap_dispatch.SOAPDispatcher.handle_xsd_request', 'soapfish.soap_dispatch.SOAPDispatcher.__init__']
NAMES = ['soap-request', 'soap-response', 'wsdl-request', 'wsdl-response', 'xsd-request', 'xsd-response']


class Link:
    """A middleware about which nothing is known; it records its calls."""

    def __init__(self, e, log):
        self.out = e.opaque('out')
        self.log = log

    def __call__(self, request, next_call):
        self.log.append((self, request, next_call))
        return self.out

    def __eq__(self, other):
        return isinstance(other, Link)

    def __hash__(self):
        return 0


@contract('C14', TARGETS)
def link(g):
    """For a list of any length: link i of the chain runs middleware i with link i + 1; the last one runs the operation."""
    log, asked, ran, went = [], [], [], []
    result, rest = g.opaque('result'), g.opaque('result of the rest')
    mws = g.list('middlewares', lambda e: Link(e, log))
    n = len(mws)
    at = g.int('at', 0, n)
    first = at == n

    def tail(request):
        went.append(request)
        return rest

    class Dispatcher(SOAPDispatcher):
        def middleware(self, i=0):
            if len(asked) == 0:
                asked.append(i)
                return SOAPDispatcher.middleware(self, i)
            asked.append(i)
            return tail

    def operation(request):
        ran.append(request)
        return result
    g.override(soap_dispatch.call_method, operation)
    d = bare(g, soap11, cls=Dispatcher)
    d.middlewares = mws
    request = SOAPRequest({}, b'')
    call = d.middleware(at)
    g.check('nothing runs before the call', not log and not ran)
    out = call(request)
    if first:
        g.same('the operation runs', ran, [request])
        g.check('its result', out is result)
        g.check('no middleware runs', not log)
    else:
        g.check('one middleware runs', len(log) == 1 and not ran)
        g.check('the right one', log[0][0] is mws[at] and log[0][1] is request)
        g.check('its result comes back', out is mws[at].out)
        on, further = log[0][2], SOAPRequest({}, b'')
        back = on(further)
        g.needs(len(asked) == 2, 'a link is joined to what the next one is asked for')
        g.check('it is given the rest of the chain',
                asked[1] == at + 1 and len(went) == 1 and went[0] is further and back is rest)


@contract('C14', TARGETS)
def chain(g):
    """Lists of up to three middlewares: entered in order, left in reverse; one that does not call on ends it."""
    log = []
    n = g.pick('n', [0, 1, 2, 3])
    twice = g.bool('the first one twice')
    request = SOAPRequest({}, b'')
    fault = SOAPError('Server', 'x')
    going = [g.bool('on 0'), g.bool('on 1'), g.bool('on 2')]

    def make(k):
        def middleware(request, next_call):
            log.append(('in', k, request))
            r = next_call(request) if going[k] else fault
            log.append(('out', k, r))
            return r
        return middleware

    def operation(request):
        log.append(('run', request))
        return fault
    g.override(soap_dispatch.call_method, operation)
    d = bare(g, soap11)
    d.middlewares = [make(k) for k in range(n)]
    if twice and n == 3:
        d.middlewares[2] = d.middlewares[0]
    request.method = xsd.Method('op', 'a', output='out')
    r = d.handle_soap_request(request)
    want, left = [], []
    stopped = False
    for k in [0, 1, 0] if twice and n == 3 else range(n):
        if not stopped:
            want.append(('in', k, request))
            left.insert(0, ('out', k, fault))
            stopped = not going[k]
    if not stopped:
        want.append(('run', request))
    g.same('order', log, want + left)
    g.check('the response', isinstance(r, SOAPResponse) and r.http_status_code == 500 and r.soap_body is fault)


class Hook:
    """A hook may be any callable, whatever its truth value."""

    def __init__(self, name, log, answers, full):
        self.name = name
        self.log = log
        self.answers = answers
        self.full = full

    def __call__(self, **kw):
        self.log.append((self.name, kw))
        return self.answers[self.name]

    def __bool__(self):
        return self.full


def hook_table(g, log, answers, names):
    """Any of the hooks, each recording its calls."""
    table = {}
    for name in names:
        if g.bool('with ' + name):
            table[name] = Hook(name, log, answers, g.bool('truth of ' + name))
    return table


KINDS = ['request', 'response', 'other']


def one_of_kind(kind, request, response):
    return request if kind == 'request' else response if kind == 'response' else None if kind == 'nothing' else 'text'


def hooks_of(g, family):
    log, answers, kinds = [], {}, {}
    requests, responses = {}, {}
    own = [family + '-request', family + '-response']
    for name in own:
        requests[name] = SOAPRequest({'QUERY_STRING': 'xsd=a'}, b'other')
        responses[name] = SOAPResponse('other')
        kinds[name] = g.pick('kind ' + name, ['request', 'response', 'nothing'])
        answers[name] = one_of_kind(kinds[name], requests[name], responses[name])
    table = hook_table(g, log, answers, own)

    def foreign(**kw):
        log.append(('foreign', kw))
    for name in NAMES:
        if name not in own:
            table[name] = foreign
    ran = []
    result = SOAPError('Server', 'x')

    class Dispatcher(SOAPDispatcher):
        def middleware(self, i=0):
            def run(request):
                ran.append(request)
                return result
            return run
    d = bare(g, g.pick('version', [soap11, soap12]), cls=Dispatcher)
    d.hooks = table
    d.wsdl = b'description'
    d.xsds = {'a': b'schema'}
    request = SOAPRequest({'QUERY_STRING': 'xsd=a'}, b'content')
    handle = {'soap': d.handle_soap_request, 'wsdl': d.handle_wsdl_request, 'xsd': d.handle_xsd_request}[family]
    ok, r = attempt(handle, request)
    before, after = own
    seen = request
    want_fail = False
    calls = 0
    if before in table:
        g.check('the request hook is called first', len(log) > 0 and log[0][0] == before)
        g.check('with dispatcher and request', set(log[0][1]) == {'dispatcher', 'request'} and log[0][1]['dispatcher'] is d
                and log[0][1]['request'] is request)
        calls += 1
        if kinds[before] == 'request':
            seen = requests[before]
        else:
            want_fail = True
    if want_fail:
        g.check('a request hook that returns no request is an error', not ok and isinstance(r, TypeError))
        g.check('and nothing else runs', len(log) == 1 and not ran)
        return
    if family == 'soap':
        g.same('the operation runs once, with the request the hook returned', ran, [seen])
    if after in table:
        g.check('the response hook is called then', len(log) == calls + 1 and log[calls][0] == after)
        kw = log[calls][1]
        g.check('with dispatcher, request and response', set(kw) == {'dispatcher', 'request', 'response'} and kw['dispatcher'] is d
                and kw['request'] is seen and isinstance(kw['response'], SOAPResponse))
        g.check('the response is complete', kw['response'].http_content is not None)
        if kinds[after] == 'response':
            g.check('what it returns is the response', ok and r is responses[after])
        else:
            g.check('a response hook that returns no response is an error', not ok and isinstance(r, TypeError))
        return
    g.check('no other hook is called', len(log) == calls)
    g.check('a response', ok and isinstance(r, SOAPResponse) and r.http_content is not None)
    if family != 'soap':
        g.check('its content', r.http_content == (d.wsdl if family == 'wsdl' else b'schema'))


@contract('C14', TARGETS, runs=300)
def soap_hooks(g):
    """The SOAP hooks wrap a SOAP request, once each."""
    hooks_of(g, 'soap')


@contract('C14', TARGETS, runs=300)
def wsdl_hooks(g):
    """The WSDL hooks wrap a WSDL request, once each."""
    hooks_of(g, 'wsdl')


@contract('C14', TARGETS, runs=300)
def xsd_hooks(g):
    """The XSD hooks wrap an XSD request, once each."""
    hooks_of(g, 'xsd')


class OneHook:
    """A table with one hook of any name."""

    def __init__(self, name, hook):
        self.pairs = [(name, hook)]

    def __iter__(self):
        return iter(self.keys())

    def keys(self):
        return [k for k, _ in self.pairs]

    def items(self):
        return self.pairs

    def get(self, name, default=None):
        return next((v for k, v in self.pairs if k == name), default)

    def __getitem__(self, name):
        return self.pairs[0][1]


@contract('C14', TARGETS, runs=300)
def hook_names(g):
    """A dispatcher takes exactly the six hook names."""
    g.override(py2xsd.schema_validator, lambda schemas: None)
    name = g.str('name')
    if not g.symbolic:
        name = g.pick('which', NAMES + [name, 'soap-request\n', 'soap_request', ' xsd-request', 'SOAP-request', 'xsd-requests', 'request'])
    known = [k for k in NAMES if k == name]
    table = OneHook(name, attempt)
    ok, r = attempt(SOAPDispatcher, soap.Service('urn:s', 'l', [], []), hooks=table, wsdl=b'w', xsds={})
    g.check('exactly the names known', ok == (len(known) > 0))
    if ok:
        g.check('kept', r.hooks.get(name) is attempt)
    else:
        g.check('a key error', isinstance(r, KeyError))


@contract('C14', TARGETS, proof=False, runs=1500, seconds=200)
def traces(g):
    """Any middlewares and hooks; several requests; the trace of calls against a hand-written one."""
    log = []
    counter = []

    def handler(w, k, request, data):
        log.append(('handler', k))
        if data.text == 'b c':
            raise SOAPError('Client', 'refused')
        return services.Result(text='fine')
    w = services.world(g, unique=True, headers=False, handler=handler)
    n = g.int('middlewares', 0, 5)
    kinds = [g.pick(f'm{k}', ['pass', 'pass', 'pass', 'stop', 'fault', 'replace', 'new request']) for k in range(n)]

    def make(k):
        def middleware(request, next_call):
            log.append(('in', k, request))
            kind = kinds[k]
            if kind == 'stop':
                r = services.Result(text='stopped')
            elif kind == 'fault':
                log.append(('out', k))
                raise SOAPError('Client', 'no')
            elif kind == 'new request':
                fresh = SOAPRequest(request.environ, request.http_content)
                fresh.dispatcher = request.dispatcher
                fresh.method = request.method
                counter.append(fresh)
                r = next_call(fresh)
            elif kind == 'replace':
                next_call(request)
                r = SOAPResponse(services.Result(text='replaced'))
            else:
                r = next_call(request)
            log.append(('out', k))
            return r
        return middleware
    names = [x for x in NAMES if g.bool('hook ' + x)]
    replacing = {x: g.bool('replacing ' + x) for x in names}
    table = {}
    for x in names:
        def hook(x=x, **kw):
            log.append((x, kw))
            if not replacing[x]:
                return kw[x.split('-')[1]]
            if x.endswith('request'):
                r = SOAPRequest(kw['request'].environ, kw['request'].http_content)
            else:
                r = SOAPResponse('x', http_content=b'replaced', http_status_code=299)
            counter.append(r)
            return r
        table[x] = hook
    mws = [make(k) for k in range(n)]
    d = services.make(w, middlewares=mws, hooks=table)
    for i in range(g.int('requests', 1, 4)):
        log.clear()
        counter.clear()
        family = g.pick(f'r{i}', ['soap', 'soap', 'soap', 'wsdl', 'xsd', 'bad'])
        if family == 'soap':
            k = g.int(f'r{i} op', 0, len(w.methods) - 1)
            valid = g.bool(f'r{i} valid')
            text = g.pick(f'r{i} text', ['a', 'b c'])
            e = services.data_element(w, w.methods[k].input, (text, None, [], None))
            if not valid:
                e[0].tag = 'nonsense'
            env = services.environ(w, w.methods[k].soapAction)
            request = SOAPRequest(env, services.envelope(w, [e]))
        else:
            env = services.environ(w, None, method='GET', QUERY_STRING={'wsdl': 'wsdl', 'xsd': 'xsd=q', 'bad': ''}[family])
            request = SOAPRequest(env, b'')
        r = d.dispatch(request)
        events = [(x[0],) + ((x[1],) if isinstance(x[1], int) else ()) for x in log]
        want, back = [], []
        if family + '-request' in table:
            want.append((family + '-request',))
        outcome = None
        if family == 'soap':
            for j in range(n):
                want.append(('in', j))
                back.insert(0, ('out', j))
                if kinds[j] in ('stop', 'fault'):
                    outcome = kinds[j]
                    break
            else:
                outcome = 'client fault'
                if valid:
                    want.append(('handler', k))
                    outcome = 'client fault' if text == 'b c' else 'fine'
            level = len(back)
            # an exception leaves through the middlewares that do not catch it
            if outcome in ('fault', 'client fault'):
                back = [('out', level - 1)] if outcome == 'fault' else []
                final = 'fault'
            else:
                final = {'fine': 'fine', 'stop': 'stopped'}[outcome]
                for j in reversed(range(level)):
                    if kinds[j] == 'replace':
                        final = 'replaced'
            want += back
        if family + '-response' in table:
            want.append((family + '-response',))
        g.same('trace', events, want)
        hooks_seen = [x for x in log if isinstance(x[1], dict)]
        for x in hooks_seen:
            g.check('the dispatcher is given', x[1]['dispatcher'] is d)
        seen = request
        if family + '-request' in table:
            g.check('the request hook sees the request', hooks_seen[0][1]['request'] is request)
            if replacing[family + '-request']:
                seen = next(c for c in counter if isinstance(c, SOAPRequest))
        entered = [x for x in log if x[0] == 'in']
        if entered:
            g.check('the first middleware sees what the hook returned', entered[0][2] is seen)
        if family + '-response' in table:
            g.check('the response hook sees the request', hooks_seen[-1][1]['request'] is seen)
            if replacing[family + '-response']:
                g.check('replaced', r.http_content == b'replaced' and r.http_status_code == 299)
                continue
        if family == 'soap':
            kind, a, b, _ = services.answer(w, r.http_content)
            if final == 'fault':
                g.check('fault', kind == 'fault' and r.http_status_code == 500)
            else:
                g.same('answer', (kind, b[0].text), ('answer', final))
        else:
            g.same('status', r.http_status_code, {'wsdl': 200, 'xsd': 404, 'bad': 400}[family])
    g.same('middlewares left as they were', list(d.middlewares), mws)
