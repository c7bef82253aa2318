"""C12 Bad requests always get a client fault, handlers only see valid ones."""
from lxml import etree

from soapfish import core, soap, soap11, soap12, wsa, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher
from vc.contract import contract

from . import services
from .lib import attempt
from .linked import Linked

TARGETS = ['soapfish.soap_dispatch.SOAPDispatcher._prepare_request', 'soapfish.soap_dispatch.SOAPDispatcher._parse_soap_content',
           'soapfish.soap_dispatch.SOAPDispatcher._validate_input', 'soapfish.soap_dispatch.SOAPDispatcher._validate_header',
           'soapfish.soap_dispatch.SOAPDispatcher._validate_body', 'soapfish.soap_dispatch.SOAPDispatcher._parse_header',
           'soapfish.soap_dispatch.SOAPDispatcher._parse_input', 'soapfish.soap_dispatch.SOAPDispatcher.handle_soap_request',
           'soapfish.soap11.Body.content', 'soapfish.soap11.Header.parse_as']


def bare(g, version=None, methods=(), schemas=(), strict=True, validator=None, cls=SOAPDispatcher):
    d = object.__new__(cls)
    d.service = soap.Service('urn:s', 'location', schemas, methods, version=version or g.pick('version', [soap11, soap12]))
    d.strict_soap_header = strict
    d.middlewares = []
    d.hooks = {}
    if validator is not None:
        d.schema_validator = validator
    return d


def client_fault(d, e):
    return isinstance(e, SOAPError) and e.code == d.service.version.Code.CLIENT


def node(e):
    return some_node(e, ['{urn:s}'])


MARKS = [None, *(f'{{{v.ENVELOPE_NAMESPACE}}}{a}' for v, names in ((soap11, ('mustUnderstand', 'actor')), (soap12, ('mustUnderstand', 'role', 'relay')))
                 for a in names), '{http://www.w3.org/2001/XMLSchema-instance}nil', '{http://www.w3.org/2001/XMLSchema-instance}type', 'id']


def spread_node(e):
    x = some_node(e, ['{urn:s}', '{urn:t}', ''])
    if e.symbolic:
        mark, text = e.str('mark', nonempty=True), e.xmltext('mark text')
    else:
        mark, text = e.pick('mark', MARKS), e.pick('marked', ['0', '1', 'true', 'false', lambda: e.xmltext('mark text')])
    if isinstance(x.tag, str) and mark is not None:
        x.set(mark, text)
    return x


def some_node(e, spaces):
    kind = e.pick('kind', ['element', 'comment', 'instruction'])
    if kind == 'comment':
        return etree.Comment('x')
    if kind == 'instruction':
        return etree.ProcessingInstruction('x', 'y')
    name = e.str('name', '{}', nonempty=True) if e.symbolic else e.name('name')
    e.assume(name != 'Fault' and name != 'message')
    x = etree.Element((e.pick('in', spaces) if len(spaces) > 1 else spaces[0]) + name)
    x.text = e.xmltext('text')
    return x


def tree(g, d, header):
    """An envelope: header 'absent', 'nil' or 'present', body perhaps missing, any children."""
    q = '{' + d.service.version.ENVELOPE_NAMESPACE + '}'
    e = etree.Element(q + 'Envelope')
    if header != 'absent':
        h = etree.SubElement(e, q + 'Header')
        if header == 'nil':
            h.set('{http://www.w3.org/2001/XMLSchema-instance}nil', 'true')
        else:
            h.extend(g.list('header', node))
    if g.bool('body'):
        b = etree.SubElement(e, q + 'Body')
        b.extend(g.list('content', node))
    return e


@contract('C12', TARGETS, runs=500)
def envelope(g):
    """A readable envelope with some content in its body is taken, whatever comments surround it; else a client fault."""
    d = bare(g)
    q = '{' + d.service.version.ENVELOPE_NAMESPACE + '}'
    header = g.pick('header', ['absent', 'nil', 'present'])
    e = tree(g, d, header)
    bodies = [x for x in e if x.tag == q + 'Body']
    ok, r = attempt(d._parse_soap_content, etree.tostring(e))
    g.check('taken exactly if it has content', ok == (any(isinstance(x.tag, str) for x in bodies[0]) if bodies else False))
    if ok:
        first = next(x for x in bodies[0] if isinstance(x.tag, str))
        got = r.Body.content()
        g.check('its first element', got.tag == first.tag and (got.text or '') == (first.text or ''))
        g.check('the header exactly if there is one', (r.Header is None) == (header != 'present'))
    else:
        g.check('a client fault', client_fault(d, r))


@contract('C12', TARGETS)
def unreadable(g):
    """Whatever the parser or the envelope model objects to becomes a client fault with its text."""
    d = bare(g)
    content = g.bytes('content')
    text = g.str('text')
    what = g.pick('error', [lambda: etree.XMLSyntaxError('bad', 1, 1, 1), lambda: ValueError(text), lambda: UnicodeError(text)])

    def parsexml(cls, xml, schema=None):
        raise what
    g.override(xsd.ComplexType.parsexml.__func__, parsexml)
    ok, r = attempt(d._parse_soap_content, content)
    g.check('a client fault', not ok and client_fault(d, r))


def invalid():
    return etree.DocumentInvalid('no')


class Part:
    def __init__(self, e):
        self._xmlelement = e


class BodyPart:
    def __init__(self, content):
        self._content = content

    def content(self):
        return self._content


class Envelope:
    pass


@contract('C12', TARGETS, runs=500)
def validation(g):
    """Accepted exactly if the body validates and, in strict mode, every element of the header does too."""
    valid = g.fn('valid', 'bool')

    def validator(e):
        if not valid(e.text):
            raise invalid()
    d = bare(g, strict=g.bool('strict'), validator=validator)
    h = etree.Element('Header')
    h.extend(g.list('header', spread_node))
    content = etree.Element('content')
    content.text = g.xmltext('content')
    env = Envelope()
    env.Header = g.pick('header present', [None, lambda: Part(h)])
    env.Body = BodyPart(content)
    ok, r = attempt(d._validate_input, env)
    good = valid(content.text)
    if env.Header is not None and d.strict_soap_header:
        good = good and all(valid(x.text) for x in h if isinstance(x.tag, str))
    g.check('accepted exactly if valid', ok == good)
    if not ok:
        g.check('the validator says why', isinstance(r, etree.DocumentInvalid))


@contract('C12', [*TARGETS, 'soapfish.soap.Service.__init__'], runs=200)
def declared_headers(g):
    """A service declares the headers it is given, else those of addressing if it uses that, else none."""
    class Own(xsd.ComplexType):
        pass

    class Other(xsd.ComplexType):
        pass
    use = g.bool('addressing')
    first, second = g.pick('input', [None, Own]), g.pick('output', [None, Other])
    s = soap.Service('urn:s', 'location', [], [], input_header=first, output_header=second, use_wsa=use)
    g.check('input', s.input_header is (first or (wsa.Header if use else None)))
    g.check('output', s.output_header is (second or (wsa.Header if use else None)))


@contract('C12', TARGETS, runs=300)
def validation_again(g):
    """Each request is judged by itself, whatever the dispatcher was given before."""
    valid = g.fn('valid', 'bool')
    start = 'x' * 300

    def validator(e):
        if not valid(e.text):
            raise invalid()
    d = bare(g, validator=validator, strict=g.bool('strict'))
    for k in range(2):
        content = etree.Element('content')
        content.text = start + g.xmltext('content %d' % k)
        env = Envelope()
        env.Header = None
        h = etree.Element('Header')
        if g.bool('header %d' % k):
            env.Header = Part(h)
            part = etree.SubElement(h, 'part')
            part.text = start + g.xmltext('part %d' % k)
        env.Body = BodyPart(content)
        ok, r = attempt(d._validate_input, env)
        g.check('accepted exactly if valid', ok == (valid(content.text) and (
            env.Header is None or not d.strict_soap_header or valid(h[0].text))))


class Reader:
    """Stands for an input or header type: reads what it is given or refuses it."""

    def __init__(self, name, out, error):
        self.out, self.error, self.seen = out, error, []

    def parse_xmlelement(self, e):
        self.seen.append(e)
        if self.error is not None:
            raise self.error
        return self.out


def reader(g, name):
    text = g.str(name + ' text')
    return Reader(name, g.opaque(name + ' value'), g.pick(name + ' error', [
        None, lambda: ValueError(text), lambda: OverflowError(text)]))


class Element:
    def __init__(self, type_):
        self._type = type_


def prepare(g, with_header):
    """The body reaches the operation's input type, a header its header type; what they refuse becomes a client fault."""
    body = reader(g, 'body') if not with_header else Reader('body', g.opaque('body'), None)
    head, common = (reader(g, 'header'), reader(g, 'service header')) if with_header else (None, None)
    named = g.bool('input by name') if not with_header else False
    m = xsd.Method('op', 'a', input='name' if named else body)
    m.input_header = g.pick('operation header', [None, lambda: head]) if with_header else g.pick('operation header', [None, lambda: body])
    valid = g.fn('valid', 'bool')

    def validator(e):
        if not valid(e.text):
            raise g.pick('objection', [lambda: etree.DocumentInvalid('no'), lambda: etree.XMLSyntaxError('no', 1, 1, 1)])
    found = with_header or g.bool('operation found')
    version = g.pick('version', [soap11, soap12])
    fault = SOAPError(version.Code.CLIENT, 'none')

    class Dispatcher(SOAPDispatcher):
        def _find_handler_for_request(self, request, content):
            if not found:
                raise fault
            return m
    d = bare(g, version, validator=validator, methods=[m], cls=Dispatcher)
    d.service.input_header = g.pick('service-wide header', [None, lambda: common]) if with_header else None

    class Schema:
        def get_element_by_name(self, name):
            return Element(body) if name == 'name' else None
    d.service.schemas = [Schema()]
    q = '{' + d.service.version.ENVELOPE_NAMESPACE + '}'
    e = etree.Element(q + 'Envelope')
    if with_header:
        etree.SubElement(e, q + 'Header')
    b = etree.SubElement(e, q + 'Body')
    x = etree.SubElement(b, 'name')
    x.text = g.xmltext('text')
    request = SOAPRequest({}, etree.tostring(e))
    ok, r = attempt(d._prepare_request, request)
    used = m.input_header if m.input_header is not None else d.service.input_header
    if not with_header:
        used = None
    good = valid(x.text or None) and found and body.error is None and (used is None or used.error is None)
    g.check('accepted exactly if nothing objects', ok == good)
    if ok:
        g.check('operation', request.method is m)
        g.check('body', request.soap_body is body.out)
        g.check('header', request.soap_header is (None if used is None else used.out))
        g.check('the body is read once', len(body.seen) == 1 and body.seen[0].tag == 'name' and (body.seen[0].text or '') == (x.text or ''))
    else:
        g.check('a client fault', client_fault(d, r))


@contract('C12', TARGETS, runs=500)
def preparation(g):
    """The body reaches the operation's input type; what it refuses becomes a client fault."""
    prepare(g, False)


@contract('C12', TARGETS, runs=500)
def preparation_header(g):
    """The same with a header, which reaches the operation's or else the service's header type."""
    prepare(g, True)


WSA = 'http://www.w3.org/2005/08/addressing'


def part(g, w, at):
    """A header part: (element, valid, user)."""
    kind = g.pick(at, ['ticket', 'Ticket', 'bad ticket', 'unknown', 'wsa', 'bad wsa', 'comment', 'other ns'])
    if kind in ('ticket', 'Ticket'):
        user = g.pick(at + ' user', services.TEXTS)
        return services.ticket_element(w, user, kind), True, user if kind == 'ticket' else None
    if kind == 'bad ticket':
        e = services.ticket_element(w, 'x')
        e[0].tag = 'no'
        return e, False, 'no user'
    if kind == 'wsa':
        e = etree.Element('{%s}Action' % WSA)
        e.text = 'urn:x'
        return e, True, None
    if kind == 'bad wsa':
        return etree.Element('{%s}Unknown' % WSA), None, None
    if kind == 'comment':
        return etree.Comment('x'), True, None
    return etree.Element('unknown' if kind == 'unknown' else '{urn:foreign}part'), False, None


@contract('C12', TARGETS, proof=False, runs=3000, seconds=200)
def posts(g):
    """Generated services; requests built and damaged in many ways; a schema written by hand as oracle."""
    w = services.world(g, unique=True)
    strict = g.bool('strict')
    d = services.make(w, strict_soap_header=strict)
    k = g.int('operation', 0, len(w.methods) - 1)
    content = services.data(g, 'd')
    e = services.data_element(w, w.methods[k].input, content)
    damage = g.pick('damage', ['none', 'none', 'none', 'number', 'missing', 'unknown child', 'unknown root', 'no namespace',
                               'attribute', 'order', 'text', 'no body', 'empty body', 'comments', 'truncated', 'bytes',
                               'control', 'doctype', 'encoding', 'nil body', 'big number', 'second'])
    plain = [c for c in e]
    body = [e]
    if damage == 'number':
        c = etree.SubElement(e, plain[0].tag.replace('text', 'number'))
        c.text = g.pick('number text', ['x', '', '1.5', '99999999999'])
    elif damage == 'missing':
        e.remove(plain[0])
    elif damage == 'unknown child':
        etree.SubElement(e, 'surprise')
    elif damage == 'unknown root':
        e.tag = g.pick('root', ['{%s}unheard', '{%s}Fault', '{%s}message', '{%s}Body', '{%s}Envelope']) % services.TNS
    elif damage == 'no namespace':
        e.tag = w.methods[k].input
    elif damage == 'attribute':
        e.set('surprise', 'x')
    elif damage == 'order':
        e.append(plain[0])
    elif damage == 'text':
        e.text = 'stray'
    elif damage == 'empty body':
        body = []
    elif damage == 'no body':
        body = None
    elif damage == 'comments':
        body = [etree.Comment('x'), etree.ProcessingInstruction('x', 'y'), e]
        e.insert(0, etree.Comment('inside'))
    elif damage == 'nil body':
        body = []
    elif damage == 'second':
        body = [e, services.data_element(w, w.methods[k].input, content)]
    header = None
    parts = []
    if g.bool('with header'):
        parts = [part(g, w, f'part {i}') for i in range(g.int('parts', 0, 3))]
        header = [p[0] for p in parts]
    raw = services.envelope(w, body, header)
    if damage == 'truncated':
        raw = raw[:g.int('cut', 0, len(raw) - 1)]
    elif damage == 'bytes':
        raw = g.bytes('bytes')
    elif damage == 'control':
        i = g.int('at', 0, len(raw))
        raw = raw[:i] + g.pick('insert', [b'\x00', b'<', b'&', b'\xff', b'&x;', b'</']) + raw[i:]
    elif damage == 'doctype':
        raw = b'<!DOCTYPE a [<!ENTITY x "y">]>' + raw
    elif damage == 'encoding':
        raw = g.pick('encoding', [b'<?xml version="1.0" encoding="nonsense"?>', b'<?xml version="1.0" encoding="utf-16"?>',
                                  b'<?xml version="2.0"?>', b'\xef\xbb\xbf']) + raw
    elif damage == 'nil body':
        raw = raw.replace(b'<soap:Body/>', b'<soap:Body xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="true"/>')
    how = g.pick('action', ['root', 'action'])
    r = services.post(w, d, raw, w.methods[k].soapAction if how == 'action' else None)
    g.check('a response', isinstance(r, SOAPResponse) and isinstance(r.http_content, bytes))
    kind, code, message, _ = services.answer(w, r.http_content)
    # the oracle
    q = '{%s}' % services.ENV[w.version]
    try:
        env = etree.fromstring(raw)
    except (etree.XMLSyntaxError, ValueError):
        env = None
    good, content_ok = env is not None, False
    if good:
        b = [x for x in env if isinstance(x.tag, str) and etree.QName(x).localname == 'Body']
        first = [x for x in b[-1] if isinstance(x.tag, str)] if b else []
        if not first:
            good = False
        else:
            good = etree.XMLSchema(etree.fromstring(services.schema_text(w))).validate(first[0])
            h = [x for x in env if isinstance(x.tag, str) and etree.QName(x).localname == 'Header']
            for x, ok, _ in parts if h else ():
                if ok is None:
                    good = False
                elif not ok and strict:
                    good = False
            if good and how == 'root':
                good = etree.QName(first[0]).localname == w.methods[k].input
    if not good:
        g.check('no handler is called', not w.calls)
        g.check('a client fault', kind == 'fault' and code == services.CLIENT[w.version] and r.http_status_code == 500)
        return
    g.same('exactly the handler', [c[0] for c in w.calls], [k])
    g.check('answered', kind == 'answer' and r.http_status_code == 200)
    _, request, got = w.calls[0]
    if damage in ('none', 'comments', 'doctype'):
        g.same('the body', services.held(got), content)
    g.check('the request holds it', request.soap_body is got and request.method is w.methods[k] and request.http_content == raw)
    want = None
    if header is not None and w.methods[k].input_header is not None:
        users = [u for _, _, u in parts if u is not None]
        want = (None if users[-1] == 'no user' else users[-1]) if users else False
    h = request.soap_header
    g.same('the header', None if h is None else False if h.ticket is None else h.ticket.user, want)


@contract('C12', TARGETS, proof=False, runs=400)
def successive_posts(g):
    """Requests to one dispatcher, alike in their beginning; each is judged by itself."""
    w = services.world(g, unique=True)
    d = services.make(w)
    k = g.int('operation', 0, len(w.methods) - 1)
    text = 'x' * g.pick('length', [0, 1, 100, 300, 2000])
    for n in range(g.int('requests', 2, 5)):
        content = (text + g.pick(f'{n} text', ['', 'a', 'b']), g.pick(f'{n} number', [1, 2, None]), [], None)
        good = g.bool(f'{n} good')
        e = services.data_element(w, w.methods[k].input, content)
        if not good:
            x = etree.SubElement(e, e[0].tag.replace('text', 'number'))
            x.text = g.pick(f'{n} bad', ['x', ''])
        header = None
        if g.bool(f'{n} header'):
            header = [services.ticket_element(w, text + 'user')]
            if g.bool(f'{n} bad header'):
                good = False
                etree.SubElement(header[0], 'unknown')
        del w.calls[:]
        r = services.post(w, d, services.envelope(w, [e], header), w.methods[k].soapAction)
        kind, code, message, _ = services.answer(w, r.http_content)
        g.check('answered exactly if valid', (kind == 'answer') == good and len(w.calls) == (1 if good else 0))
        if good:
            g.same('the body', services.held(w.calls[0][2]), (content[0] or None, content[1], [], None))
        else:
            g.check('else a client fault', code == services.CLIENT[w.version])


@contract('C12', [*TARGETS, 'soapfish.py2xsd.schema_validator'], proof=False, runs=600)
def schemas_apart(g):
    """Requests are judged by all schemas, wherever these are said to be and however they refer to one another."""
    linked = Linked(g)
    version = g.pick('version', [soap11, soap12])
    calls = []

    def function(request, content):
        calls.append(content)
        return content
    more = [xsd.Schema(f'urn:more{k}', elements={f'more{k}': xsd.Element(xsd.Int)}) for k in range(g.int('more schemas', 0, 2))]
    schemas = [linked.root, *more] if g.bool('first') else [*more, linked.root]
    s = soap.Service('urn:s', 'http://host/s', schemas, [xsd.Method('do', 'act', input=linked.element, output=linked.answer,
                                                                    function=function)], version=version)
    d = SOAPDispatcher(s)
    for k in range(g.int('requests', 1, 3)):
        x, content = linked.tree(at=f'v{k}')
        good = g.bool(f'{k} good')
        if not good:
            linked.damaged(x)
        e = etree.Element('{%s}Envelope' % services.ENV[version])
        etree.SubElement(e, '{%s}Body' % services.ENV[version]).append(x)
        g.note(etree.tostring(e).decode())
        del calls[:]
        env = {'REQUEST_METHOD': 'POST', 'HTTP_SOAPACTION': '"act"', 'CONTENT_TYPE': 'application/soap+xml; action="act"'}
        r = d.dispatch(SOAPRequest(env, etree.tostring(e)))
        answer = etree.fromstring(r.http_content)[-1][0]
        g.check('answered exactly if valid', (etree.QName(answer).localname == linked.answer) == good and len(calls) == good,
                r.http_content.decode())
        if good:
            g.check('the body', linked.said(calls[0]) == content)
        else:
            g.check('else a client fault', 'Client' in r.http_content.decode() or 'Sender' in r.http_content.decode())
