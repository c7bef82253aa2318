"""C17 Generated WSDL describes every operation consistently."""
from lxml import etree

from soapfish import py2wsdl, soap, soap11, soap12, wsdl11, wsdl12, xsd, xsdspec
from vc.contract import contract

from . import shapes
from .c16_xsd import classes as reffed, references, world
from .lib import settled

settled(wsdl11, wsdl12, xsdspec)

TARGETS = ['soapfish.py2wsdl.build_service', 'soapfish.py2wsdl.build_bindings', 'soapfish.py2wsdl.build_portTypes',
           'soapfish.py2wsdl.build_messages', 'soapfish.py2wsdl.build_types', 'soapfish.py2wsdl.generate_wsdl',
           'soapfish.py2wsdl.content_namespace', 'soapfish.py2wsdl.schema_prefixes', 'soapfish.wsdl.get_wsdl_classes']
W = 'http://schemas.xmlsoap.org/wsdl/'
X = 'http://www.w3.org/2001/XMLSchema'
SOAP = {soap11: 'http://schemas.xmlsoap.org/wsdl/soap/', soap12: 'http://schemas.xmlsoap.org/wsdl/soap12/'}


class Question(xsd.ComplexType):
    text = xsd.Element(xsd.String)


class Answer(xsd.ComplexType):
    text = xsd.Element(xsd.String)


class Bare:
    """Anything with attributes."""


def operation(e, contents):
    m = Bare()
    m.operationName = e.str('operation', nonempty=True)
    m.soapAction = e.pick('action', [None, lambda: e.str('action text')])
    m.style = e.pick('style', ['document', 'rpc'])
    m.input = e.pick('input', contents(e, 'input text'))
    m.output = e.pick('output', contents(e, 'output text'))
    return m


def contents(e, name):
    return [Question, Answer, lambda: e.str(name, nonempty=True)]


def names(e, name):
    return [lambda: e.str(name, nonempty=True)]


class OneSchema:
    """Any schema with one namespace for all its elements."""

    def __init__(self, namespace):
        self.targetNamespace = namespace
        self.element = Bare()
        self.element.namespace = namespace

    def get_element_by_name(self, name):
        return self.element


def service(g, contents, n=None):
    s = soap.Service(g.str('namespace'), g.str('location', nonempty=True), [OneSchema('urn:schema')],
                     g.list('methods', lambda e: operation(e, contents)), version=g.pick('version', [soap11, soap12]),
                     name=g.str('name', nonempty=True))
    return s, wsdl11 if s.version is soap11 else wsdl12


@contract('C17', TARGETS, runs=200)
def services(g):
    """One service with one port at the service's location, bound to its binding."""
    s, w = service(g, names)
    d = w.Definitions()
    py2wsdl.build_service(w, d, s)
    g.check('one service', [x.name for x in d.services] == [s.name])
    ports = d.services[0].ports
    g.check('one port', len(ports) == 1)
    g.check('location', isinstance(ports[0].address, w.SOAP_Address) and ports[0].address.location == s.location)
    b = w.Definitions()
    py2wsdl.build_bindings(w, b, s)
    g.check('bound', ports[0].binding == 'tns:' + b.bindings[0].name)


@contract('C17', TARGETS, runs=300)
def bindings(g):
    """One binding with an operation for each method, in order, with its action and style."""
    s, w = service(g, names)
    d = w.Definitions()
    py2wsdl.build_bindings(w, d, s)
    py2wsdl.build_portTypes(w, d, s)
    g.check('one binding', len(d.bindings) == 1)
    b = d.bindings[0]
    g.check('of the port type', len(d.portTypes) == 1 and b.type == 'tns:' + d.portTypes[0].name)
    g.check('over HTTP', isinstance(b.binding, w.SOAP_Binding) and b.binding.transport == 'http://schemas.xmlsoap.org/soap/http')
    ms, ops = s.methods, b.operations
    n = len(ms)
    g.check('as many', len(ops) == n)
    g.check('names', all([ops[k].name == ms[k].operationName for k in range(n)]))
    g.check('actions', all([ops[k].operation.soapAction == ms[k].soapAction for k in range(n)]))
    g.check('styles', all([ops[k].operation.style == ms[k].style for k in range(n)]))
    g.check('both directions', all([ops[k].input.body.use == 'literal' and ops[k].output.body.use == 'literal' for k in range(n)]))


@contract('C17', TARGETS, runs=300)
def port_types(g):
    """One port type with an operation for each method, in order, that refers to the method's two messages."""
    s, w = service(g, names)
    d = w.Definitions()
    py2wsdl.build_portTypes(w, d, s)
    py2wsdl.build_messages(w, d, s)
    g.check('one port type', len(d.portTypes) == 1)
    ms, ops = s.methods, d.portTypes[0].operations
    n = len(ms)
    g.check('as many', len(ops) == n and len(d.messages) == 2 * n)
    g.check('names', all([ops[k].name == ms[k].operationName for k in range(n)]))
    g.check('input', all([ops[k].input.message == 'tns:' + d.messages[2 * k].name for k in range(n)]))
    g.check('output', all([ops[k].output.message == 'tns:' + d.messages[2 * k + 1].name for k in range(n)]))


@contract('C17', TARGETS, runs=300)
def messages(g):
    """Two messages for each method, in order, each with one part: the method's input and output."""
    s, w = service(g, contents)
    d = w.Definitions()
    py2wsdl.build_messages(w, d, s)
    ms, n = s.methods, len(s.methods)
    g.check('as many', len(d.messages) == 2 * n)
    g.check('names', all([d.messages[2 * k].name != d.messages[2 * k + 1].name for k in range(n)]))
    g.check('one part', all([len(d.messages[2 * k].parts) == 1 and len(d.messages[2 * k + 1].parts) == 1 for k in range(n)]))
    g.check('inputs', all([refers(d.messages[2 * k].parts[0], ms[k].input) for k in range(n)]))
    g.check('outputs', all([refers(d.messages[2 * k + 1].parts[0], ms[k].output) for k in range(n)]))


def refers(part, content):
    """By type to a class, by element to a name."""
    if isinstance(content, str):
        return part.type is None and part.element == 'sns:' + content
    return part.element is None and part.type == ('sns:question' if content is Question else 'sns:answer')


class Declares:
    """A schema that knows some elements."""

    def __init__(self, e):
        self.targetNamespace = e.pick('schema namespace', ['urn:one', 'urn:two', 'urn:three'])
        self.declares = e.fn('declares', 'bool')
        self.element = Bare()
        self.element.namespace = self.targetNamespace

    def get_element_by_name(self, name):
        return self.element if self.declares(name) else None


@contract('C17', TARGETS, runs=600)
def content_namespaces(g):
    """The namespace of a part is that of the first schema that declares its element, or of the schema of its type."""
    s = soap.Service('urn:t', 'l', g.list('schemas', Declares, min=1), [])
    name = g.str('name', nonempty=True)
    got = py2wsdl.content_namespace(s, name)
    first = next((x for x in s.schemas if x.declares(name)), None)
    g.check('element', got == (s.schemas[0] if first is None else first).targetNamespace)

    class Own(xsd.ComplexType):
        pass
    if g.bool('in a schema'):
        Own.SCHEMA = xsd.Schema(g.str('own namespace'))
        g.check('type', py2wsdl.content_namespace(s, Own) == Own.SCHEMA.targetNamespace)
    else:
        g.check('type of no schema', py2wsdl.content_namespace(s, Own) == s.schemas[0].targetNamespace)
    g.check('built-in type', py2wsdl.content_namespace(s, xsd.Int) == X)


@contract('C17', TARGETS, runs=200)
def types(g):
    """The descriptions of all schemas, each once and in order."""
    w = g.pick('version', [wsdl11, wsdl12])

    def spec(schema):
        x = xsdspec.Schema()
        x.targetNamespace = schema.targetNamespace
        return x
    g.override(py2wsdl.generate_xsdspec, spec)
    s = soap.Service('urn:t', 'l', g.list('schemas', Declares), [])
    d = w.Definitions()
    py2wsdl.build_types(w, d, s)
    g.check('as many', len(d.types.schemas) == len(s.schemas))
    g.check('in order', all([d.types.schemas[k].targetNamespace == s.schemas[k].targetNamespace for k in range(len(s.schemas))]))


NAMES = ['getA', 'Put', 'x-y', 'List', 'é', 'a.b']


def q(e, text):
    prefix, name = text.split(':')
    return e.nsmap[prefix], name


def kids(e, *path):
    found = [e]
    for tag in path:
        found = [c for x in found for c in x if c.tag == tag]
    return found


@contract('C17', TARGETS, proof=False, runs=1000)
def documents(g):
    """Whole documents, as others read them: everything of the service is there and every reference resolves."""
    version = g.pick('version', [soap11, soap12])
    spaces = ['urn:one', 'urn:two', 'urn:three'][:g.int('schemas', 1, 3)]
    schemas, elements, classes = [], {}, []
    for i, space in enumerate(spaces):
        shapes_ = [shapes.shape(g, f'S{i}{k}', 1, ns_choices=(None,)) for k in range(g.int(f'{i} types', 1, 3))]
        own = {}
        for s in shapes_:
            name = g.pick(f'{s.cls.__name__} element', ['in', 'out', 'Req', 'resp']) + str(i) + '_' + str(len(own))
            own[name] = xsd.Element(s.cls)
            elements[name] = space
            classes.append((s.cls, space))
        schemas.append(xsd.Schema(space, elementFormDefault=g.pick(f'{i} form', list(xsd.ElementFormDefault)), elements=own,
                                  complexTypes=[t.cls for s in shapes_ for t in reffed(s, [s])]))
    ops = []

    def content(at):
        kind = g.pick(at + ' kind', ['element', 'element', 'type', 'built-in'])
        if kind == 'element':
            return g.pick(at, sorted(elements))
        return g.pick(at, classes)[0] if kind == 'type' else g.pick(at, [xsd.String, xsd.Int])
    for k in range(g.int('methods', 0, 5)):
        name = g.pick(f'm{k}', NAMES) + (str(k) if k else '')
        ops.append(xsd.Method(name, g.pick(f'm{k} action', [None, 'urn:a', 'http://x/?a=1&b=2', 'é']), input=content(f'm{k} in'),
                              output=content(f'm{k} out'), style=g.pick(f'm{k} style', list(xsd.CallStyle))))
    location = g.pick('location', ['http://x/', '${scheme}://${host}/a?b&c', 'x y'])
    s = soap.Service(g.pick('namespace', ['urn:t', 'urn:one']), location, schemas, ops, version=version, name=g.pick('name', NAMES))
    d = etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(s)))
    SN = SOAP[version]
    g.check('definitions', d.tag == '{%s}definitions' % W and d.get('targetNamespace') == s.targetNamespace)

    xs = kids(d, '{%s}types' % W, '{%s}schema' % X)
    g.check('schemas', [x.get('targetNamespace') for x in xs] == spaces)
    have = {(x.get('targetNamespace'), c.get('name'), 'element' if c.tag == '{%s}element' % X else 'type')
            for x in xs for c in x if c.get('name')}
    for x in xs:
        for e in x.iter('{%s}element' % X, '{%s}attribute' % X):
            if e.get('type'):
                ns, name = q(e, e.get('type'))
                g.check('types resolve', ns == X or (ns, name, 'type') in have, (ns, name))

    services = kids(d, '{%s}service' % W)
    g.check('one service', [x.get('name') for x in services] == [s.name])
    ports = kids(services[0], '{%s}port' % W)
    g.check('one port', len(ports) == 1)
    g.check('location', [x.get('location') for x in kids(ports[0], '{%s}address' % SN)] == [location])
    bindings = {(s.targetNamespace, x.get('name')): x for x in kids(d, '{%s}binding' % W)}
    b = bindings.get(q(ports[0], ports[0].get('binding')))
    g.check('port to binding', b is not None)
    types_ = {(s.targetNamespace, x.get('name')): x for x in kids(d, '{%s}portType' % W)}
    p = types_.get(q(b, b.get('type')))
    g.check('binding to port type', p is not None)
    g.check('SOAP binding', [x.get('transport') for x in kids(b, '{%s}binding' % SN)] == ['http://schemas.xmlsoap.org/soap/http'])
    g.check('one of each', len(bindings) == len(types_) == 1)
    bo, po = kids(b, '{%s}operation' % W), kids(p, '{%s}operation' % W)
    g.check('operations', [x.get('name') for x in bo] == [x.get('name') for x in po] == [m.operationName for m in ops])
    messages = {}
    for x in kids(d, '{%s}message' % W):
        messages[(s.targetNamespace, x.get('name'))] = x
    g.check('messages', len(messages) == len(kids(d, '{%s}message' % W)) == 2 * len(ops))

    for m, x, y in zip(ops, bo, po):
        so = kids(x, '{%s}operation' % SN)
        g.check('action and style', [(o.get('soapAction'), o.get('style')) for o in so] == [(m.soapAction, m.style.value)])
        for way, content_ in (('input', m.input), ('output', m.output)):
            g.check('body', [o.get('use') for o in kids(x, '{%s}%s' % (W, way), '{%s}body' % SN)] == ['literal'])
            dirs = kids(y, '{%s}%s' % (W, way))
            g.check('direction', len(dirs) == 1)
            msg = messages.get(q(dirs[0], dirs[0].get('message')))
            g.check('operation to message', msg is not None)
            parts = kids(msg, '{%s}part' % W)
            g.check('one part', len(parts) == 1 and len(msg) == 1)
            if isinstance(content_, str):
                g.check('element', parts[0].get('type') is None and q(parts[0], parts[0].get('element')) == (elements[content_], content_))
            else:
                name = content_.__name__
                want = (X if content_ in (xsd.String, xsd.Int) else dict(classes)[content_], name[0].lower() + name[1:])
                g.check('type', parts[0].get('element') is None and q(parts[0], parts[0].get('type')) == want)
                g.check('it is declared', want[0] == X or (*want, 'type') in have)


@contract('C17', TARGETS, proof=False, runs=400)
def imported_types(g):
    """The schemas in the document refer to types of the schemas they import by the namespace of those."""
    schemas = world(g)
    m = xsd.Method('go', 'urn:go', input='own0', output='own0')
    s = soap.Service('urn:t', 'http://x/', schemas, [m], version=g.pick('version', [soap11, soap12]))
    d = etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(s)))
    xs = kids(d, '{%s}types' % W, '{%s}schema' % X)
    g.check('as many', len(xs) == len(schemas))
    for schema, x in zip(schemas, xs):
        references(g, schema, x)
