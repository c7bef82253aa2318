"""C25 WSDL references are resolved by exact local name."""
from soapfish import utils, wsdl, wsdl11, wsdl12, xsd, xsdspec
from vc.contract import contract

from .lib import attempt

TARGETS = ['soapfish.wsdl.get_by_name', 'soapfish.wsdl.get_message_object', 'soapfish.wsdl.get_message_header',
           'soapfish.utils.remove_namespace', 'soapfish.utils.schema_select', 'soapfish.xsd.Schema.get_element_by_name',
           'soapfish.xsdspec.Schema.get_element_by_name']
LOCAL = ['a', 'b', 'A', 'ab', 'getX', 'x.y', 'é']


class Item:
    """Anything with a name."""


def local(g, name):
    return g.str(name, ':', nonempty=True) if g.symbolic else g.pick(name, LOCAL)


def prefixed(g, name, at):
    """The name as it is referred to: possibly with a prefix (which may hold colons itself)."""
    prefix = g.pick(at + ' prefix', [None, lambda: g.str(at + ' prefix text') if g.symbolic else g.pick(at + ' text', ['tns', '', 'a', 'x:y', 'b'])])
    return name if prefix is None else prefix + ':' + name


def named(e):
    i = Item()
    i.name = local(e, 'name')
    return i


@contract('C25', TARGETS, runs=400)
def by_name(g):
    """The first item whose name is the part after the last colon, or an error."""
    items = g.list('items', named)
    name = local(g, 'wanted')
    ok, r = attempt(wsdl.get_by_name, items, prefixed(g, name, 'reference'))
    want = next((i for i in items if i.name == name), None)
    g.check('found exactly if there', ok == (want is not None))
    if ok:
        g.check('the first', r is want)
    else:
        g.check('an error', isinstance(r, ValueError))
        if not g.symbolic:
            g.check('naming it', name in str(r))


@contract('C25', TARGETS, runs=300)
def local_name(g):
    """The local name is what follows the last colon; nothing has none."""
    name = local(g, 'name')
    g.check('local part', utils.remove_namespace(prefixed(g, name, 'reference')) == name)
    g.check('none', utils.remove_namespace(None) is None and not utils.remove_namespace(''))


def direction(e, at):
    d = Item()
    d.message = prefixed(e, local(e, at + ' message'), at)
    return d


def port_operation(e):
    o = Item()
    o.name = local(e, 'operation')
    o.input = e.pick('input', [None, lambda: direction(e, 'in')])
    o.output = e.pick('output', [None, lambda: direction(e, 'out')])
    return o


def port_type(e):
    p = Item()
    p.name = local(e, 'port type')
    p.operations = e.list('operations', port_operation)
    return p


@contract('C25', TARGETS, runs=1500, seconds=90)
def message_object(g):
    """The message an operation's input or output refers to, through port type and operation; none without that direction."""
    x = g.pick('direction', ['input', 'output'])
    definitions, binding, operation = Item(), Item(), Item()
    definitions.portTypes = g.list('portTypes', port_type, 1)
    definitions.messages = g.list('messages', named)
    kind, operation.name = local(g, 'type'), local(g, 'wanted')
    binding.type = prefixed(g, kind, 'type')
    ok, r = attempt(wsdl.get_message_object, definitions, binding, operation, x)
    p = next((p for p in definitions.portTypes if p.name == kind), None)
    o = next((o for o in p.operations if o.name == operation.name), None) if p is not None else None
    if o is None:
        g.check('an error', not ok and isinstance(r, ValueError))
        return
    d = o.input if x == 'input' else o.output
    if d is None:
        g.check('none', ok and r is None)
        return
    m = next((m for m in definitions.messages if m.name == d.message.split(':')[-1]), None)
    g.check('found exactly if there', ok == (m is not None))
    if ok:
        g.check('the message', r is m)
    else:
        g.check('an error', isinstance(r, ValueError))


def header(e):
    h = Item()
    h.name_of_message, h.part = local(e, 'message'), local(e, 'part')
    h.message = prefixed(e, h.name_of_message, 'message')
    return h


def message(e):
    m = Item()
    m.name = local(e, 'message name')
    m.parts = e.list('parts', named)
    return m


@contract('C25', TARGETS, runs=300)
def header_direction(g):
    """Without that direction there is no header; the direction asked for is the one looked at."""
    x = g.pick('direction', ['input', 'output'])
    definitions, operation, here, there = Item(), Item(), Item(), Item()
    part, other, m = Item(), Item(), Item()
    m.name, part.name, other.name = 'm', 'p', 'q'
    m.parts, definitions.messages = [part, other], [m]
    h, i = Item(), Item()
    h.message, h.part, i.message, i.part = 'tns:m', 'p', 'tns:m', 'q'
    here.headers, there.headers = [h], [i]
    here, there = g.pick('this', [None, here]), g.pick('that', [None, there])
    operation.input, operation.output = (here, there) if x == 'input' else (there, here)
    ok, r = attempt(wsdl.get_message_header, definitions, Item(), operation, x)
    if here is None:
        g.check('none', ok and r is None)
    else:
        g.check('its part', ok and len(r) == 1 and r[0] is part)


@contract('C25', TARGETS, runs=1500, seconds=120)
def message_header(g):
    """One part per header, in order, each the one it refers to, or an error."""
    definitions, operation, d = Item(), Item(), Item()
    definitions.messages = g.list('messages', message)
    n = g.pick('headers', [0, 1, 2])
    d.headers = [header(Prefixed(g, 'header %d ' % k)) for k in range(n)]
    operation.input = d
    ok, r = attempt(wsdl.get_message_header, definitions, Item(), operation, 'input')
    want, missing = [], False
    for h in d.headers:
        m = next((m for m in definitions.messages if m.name == h.name_of_message), None)
        p = next((p for p in m.parts if p.name == h.part), None) if m is not None else None
        if p is None:
            missing = True
            break
        want.append(p)
    if missing:
        g.check('an error', not ok and isinstance(r, ValueError))
    else:
        g.check('all found', ok and len(r) == len(want))
        for k in range(len(want)):
            g.check('the right part', r[k] is want[k])


@contract('C25', TARGETS, runs=600, seconds=120)
def any_headers(g):
    """However many headers: part k is the one that header k refers to; one that refers to nothing is an error."""
    definitions, operation, d = Item(), Item(), Item()
    m = Item()
    m.name, m.parts = 'm', g.list('parts', named)
    definitions.messages = [m]
    d.headers = g.list('headers', lambda e: header_of(e, m))
    operation.input = d
    ok, r = attempt(wsdl.get_message_header, definitions, Item(), operation, 'input')
    g.check('found exactly if all there', ok == all([any([p.name == h.part for p in m.parts]) for h in d.headers]))
    if ok:
        g.check('as many', len(r) == len(d.headers))
        g.check('the right parts', all([r[k] is next((p for p in m.parts if p.name == d.headers[k].part), None) for k in range(len(d.headers))]))
    else:
        g.check('an error', isinstance(r, ValueError))


def header_of(e, m):
    h = Item()
    h.message, h.part = 'tns:m', local(e, 'part')
    return h


class Prefixed:
    """Names drawn under a prefix."""

    def __init__(self, g, at):
        self.g, self.at, self.symbolic = g, at, g.symbolic

    def str(self, name, *args, **kw):
        return self.g.str(self.at + name, *args, **kw)

    def pick(self, name, alts):
        return self.g.pick(self.at + name, alts)


class Elements:
    """Stands for a schema: knows whether it defines an element of a name."""

    def __init__(self, e):
        self.defines = e.fn('defines', 'bool')
        self.element = e.opaque('element')

    def get_element_by_name(self, name):
        return self.element if self.defines(name) else None


@contract('C25', TARGETS, runs=500)
def selection(g):
    """The first schema that defines all the elements asked for, or none."""
    schemas = g.list('schemas', Elements)
    n = g.pick('elements', [0, 1, 2, 3])
    names = [local(g, 'element %d' % k) for k in range(n)]
    r = utils.schema_select(schemas, [prefixed(g, names[k], 'element %d' % k) for k in range(n)])
    want = next((s for s in schemas if all([s.defines(x) for x in names])), None)
    g.check('the first that defines all', r is want)


def named_element(e):
    x = xsdspec.Element()
    object.__setattr__(x, 'name', local(e, 'name'))
    return x


@contract('C25', TARGETS, runs=300)
def parsed_schema(g):
    """A parsed schema finds the first of its elements of a name."""
    s = xsdspec.Schema()
    object.__setattr__(s, 'elements', g.list('elements', named_element))
    name = local(g, 'wanted')
    g.check('the first', s.get_element_by_name(name) is next((e for e in s.elements if e.name == name), None))


@contract('C25', TARGETS, proof=False, runs=3000, seconds=90)
def schema_graphs(g):
    """Looking up an element through imports and includes: any graph, depth first, each schema once."""
    n = g.int('schemas', 1, 4)
    schemas = [xsd.Schema('urn:%d' % k) for k in range(n)]
    for k, s in enumerate(schemas):
        s.elements = {x: xsd.Element(xsd.String) for x in 'abc' if g.bool(f'{k} {x}')}
        for j in range(n):
            how = g.pick(f'{k} to {j}', [None, None, 'import', 'include'])
            if how == 'import':
                s.imports = list(s.imports) + [schemas[j]]
            elif how == 'include':
                s.includes = list(s.includes) + [schemas[j]]

    def find(s, name, seen):
        if s in seen:
            return None
        seen.append(s)
        if name in s.elements:
            return s.elements[name]
        for t in list(s.imports) + list(s.includes):
            r = find(t, name, seen)
            if r is not None:
                return r
        return None
    for name in 'abcd':
        g.check('found', schemas[0].get_element_by_name(name) is find(schemas[0], name, []))


WSDL = '''<wsdl:definitions xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="%s" xmlns:tns="urn:t" targetNamespace="urn:t">
%s</wsdl:definitions>'''


@contract('C25', TARGETS, proof=False, runs=400, seconds=90)
def documents(g):
    """The lookups on parsed WSDL documents of both versions."""
    cls, ns = g.pick('version', [(wsdl11, 'http://schemas.xmlsoap.org/wsdl/soap/'), (wsdl12, 'http://schemas.xmlsoap.org/wsdl/soap12/')])
    messages = [(g.pick(f'm{k}', LOCAL), [g.pick(f'm{k} p{i}', LOCAL) for i in range(g.int(f'm{k} parts', 0, 2))])
                for k in range(g.int('messages', 1, 4))]
    ops = [(g.pick(f'o{k}', LOCAL), g.pick(f'o{k} in', [None] + LOCAL), g.pick(f'o{k} out', [None] + LOCAL)) for k in range(g.int('operations', 1, 3))]
    types = [g.pick(f't{k}', LOCAL) for k in range(g.int('types', 1, 2))]
    headers = [(g.pick(f'h{k} m', LOCAL), g.pick(f'h{k} p', LOCAL)) for k in range(g.int('headers', 0, 2))]
    text = ''
    for name, parts in messages:
        text += '<wsdl:message name="%s">%s</wsdl:message>' % (name, ''.join('<wsdl:part name="%s" element="tns:x"/>' % p for p in parts))
    for i, t in enumerate(types):
        text += '<wsdl:portType name="%s">' % t
        for name, a, b in ops[i:]:
            text += '<wsdl:operation name="%s">%s%s</wsdl:operation>' % (
                name, '<wsdl:input message="tns:%s"/>' % a if a else '', '<wsdl:output message="%s"/>' % b if b else '')
        text += '</wsdl:portType>'
    wanted, kind = g.pick('wanted', LOCAL), g.pick('kind', LOCAL)
    text += ('<wsdl:binding name="B" type="tns:%s"><soap:binding style="document" transport="t"/><wsdl:operation name="%s">'
             '<soap:operation soapAction="x" style="document"/>'
             '<wsdl:input>%s<soap:body use="literal"/></wsdl:input></wsdl:operation></wsdl:binding>') % (
                 kind, wanted, ''.join('<soap:header message="tns:%s" part="%s" use="literal"/>' % h for h in headers))
    d = cls.Definitions.parsexml((WSDL % (ns, text)).encode())
    b = d.bindings[0]
    o = b.operations[0]
    t = next((i for i, x in enumerate(types) if x == kind), None)
    op = next((x for x in ops[t:] if x[0] == wanted), None) if t is not None else None
    for x, ref in (('input', 1), ('output', 2)):
        ok, r = attempt(wsdl.get_message_object, d, b, o, x)
        if op is None:
            g.check('an error', not ok and isinstance(r, ValueError))
        elif op[ref] is None:
            g.check('none', ok and r is None)
        else:
            m = next((i for i, y in enumerate(messages) if y[0] == op[ref]), None)
            g.check('the message', (ok and r is d.messages[m]) if m is not None else not ok and isinstance(r, ValueError))
    ok, r = attempt(wsdl.get_message_header, d, b, o, 'input')
    want = []
    for m, p in headers:
        i = next((i for i, y in enumerate(messages) if y[0] == m), None)
        j = next((j for j, y in enumerate(messages[i][1]) if y == p), None) if i is not None else None
        if j is None:
            want = None
            break
        want.append(d.messages[i].parts[j])
    if want is None:
        g.check('no part', not ok and isinstance(r, ValueError))
    else:
        g.check('the parts', ok and len(r) == len(want) and all(x is y for x, y in zip(r, want)))
    g.check('no output', wsdl.get_message_header(d, b, o, 'output') is None)


class SomeElements:
    """The elements of a schema: whether there is one of the name that is looked for is not known."""

    def __init__(self, g):
        self.has, self.it = g.bool('has it'), g.opaque('element')

    def __contains__(self, name):
        return self.has

    def __getitem__(self, name):
        if not self.has:
            raise KeyError(name)
        return self.it

    def get(self, name, default=None):
        return self.it if self.has else default


class Linked:
    def __init__(self, g):
        self.elements = SomeElements(g)
        self.imports, self.includes = g.list('imports', Linked.leaf), g.list('includes', Linked.leaf)

    @staticmethod
    def leaf(g):
        return g.opaque('schema')


class Visited:
    """A set of schemas in any state."""

    def __init__(self, g):
        self.g, self.there, self.added = g, False, []

    def __contains__(self, schema):
        self.there = self.g.arbitrary('visited')
        return self.there

    def add(self, schema):
        self.added.append(schema)


class Search:
    """The invariant of the search: nothing that was visited has the element, and what it refers to was visited or waits."""

    def __init__(self, g, root):
        self.g, self.root, self.left, self.entered = g, root, False, False

    def enter(self, variables):
        g = self.g
        wait = [k for k, v in variables.items() if type(v) is list]
        seen = [k for k, v in variables.items() if type(v) is set]
        g.needs(len(wait) == 1 and len(seen) == 1, 'the search works with what waits and what was visited')
        self.wait, self.seen = wait[0], seen[0]
        g.needs_same(variables[self.wait], [self.root], 'the search starts with the schema itself')
        g.needs(len(variables[self.seen]) == 0, 'nothing is visited at first')

    def arbitrary(self, variables):
        g = self.g
        self.entered = True
        self.waiting, self.visited = g.list('waiting', Linked), Visited(g)
        return {self.wait: list(self.waiting), self.seen: self.visited}

    def turn(self, before, after):
        g = self.g
        at, rest = self.waiting[len(self.waiting) - 1], self.waiting[:-1]
        if self.visited.there:
            g.needs(len(self.visited.added) == 0, 'nothing else is visited')
            g.needs_same(after[self.wait], rest, 'what was visited is not visited again')
        else:
            g.needs(len(self.visited.added) == 1 and self.visited.added[0] is at, 'it is visited')
            g.check('it does not have the element', not at.elements.has)
            g.needs_same(after[self.wait], rest + list(reversed(at.imports + at.includes)), 'what it refers to is next, in order')

    def leave(self, variables):
        self.left = True


@contract('C25', TARGETS, runs=300)
def any_graph_of_schemas(g):
    """Looking up an element in any graph of schemas: in each turn, the last schema that waits either has the element, and it
    is the answer, or was visited, or is visited and what it refers to waits; the answer is None when none is left."""
    name = local(g, 'wanted')
    if not g.symbolic:
        names = [name, 'other']
        schemas = [xsd.Schema('urn:%d' % k, elements={x: xsd.Element(xsd.String) for x in names if g.bool(f'{k} {x}')}) for k in range(4)]
        for k, s in enumerate(schemas):
            s.imports = [t for i, t in enumerate(schemas) if g.bool(f'{k} {i}')]
            s.includes = [t for i, t in enumerate(schemas) if g.bool(f'{k} includes {i}')]
        reached = [schemas[0]]
        for s in reached:
            reached.extend(t for t in list(s.imports) + list(s.includes) if t not in reached)
        r = schemas[0].get_element_by_name(name)
        g.check('found when it is there', r in [s.elements[name] for s in reached if name in s.elements] or
                r is None and not any(name in s.elements for s in reached))
        return
    root = g.opaque('root')
    inv = Search(g, root)
    g.invariant(xsd.Schema.get_element_by_name, inv)
    r = xsd.Schema.get_element_by_name(root, name)
    g.needs(inv.entered, 'the search is a loop')
    if inv.left:
        g.check('None when nothing is left', r is None)
        g.needs(len(inv.waiting) == 0, 'the search goes on while a schema waits')
    else:
        at = inv.waiting[len(inv.waiting) - 1]
        g.check('the element of the schema that is visited', at.elements.has and r is at.elements.it)
        g.check('a schema that is visited for the first time', not inv.visited.there)
