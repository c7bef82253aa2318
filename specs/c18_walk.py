"""C18 Every imported schema is served once and resolvable."""
from urllib.parse import urljoin, urlsplit

from lxml import etree

from soapfish import soap, soap11, soap12, utils, xsd
from soapfish.core import SOAPRequest
from soapfish.soap_dispatch import SOAPDispatcher
from vc.contract import contract

from .lib import attempt

TARGETS = ['soapfish.utils.walk_schema_tree', 'soapfish.soap_dispatch.SOAPDispatcher.__init__',
           'soapfish.soap_dispatch.SOAPDispatcher._rewrite_locations', 'soapfish.soap_dispatch.SOAPDispatcher.handle_xsd_request',
           'soapfish.py2xsd.build_imports', 'soapfish.py2xsd.build_includes']
XS = '{http://www.w3.org/2001/XMLSchema}'


def decide(g, roots, schemas):
    """Every location reached from the roots is visited once, with a schema of that location."""
    reached, todo = [], list(roots)
    while todo:
        s = todo.pop()
        for t in list(s.imports) + list(s.includes):
            if t.location not in [x.location for x in reached]:
                reached.append(t)
                todo.append(t)
    visits = []

    def callback(item):
        visits.append(item)
        return 'result %d' % len(visits)
    ok, r = attempt(utils.walk_schema_tree, roots, callback)
    g.check('terminates', ok)
    g.check('each location once', sorted(v.location for v in visits) == sorted(x.location for x in reached))
    g.check('keyed by location', sorted(r) == sorted(v.location for v in visits))
    g.check('with what the callback returned', all(r[v.location] == 'result %d' % (k + 1) for k, v in enumerate(visits)))


def schema(k, location):
    return xsd.Schema('urn:%d' % k, location=location)


@contract('C18', TARGETS, proof=False, exhaustive=5000, seconds=60)
def every_small_graph(g):
    """A root and up to three schemas importing each other and themselves in every possible way."""
    n = g.pick('schemas', [0, 1, 2, 3])
    schemas = [schema(k, 'l%d' % k) for k in range(n)]
    root = schema(9, None)
    root.imports = [s for k, s in enumerate(schemas) if g.bool(f'root to {k}')]
    for i, s in enumerate(schemas):
        s.imports = [t for k, t in enumerate(schemas) if g.bool(f'{i} to {k}')]
    decide(g, [root], schemas)


@contract('C18', TARGETS, proof=False, runs=4000, seconds=60)
def larger_graphs(g):
    """Larger graphs: several roots, imports and includes, repeated ones, roots that are themselves imported."""
    n = g.int('schemas', 1, 8)
    same = g.bool('shared locations')
    schemas = [schema(k, 'l%d' % k) for k in range(n)]
    roots = [schema(10 + k, g.pick(f'root {k}', [None, 'r%d' % k])) for k in range(g.int('roots', 1, 3))]
    if same and n > 1:
        # two schema objects for one location, with the same content
        twin = schema(1, 'l1')
        schemas.append(twin)
    for i, s in enumerate(roots + schemas):
        edges = [g.pick(f'{i} edge {k}', schemas + [r for r in roots if r.location is not None]) for k in range(g.int(f'{i} edges', 0, 3))]
        cut = g.int(f'{i} imports', 0, len(edges))
        s.imports, s.includes = edges[:cut], edges[cut:]
    if same and n > 1:
        schemas[-1].imports, schemas[-1].includes = schemas[1].imports, schemas[1].includes
    decide(g, roots, schemas)


LOCATIONS = ['a.xsd', 'b', 'dir/c.xsd', '../d.xsd', 'http://h.example/e.xsd', 'http://h.example/f?x=1&y=2', 'g h.xsd', 'é.xsd', 'i+j.xsd', 'k%20l.xsd',
             '${scheme}://${host}/a/types.xsd', "it's/p.xsd", 'm#n', 'o$p', '${host}', 'q&r;s', 'xsd']


@contract('C18', TARGETS, proof=False, runs=800, seconds=100)
def served_documents(g):
    """Starting from the served description, every location in a served document leads to the document of that schema."""
    n = g.int('schemas', 0, 5)
    names = []
    for k in range(n):
        x = g.pick(f'location {k}', LOCATIONS)
        names.append(x if x not in names else x + str(k))
    namespaces = []
    for k in range(n):
        namespaces.append('urn:root' if k % 2 and g.bool(f'{k} same namespace') else 'urn:%d' % k)
    root = xsd.Schema('urn:root', elements={'in': xsd.Element(xsd.String), 'out': xsd.Element(xsd.String)})
    schemas = [xsd.Schema(namespaces[k], location=names[k], elements={'e%d' % k: xsd.Element(xsd.String)}) for k in range(n)]
    for i, s in enumerate([root] + schemas):
        others = [t for k, t in enumerate(schemas) if t is not s and g.bool(f'{i} to {k}')]
        s.imports = [t for t in others if t.targetNamespace != s.targetNamespace]
        s.includes = [t for t in others if t.targetNamespace == s.targetNamespace]
    version = g.pick('version', [soap11, soap12])
    service = soap.Service(targetNamespace='urn:service', location='${scheme}://${host}/ws', schemas=[root], version=version,
                           methods=[xsd.Method('op', 'act', input='in', output='out', function=lambda r, d: d)])
    ok, d = attempt(SOAPDispatcher, service)
    g.check('a dispatcher', ok)
    base = g.pick('base', ['http://host/ws', 'https://host:8080/', 'http://host/a/b'])
    by_location = dict(zip(names, schemas))

    def get(url):
        g.check('same place', url.split('?')[0] == base)
        env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': urlsplit(url).query, 'wsgi.url_scheme': urlsplit(url).scheme, 'HTTP_HOST': urlsplit(url).netloc}
        r = d.dispatch(SOAPRequest(env, b''))
        g.check('served', r.http_status_code == 200)
        return etree.fromstring(r.http_content)

    def follow(element, url, parent, seen):
        links = list(element.iterchildren(XS + 'import', XS + 'include'))
        g.check('imports are written', len(links) == len(parent.imports) + len(parent.includes))
        for e, t in zip(links, list(parent.imports) + list(parent.includes)):
            there = urljoin(url, e.get('schemaLocation'))
            doc = get(there)
            g.check('a schema', doc.tag == XS + 'schema')
            g.check('of that namespace', doc.get('targetNamespace') == t.targetNamespace)
            g.check('import or include', (e.tag == XS + 'include' and t.targetNamespace == parent.targetNamespace)
                    or e.get('namespace') == t.targetNamespace)
            g.check('that schema', [x.get('name') for x in doc.iterchildren(XS + 'element')] == list(t.elements))
            if t not in seen:
                seen.append(t)
                follow(doc, there, t, seen)
    url = base + '?wsdl'
    doc = get(url)
    embedded = list(doc.iter(XS + 'schema'))
    g.check('the schema is in the description', [x.get('targetNamespace') for x in embedded] == ['urn:root'])
    seen = []
    follow(embedded[0], url, root, seen)


class Target:
    def __init__(self, g):
        self.location = g.opaque('location')


class Node:
    """A schema of which nothing is known but that it has imports and includes with locations."""

    def __init__(self, g):
        self.imports, self.includes = g.list('imports', Target), g.list('includes', Target)


class Seen:
    """The dictionary of what was visited, in any state: whether a location is there is not known.

    It only grows; what is done with each location is recorded."""

    _vc_scratch = ('at', 'there', 'added', 'value')     # of the location that is dealt with

    def __init__(self, g):
        self.g = g
        self.asked = []
        self.done = []
        self.at = self.there = None
        self.added = False

    def __contains__(self, location):
        self.at, self.there, self.added = location, self.g.arbitrary('visited'), False
        self.asked.append(location)
        if self.there:
            self.done.append(location)
        return self.there

    def __setitem__(self, location, value):
        g = self.g
        g.needs(not self.added and location == self.at, 'what was asked for is added')
        g.check('a location that was visited is not visited again', not self.there)
        self.value = value
        self.added = True


@contract('C18', TARGETS, runs=200)
def one_level(g):
    """Any number of schemas with any number of imports and includes, whatever was visited before: each of their targets is
    visited unless its location was, the result is stored under its location, and its own targets are walked in turn.

    By induction on the number of locations not visited yet: every location that is reached is visited exactly once."""
    if not g.symbolic:
        names = ['l%d' % k for k in range(5)]
        schemas = [xsd.Schema('urn:%d' % k, location=l) for k, l in enumerate(names)]
        for k, s in enumerate(schemas):
            s.imports = [schemas[i] for i in range(5) if g.bool(f'{k} {i}')]
        return decide(g, schemas[:g.int('roots', 0, 3)], schemas)
    given = g.pick('seen', [True, False])
    seen = Seen(g)
    visit = g.fn('visit')

    def callback(item):
        g.needs(seen.added is False and seen.at == item.location, 'the visit of what was asked for')
        return visit(item)

    def below(schemas, callback_, seen_=None):
        g.needs(len(schemas) == 1, 'one schema is walked at a time')
        item = schemas[0]
        g.check('the same visits', callback_ is callback and seen_ is seen)
        g.needs(item.location == seen.at, 'what was added is walked')
        g.check('only what is new is walked', seen.added)
        g.check('with what the visit returned', seen.value == visit(item))
        seen.done.append(item.location)
        return seen_
    schemas = g.list('schemas', Node)
    g.recursion(utils.walk_schema_tree, below)
    g.empty_dicts(utils.walk_schema_tree, lambda: seen)
    r = utils.walk_schema_tree(schemas, callback, seen) if given else utils.walk_schema_tree(schemas, callback)
    g.check('answers with what was visited', r is seen)
    g.needs_same(seen.asked, [t.location for s in schemas for t in list(s.imports) + list(s.includes)], 'each target is asked for')
    g.needs_same(seen.done, seen.asked, 'each is visited and walked if it was not')
