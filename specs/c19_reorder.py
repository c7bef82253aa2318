"""C19 Schemas are ordered after what they import."""
import collections

from soapfish import wsdl2py, xsdspec
from vc.contract import contract

from .lib import attempt

TARGETS = ['soapfish.wsdl2py.reorder_schemas']


def schema(namespace, imports):
    s = xsdspec.Schema(targetNamespace=namespace)
    for n in imports:
        s.imports.append(xsdspec.Import(namespace=n) if n is not None else xsdspec.Import(schemaLocation='x'))
    return s


def reaches(edges, i):
    """The schemas that schema i leads to, over any number of imports."""
    seen, todo = set(), [i]
    while todo:
        for k in edges[todo.pop()]:
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return seen


def decide(g, given):
    before = list(given)
    ok, r = attempt(wsdl2py.reorder_schemas, given)
    g.check('answers', ok)
    r = list(r)
    g.check('each once', sorted(map(id, r)) == sorted(map(id, before)))
    edges = [[k for k, t in enumerate(r) if t.targetNamespace in {i.namespace for i in s.imports}] for s in r]
    if not any(i in reaches(edges, i) for i in range(len(r))):
        g.check('after what it imports', all(k < i for i in range(len(r)) for k in edges[i]))


@contract('C19', TARGETS, proof=False, exhaustive=70000, seconds=200)
def every_small_list(g):
    """All lists of at most four schemas, with every import relation among them."""
    n = g.pick('schemas', [0, 1, 2, 3, 4])
    decide(g, [schema('urn:%d' % i, ['urn:%d' % k for k in range(n) if k != i and g.bool(f'{i} imports {k}')]) for i in range(n)])


@contract('C19', TARGETS, proof=False, runs=4000, seconds=60)
def longer_lists(g):
    """Longer lists with shared namespaces, foreign, repeated and missing import namespaces, in any order."""
    n = g.int('schemas', 1, 9)
    names = [g.pick(f'namespace {i}', ['urn:%d' % i, 'urn:%d' % i, 'urn:%d' % i, 'urn:0', None]) for i in range(n)]
    acyclic = g.bool('acyclic')
    order = list(range(n))
    for i in range(n - 1):
        k = i + g.int(f'swap {i}', 0, n - 1 - i)
        order[i], order[k] = order[k], order[i]
    given = [None] * n
    for place, i in enumerate(order):
        count = g.int(f'{i} imports', 0, 3)
        wanted = []
        for k in range(count):
            t = g.int(f'{i} import {k}', 0, n)
            if t == n:
                wanted.append('urn:elsewhere')
            elif not acyclic or t < i and (names[t] != names[i]):
                wanted.append(names[t])
        given[place] = s = schema(names[i], wanted)
        if g.bool(f'{i} includes'):
            s.includes.append(xsdspec.Include(schemaLocation='x.xsd'))
        if g.bool(f'{i} has an element'):
            s.elements.append(xsdspec.Element(name='e', type='xs:int'))
        if g.bool(f'{i} has types'):
            s.simpleTypes.append(xsdspec.SimpleType(name='S', restriction=xsdspec.Restriction(base='xs:int')))
            s.complexTypes.append(xsdspec.XSDComplexType(name='C', sequence=xsdspec.Sequence()))
        if g.bool(f'{i} is qualified'):
            s.elementFormDefault = 'qualified'
    decide(g, given)


def namespace(g):
    return g.opaque('namespace') if g.symbolic else g.pick('namespace', [None, 'urn:0', 'urn:1', 'urn:2', 'urn:3', 'urn:4', 'urn:5'])


class Item:
    """A schema about which nothing is known but the namespaces it has and imports."""

    def __init__(self, g):
        self.targetNamespace = namespace(g)
        self.imports = g.list('imports', Imported)


class Imported:
    def __init__(self, g):
        self.namespace = namespace(g)


def wants(a, b):
    """Schema a imports the namespace of schema b."""
    return any(i.namespace == b.targetNamespace for i in a.imports)


class Turns:
    """The invariant of the loop: what is still waiting ends in `counter` schemas that all want a waiting one.

    The variables are known by what they hold when the loop is reached: the ordered schemas (an empty list), those that wait
    (the schemas that were given) and the number of those found to want a waiting one (0)."""

    def __init__(self, g, given):
        self.g, self.given, self.left = g, given, False

    def sort_out(self, variables):
        g = self.g
        done = [k for k, v in variables.items() if type(v) is list and len(v) == 0]
        count = [k for k, v in variables.items() if type(v) is int]
        wait = [k for k, v in variables.items() if type(v) is collections.deque]
        g.needs(len(done) == 1 and len(count) == 1 and len(wait) == 1, 'the loop works with the ordered, the waiting and a count')
        self.done, self.count, self.wait = done[0], count[0], wait[0]

    def enter(self, variables):
        self.sort_out(variables)
        g = self.g
        g.needs(variables[self.count] == 0, 'none is known to be stuck at first')
        g.needs_same(list(variables[self.wait]), list(self.given), 'all wait at first')

    def arbitrary(self, variables):
        g = self.g
        self.u, self.v = g.list('not known', Item), g.list('stuck', Item)
        waiting = self.u + self.v
        g.assume(all(any(wants(a, b) for b in waiting) for a in self.v))
        self.out = g.list('ordered', Item)
        return {self.done: list(self.out), self.wait: collections.deque(waiting), self.count: len(self.v)}

    def turn(self, before, after):
        g = self.g
        g.needs(len(self.u) > 0, 'a turn looks at a schema not known to be stuck')
        out, wait, count = after[self.done], list(after[self.wait]), after[self.count]
        head, rest = self.u[0], self.u[1:] + self.v
        if len(out) == len(self.out):
            g.needs_same(wait, rest + [head], 'a stuck schema goes to the end')
            g.needs_same(out, self.out, 'the order so far stays')
            g.needs(count == len(self.v) + 1, 'it is counted')
            g.check('only what wants a waiting schema waits', any(wants(head, b) for b in rest))
            if len(self.v) > 0:
                p = g.int('p')
                g.assume(0 <= p and p < len(self.v))
                a = self.v[p]
                for b in self.u + self.v:
                    if wants(a, b):
                        g.check('what those counted want still waits', any(x is b for x in wait))
                        return
                g.check('those counted want a waiting schema', False)
        else:
            g.needs_same(wait, rest, 'a schema leaves the queue')
            g.needs_same(out, self.out + [head], 'and is put behind those before it')
            g.needs(count == 0, 'counted anew')
            g.check('no schema is put before one it imports', not any(wants(head, b) for b in rest))

    def leave(self, variables):
        self.left = True
        self.g.needs(len(self.u) == 0, 'the loop ends when all that wait are stuck')


@contract('C19', TARGETS, runs=300)
def any_number_of_schemas(g):
    """Any list of schemas: each turn keeps them all, puts none before one that still waits and that it imports; when it
    ends with some left, each of them imports another one left, so that the import relation is not acyclic."""
    given = g.list('given', Item)
    inv = Turns(g, given)
    g.invariant(wsdl2py.reorder_schemas, inv)
    r = wsdl2py.reorder_schemas(given)
    if not g.symbolic:
        return decide(g, given)
    g.needs(inv.left, 'the order is made by a loop')
    g.needs_same(r, inv.out + inv.v, 'those ordered, then those left')
    rank = g.fn('rank', 'int')
    # an acyclic import relation has a rank that decreases along it; a list that is not empty has an element of least rank
    if len(inv.v) > 0:
        m = g.int('least')
        g.assume(0 <= m and m < len(inv.v))
        low = inv.v[m]
        g.assume(all(rank(low) <= rank(b) for b in inv.v))
        g.assume(all(not wants(low, b) or rank(b) < rank(low) for b in inv.v))
        g.check('none is left when the imports are acyclic', False)
