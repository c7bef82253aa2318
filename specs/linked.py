"""Schemas in several documents, wherever these are, with types that refer to those of one another; for the native checks."""
from lxml import etree

from soapfish import xsd

LOCATIONS = ['a.xsd', 'dir/b.xsd', '../c.xsd', '${scheme}://${host}/d/e.xsd', '${scheme}://${host}/e.xsd', 'http://h.example/f?x=1&y=2',
             "it's g.xsd", 'é.xsd', 'C:\\h.xsd', 'i#j', '%zz', '${host}', 'urn:k', 'a b:c', 'soapfish:0', 'soapfish:located:0', 'file:///dev/null']
FORMS = [xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED]


class Linked:
    """The last schema is the one to begin with; each has one type."""

    def __init__(self, g):
        self.g, self.types, self.schemas, self.below = g, [], [], []
        n, places = g.int('schemas', 1, 4), list(LOCATIONS)
        # Included schemas have the namespace of those that include them; others know only the last of a namespace:
        spaces = ['urn:0']
        for k in range(1, n):
            spaces.append(spaces[-1] if g.bool(f'{k} same namespace') else f'urn:{k}')
        for k, namespace in enumerate(spaces):
            seen = [j for j in range(k) if spaces[j] == namespace or spaces[j + 1] != spaces[j]]
            below = [j for j in seen if g.bool(f'{k} uses {j}')]
            if k == n - 1 or spaces[k + 1] != namespace:  # the last of a namespace reaches all of it
                below += [j for j in seen if j not in below and spaces[j] == namespace]
            fields = {'value': xsd.Element(xsd.Int)}
            fields.update((f'below{j}', xsd.Element(self.types[j], minOccurs=0)) for j in below)
            t = type(f'Type{k}', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, **fields})
            location = None
            if k < n - 1:
                location = g.pick(f'{k} location', places)
                places.remove(location)
            known = [self.schemas[j] for j in below]
            self.schemas.append(xsd.Schema(namespace, location=location, elementFormDefault=g.pick(f'{k} form', FORMS), complexTypes=[t],
                                           imports=[s for s in known if s.targetNamespace != namespace],
                                           includes=[s for s in known if s.targetNamespace == namespace],
                                           elements={f'element{k}': xsd.Element(t), f'out{k}': xsd.Element(t)}))
            self.types.append(t)
            self.below.append(below)
        self.root = self.schemas[-1]
        self.element, self.answer = f'element{n - 1}', f'out{n - 1}'

    def tree(self, k=None, at='v'):
        """A document of the type, as the schemas describe it, and what it says."""
        k = len(self.types) - 1 if k is None else k
        s = self.schemas[k]
        x = etree.Element('{%s}%s' % (s.targetNamespace, self.element))
        return x, self.fill(x, k, at)

    def fill(self, x, k, at):
        space = '{%s}' % self.schemas[k].targetNamespace if self.schemas[k].elementFormDefault == FORMS[0] else ''
        v = self.g.int(at, -5, 5)
        etree.SubElement(x, space + 'value').text = str(v)
        said = [v]
        for j in self.below[k]:
            some = self.g.bool(f'{at}.{j}')
            said.append(self.fill(etree.SubElement(x, f'{space}below{j}'), j, f'{at}.{j}') if some else None)
        return said

    def said(self, o, k=None):
        k = len(self.types) - 1 if k is None else k
        return [o.value, *[None if getattr(o, f'below{j}') is None else self.said(getattr(o, f'below{j}'), j) for j in self.below[k]]]

    def damaged(self, x):
        """Makes the document invalid, anywhere in it."""
        e = self.g.pick('damaged', list(x.iter()))
        if etree.QName(e).localname == 'value':
            if self.g.bool('without'):
                e.getparent().remove(e)
            else:
                e.text = 'no number'
        else:
            etree.SubElement(e, self.g.pick('more', ['value', '{urn:0}value', 'other']))
