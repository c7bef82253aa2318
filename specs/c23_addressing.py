"""C23 Addressing headers answer the request they belong to."""
import threading
import uuid

from lxml import etree

from soapfish import wsa, xsd
from soapfish.wsa import fill_header
from vc.contract import contract

TARGETS = ['soapfish.wsa.fill_header', 'soapfish.wsa.Header', 'soapfish.wsa.ReplyTo']
WSA = 'http://www.w3.org/2005/08/addressing'
ANONYMOUS = 'http://www.w3.org/2005/08/addressing/anonymous'


class Mark:
    """A new unique identifier."""

    def __init__(self, text):
        self.text = text
        self.hex = text
        self.urn = 'urn:uuid:' + text

    def __str__(self):
        return self.text


def fresh_ids(g):
    """Identifiers, no two alike, as uuid promises."""
    made = []

    def make(*args, **kw):
        text = g.str('id %d' % len(made), nonempty=True)
        for m in made:
            g.assume(m.text != text)
        made.append(Mark(text))
        return made[-1]
    if g.symbolic:
        g.override(uuid.uuid1, make)
        g.override(uuid.uuid4, make)
    return made


def optional(g, name):
    return g.pick(name, [None, lambda: g.str(name + ' text', nonempty=True)])


def header(g, name):
    h = wsa.Header(Action=optional(g, name + ' action'), MessageID=g.str(name + ' id', nonempty=True), To=g.str(name + ' to', nonempty=True),
                   RelatesTo=optional(g, name + ' relates'))
    h.ReplyTo = wsa.ReplyTo(Address=g.str(name + ' reply', nonempty=True))
    return h


def fields(h):
    return (h.Action, h.MessageID, h.To, h.RelatesTo, h.ReplyTo, h.ReplyTo.Address)


@contract('C23', TARGETS, runs=300, assumes=['uuid.uuid1 and uuid.uuid4 return a new identifier every time'])
def reply(g):
    """A reply header: action, relation, receiver and a message id of its own; the rest is left alone."""
    ids = fresh_ids(g)
    src = header(g, 'request')
    g.assume(src.Action is not None)
    same = g.bool('filled from itself')
    dst = src if same else header(g, 'reply')
    before, own = fields(src), fields(dst)
    fill_header(dst, src)
    if not same:
        g.same('the request is left as it was', fields(src), before)
    g.check('action', dst.Action == before[0] + 'Response')
    g.check('relation', dst.RelatesTo == before[1])
    g.check('receiver', dst.To == ANONYMOUS)
    g.check('reply address left', dst.ReplyTo is own[4] and dst.ReplyTo.Address == own[5])
    g.check('a message id', isinstance(dst.MessageID, str) and len(dst.MessageID) > 0)
    if g.symbolic:
        g.check('a new one', len(ids) > 0 and (dst.MessageID == ids[-1].text or dst.MessageID == ids[-1].urn))
    else:
        g.check('a new one', dst.MessageID not in (before[1], own[1]))


@contract('C23', TARGETS, runs=300)
def no_request(g):
    """Without a request header only receiver and message id are set."""
    ids = fresh_ids(g)
    dst = header(g, 'reply')
    own = fields(dst)
    if g.bool('given as None'):
        fill_header(dst, None)
    else:
        fill_header(dst)
    g.check('receiver', dst.To == ANONYMOUS)
    if g.symbolic:
        g.check('a new message id', len(ids) > 0 and (dst.MessageID == ids[-1].text or dst.MessageID == ids[-1].urn))
    else:
        g.check('a new message id', dst.MessageID != own[1])
    g.same('the rest is left', (dst.Action, dst.RelatesTo, dst.ReplyTo, dst.ReplyTo.Address), (own[0], own[3], own[4], own[5]))


@contract('C23', TARGETS, runs=300)
def two_replies(g):
    """Two headers filled for one request, or one filled twice, have different ids."""
    fresh_ids(g)
    src = header(g, 'request')
    g.assume(src.Action is not None)
    a = wsa.Header()
    b = a if g.bool('same header') else wsa.Header()
    fill_header(a, src)
    first = a.MessageID
    fill_header(b, g.pick('second', [None, src]))
    g.check('different ids', first != b.MessageID)
    g.check('the first keeps its own', a is b or a.MessageID == first)


@contract('C23', TARGETS, runs=300)
def written(g):
    """A header is written as the elements of the addressing namespace that bear the names of its fields, and read back."""
    src = header(g, 'request')
    parent = etree.Element('Header')
    src.render(parent, src, WSA, xsd.ElementFormDefault.QUALIFIED)
    want = etree.Element('Header')
    for name, text in (('Action', src.Action), ('MessageID', src.MessageID), ('To', src.To)):
        if text is not None:
            etree.SubElement(want, '{%s}%s' % (WSA, name)).text = text
    etree.SubElement(etree.SubElement(want, '{%s}ReplyTo' % WSA), '{%s}Address' % WSA).text = src.ReplyTo.Address
    if src.RelatesTo is not None:
        etree.SubElement(want, '{%s}RelatesTo' % WSA).text = src.RelatesTo
    g.same('the elements', [x for x in parent], [x for x in want])
    back = wsa.Header.parse_xmlelement(parent)
    g.check('read back', (back.Action, back.MessageID, back.To, back.RelatesTo, back.ReplyTo.Address) ==
            (src.Action, src.MessageID, src.To, src.RelatesTo, src.ReplyTo.Address))


@contract('C23', TARGETS, proof=False, runs=100)
def many(g):
    """Sequences of fills over several headers and requests, also from several threads; headers of subclasses."""
    class Own(wsa.Header):
        extra = xsd.Element(xsd.String)
    requests = [wsa.Header(Action='urn:a%d' % k, MessageID='m%d' % k, To='t') for k in range(3)]
    kept = [(r.Action, r.MessageID, r.To, r.RelatesTo, r.ReplyTo) for r in requests]
    ids, headers = [], []
    for k in range(g.int('fills', 1, 40)):
        src = g.pick(f'{k} request', [None] + requests)
        dst = headers[g.int(f'{k} which', 0, len(headers) - 1)] if headers and g.bool(f'{k} again') else Own(extra='x', ReplyTo=wsa.ReplyTo(Address='r'))
        headers.append(dst)
        old = dst.Action, dst.RelatesTo
        fill_header(dst, src)
        ids.append(dst.MessageID)
        g.check('relation', (dst.Action, dst.RelatesTo) == (old if src is None else (src.Action + 'Response', src.MessageID)))
        g.check('rest', dst.extra == 'x' and dst.ReplyTo.Address == 'r' and dst.To == ANONYMOUS)
    g.check('no id twice', len(set(ids)) == len(ids))
    g.same('requests left', [(r.Action, r.MessageID, r.To, r.RelatesTo, r.ReplyTo) for r in requests], kept)
    own = []

    def work():
        for _ in range(50):
            h = wsa.Header()
            fill_header(h, requests[0])
            own.append(h.MessageID)
    ts = [threading.Thread(target=work) for _ in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    g.check('no id twice among threads', len(set(own)) == 200)
