"""C21 SOAP action headers are read back as written."""
import cgi

import requests

from soapfish import namespaces, soap, soap11, soap12, xsd
from soapfish.core import SOAPRequest
from vc.contract import contract

from . import services
from .c13_faults import Ask, plug
from .lib import attempt

TARGETS = ['soapfish.soap11.determine_soap_action', 'soapfish.soap11.build_http_request_headers',
           'soapfish.soap12.determine_soap_action', 'soapfish.soap12.build_http_request_headers',
           'soapfish.soap.SOAPVersion.get_version']
CONTROL = ''.join(chr(c) for c in range(32)) + '\x7f'


def arrives(headers, plain=False):
    """The variables a server makes of HTTP headers (plain: under their own names)."""
    env = {}
    for k, v in headers.items():
        name = k.replace('-', '_').upper()
        env[name if name == 'CONTENT_TYPE' or plain else 'HTTP_' + name] = v
    return env


def an_action(g):
    a = g.str('action', '"\\\r\n\t', nonempty=True)
    if not g.symbolic:
        a = g.pick('one action', services.ACTIONS + ['a;b', 'a; b="c', 'action=x', '; action=y', '=', ' a ', "'", 'a,b', a])
        a = a.replace('"', '')
        g.assume(a and not any(c in a for c in CONTROL))
    return a


@contract('C21', TARGETS)
def soap11_action(g):
    """SOAP 1.1: in a WSGI environment and under the plain name."""
    action = an_action(g)
    env = arrives(soap11.build_http_request_headers(action), g.bool('plain'))
    env['CONTENT_LENGTH'] = '1'
    g.check('read back', soap11.determine_soap_action(SOAPRequest(env, b'')) == action)
    g.check('also in quotes', soap11.determine_soap_action(SOAPRequest({'HTTP_SOAPACTION': '"' + action + '"'}, b'')) == action)
    env = {k: '' for k in g.pick('empty', [[], ['SOAPACTION'], ['SOAPACTION', 'HTTP_SOAPACTION']])}
    env['ACTION'] = g.pick('as', [action, lambda: '"' + action + '"'])
    g.check('by its last name', soap11.determine_soap_action(SOAPRequest(env, b'')) == action)


@contract('C21', TARGETS, assumes=['cgi.parse_header splits a header of the form TYPE; action="TEXT" as its documentation says'])
def soap12_action(g):
    """SOAP 1.2: in the content type."""
    action = an_action(g)
    headers = soap12.build_http_request_headers(action)
    g.check('one header', [k for k in headers] == ['Content-Type'])
    g.check('read back', soap12.determine_soap_action(SOAPRequest(arrives(headers), b'')) == action)


@contract('C21', TARGETS)
def no_action(g):
    """Absent or empty headers determine none."""
    env = {'REQUEST_METHOD': 'POST'}
    version = g.pick('version', [soap11, soap12])
    if version is soap11:
        for k in ('HTTP_SOAPACTION', 'SOAPACTION', 'ACTION'):
            v = g.pick(k, [None, '', '""'] if k == 'HTTP_SOAPACTION' else [None, ''])
            if v is not None:
                env[k] = v
        env['CONTENT_TYPE'] = g.pick('type', ['text/xml', 'application/soap+xml; action="other"'])
    else:
        v = g.pick('content type', [None, '', 'text/xml', 'application/soap+xml', 'application/soap+xml; charset=utf-8',
                                    'application/soap+xml; action=""', 'text/xml; action="other"', 'application/soap+xmlx; action="other"',
                                    'application/soap; action="other"', 'application/xml; action="other"', 'xapplication/soap+xml; action="other"'])
        if v is not None:
            env['CONTENT_TYPE'] = v
        if g.bool('the other header'):
            env['HTTP_SOAPACTION'] = 'other'
    g.check('none', not version.determine_soap_action(SOAPRequest(env, b'')))
    built = version.build_http_request_headers(g.pick('built for', [None, '']))
    env = arrives({k: v for k, v in built.items() if v is not None})     # None: requests does not send it
    g.check('nor if built for none', not version.determine_soap_action(SOAPRequest(env, b'')))


@contract('C21', TARGETS)
def version(g):
    """A namespace determines a version exactly if it is one of that version's two namespaces."""
    names = {'http://schemas.xmlsoap.org/soap/envelope/': soap11, 'http://schemas.xmlsoap.org/wsdl/soap/': soap11,
             'http://www.w3.org/2003/05/soap-envelope': soap12, 'http://schemas.xmlsoap.org/wsdl/soap12/': soap12}
    for k in names:
        g.check('known', soap.SOAPVersion.get_version(k) is names[k])
    n = g.str('namespace')
    if not g.symbolic:
        n = g.pick('which', list(names) + [n, '', 'http://schemas.xmlsoap.org/soap/envelope', 'http://schemas.xmlsoap.org/wsdl/', 'HTTP://schemas.xmlsoap.org/wsdl/soap/'])
    ok, r = attempt(soap.SOAPVersion.get_version, n)
    want = next((v for k, v in names.items() if k == n), None)
    g.check('exactly the known ones', ok == (want is not None))
    if ok:
        g.check('the right one', r is want)
    else:
        g.check('an error', isinstance(r, ValueError))


@contract('C21', TARGETS, proof=False, runs=800)
def posted(g):
    """The headers a stub posts, as they arrive in a WSGI, CGI or Django environment; and other orders of parameters."""
    v = g.pick('version', [soap11, soap12])
    action = an_action(g)
    sent = []
    wire = plug(g, v.get_error_response('c', 'm'), sent)
    m = xsd.Method('op', action, input='in', output='out')
    s = soap.Stub(service=soap.Service('urn:s', 'http://h/', [], [m], version=v), location='http://h/')
    attempt(s.call, 'op', Ask(text='x'))
    g.check('posted', len(sent) == 1)
    headers = sent[0][1]['headers']
    env = arrives(headers)
    if v is soap12 and g.bool('charset'):
        env['CONTENT_TYPE'] = env['CONTENT_TYPE'].replace('xml;', 'xml; charset="utf-8";')
    g.same('read back', v.determine_soap_action(SOAPRequest(env, b'')), action)
    from soapfish.django_ import DjangoEnvironWrapper
    g.same('read back by Django', v.determine_soap_action(SOAPRequest(DjangoEnvironWrapper(env), b'')), action)
    if v is soap11:
        g.same('under its plain name', v.determine_soap_action(SOAPRequest(arrives(headers, True), b'')), action)
