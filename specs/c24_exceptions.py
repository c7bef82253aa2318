"""C24 Exception middlewares convert or pass on every exception."""
import logging

from soapfish import core, soap, soap11, soap12
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.middlewares import ExceptionLogger, ExceptionToSoapFault
from vc.contract import contract

from . import services
from .lib import attempt

TARGETS = ['soapfish.middlewares.ExceptionToSoapFault.__call__', 'soapfish.middlewares.ExceptionLogger.__call__']


class Own(Exception):
    pass


class Deep(Own, ValueError):
    pass


class Ending(BaseException):
    """Not an error: ends the process, like SystemExit or KeyboardInterrupt."""


def an_exception(g, text):
    return g.pick('exception', [lambda: ValueError(text), lambda: Own(text), lambda: Deep(text), lambda: KeyError(text),
                                lambda: RuntimeError(), lambda: OSError(text), lambda: TypeError(text)])


def attempt_any(f, *args):
    try:
        return True, f(*args)
    except BaseException as e:
        return False, e


def bare_request(version):
    class Dispatcher:
        pass
    d = Dispatcher()
    d.service = soap.Service('urn:s', 'l', [], [], version=version)
    r = SOAPRequest({}, b'')
    r.dispatcher = d
    return r


def chain(g, version, result, error):
    cause = g.pick('cause', [None, lambda: LookupError('the cause')])
    calls = []
    request = bare_request(version)

    def next_call(r):
        calls.append(r)
        if error is not None and cause is not None:
            raise error from cause
        if error is not None:
            raise error
        return result
    return request, next_call, calls


@contract('C24', TARGETS, runs=300)
def conversion(g):
    """Results and SOAP errors come back unchanged, any other exception as a server fault naming it."""
    version = g.pick('version', [soap11, soap12])
    text = g.str('text')
    what = g.pick('what', ['result', 'SOAP error', 'own SOAP error', 'exception', 'ending'])

    class Refused(SOAPError):
        pass
    result = g.opaque('result')
    error = None
    if what == 'SOAP error':
        error = SOAPError(g.str('code'), text, g.str('actor'))
    elif what == 'own SOAP error':
        error = Refused('c', text)
    elif what == 'exception':
        error = an_exception(g, text)
    elif what == 'ending':
        error = g.pick('end', [lambda: Ending(text), lambda: SystemExit(3), lambda: KeyboardInterrupt()])
    request, next_call, calls = chain(g, version, result, error)
    verbose = g.bool('traceback')
    m = ExceptionToSoapFault(traceback=verbose) if g.bool('given') else ExceptionToSoapFault()
    ok, out = attempt_any(m, request, next_call)
    if what == 'ending':
        g.check('passed on', not ok and out is error)
        return
    g.check('nothing escapes', ok)
    g.same('the chain runs once, with the request', calls, [request])
    if error is None:
        g.check('the result', out is result)
    elif isinstance(error, SOAPError):
        g.check('the very error', out is error)
    else:
        g.check('a SOAP error', isinstance(out, SOAPError))
        g.check('of the server', out.code == version.Code.SERVER)
        if not m.traceback:
            g.check('naming its kind', out.message.startswith(type(error).__name__))
            g.check('and its text', str(error) in out.message)
        elif not g.symbolic:
            g.check('with its traceback', 'Traceback' in out.message and type(error).__name__ in out.message and 'next_call' in out.message)


class Log:
    """A logger that records."""

    def __init__(self):
        self.records = []

    def exception(self, msg, *args, **kw):
        self.records.append(('traceback', msg, args))

    def error(self, msg, *args, **kw):
        self.records.append(('traceback' if kw.get('exc_info') else 'error', msg, args))

    def log(self, level, msg, *args, **kw):
        self.records.append(('traceback' if kw.get('exc_info') else 'error', msg, args))

    warning = critical = error


@contract('C24', TARGETS, runs=300, seconds=200)
def logging_only(g):
    """Results come back unchanged, exceptions are raised on; exactly those of a configured kind are logged, once."""
    text = g.str('text')
    result = g.opaque('result')
    error = g.pick('what', [None, lambda: an_exception(g, text), lambda: SOAPError('c', text)])
    kinds = g.pick('kinds', [None, (Exception,), (), (ValueError,), (Own, KeyError), (OSError, TypeError), (SOAPError,)])
    request, next_call, calls = chain(g, soap11, result, error)
    log = Log()
    verbose = g.bool('traceback')
    m = ExceptionLogger(logger=log, exceptions=kinds, traceback=verbose) if kinds is not None else ExceptionLogger(logger=log, traceback=verbose)
    ok, out = attempt(m, request, next_call)
    g.same('the chain runs once, with the request', calls, [request])
    if error is None:
        g.check('the result', ok and out is result)
        g.check('nothing logged', not log.records)
    else:
        g.check('the very exception is raised on', not ok and out is error)
        logged = isinstance(error, kinds if kinds is not None else (Exception,))
        g.check('logged exactly if configured', len(log.records) == (1 if logged else 0))
        for _, msg, args in log.records:
            g.check('it is what is logged', any(a is error or str(error) in str(a) for a in (msg, *args)))
        if logged:
            g.check('with or without traceback', log.records[0][0] == ('traceback' if verbose else 'error'))


@contract('C24', TARGETS)
def configuration(g):
    """Kinds are given as a tuple."""
    ok, e = attempt(ExceptionLogger, exceptions=g.pick('kinds', [ValueError, lambda: [ValueError], None]))
    g.check('refused', not ok and isinstance(e, TypeError))


@contract('C24', TARGETS, proof=False, runs=800, seconds=120)
def in_dispatcher(g):
    """Both middlewares in any order and number in a dispatcher, with handlers that fail in many ways; several requests."""
    texts = ['', 'no', '<&> "x"', 'é漢', 'a\nb', '%s %d', '{0}']
    raised = []

    class Strange(Exception):
        def __str__(self):
            return 'strange ' + repr(self.args)

    def handler(w, k, request, data):
        what, text = plan[0]
        if what == 'fine':
            return services.Result(text='fine')
        e = {'value': ValueError, 'own': Own, 'deep': Deep, 'key': KeyError, 'strange': Strange, 'lookup': IndexError,
             'zero': ZeroDivisionError, 'unicode': UnicodeError, 'stop': StopIteration}.get(what, Own)(text)
        if what == 'soap':
            e = SOAPError('Client.Own', text or 'x')
        raised.append(e)
        raise e
    w = services.world(g, unique=True, headers=False, handler=handler)
    log = Log()
    mws, kinds = [], []
    for k in range(g.int('middlewares', 1, 3)):
        if g.bool(f'm{k} logger'):
            kind = g.pick(f'm{k} kinds', [(Exception,), (ValueError,), (LookupError, Own), ()])
            mws.append(ExceptionLogger(logger=log, exceptions=kind, traceback=g.bool(f'm{k} tb')))
            kinds.append(kind)
        else:
            mws.append(ExceptionToSoapFault(traceback=g.bool(f'm{k} tb')))
            kinds.append(None)
    if None not in kinds:
        mws.insert(0, ExceptionToSoapFault())
        kinds.insert(0, None)
    d = services.make(w, middlewares=mws)
    plan = [None]
    for i in range(g.int('requests', 1, 3)):
        what = g.pick(f'r{i}', ['fine', 'value', 'own', 'deep', 'key', 'strange', 'lookup', 'zero', 'soap', 'unicode', 'stop'])
        plan[0] = (what, g.pick(f'r{i} text', texts))
        raised.clear()
        log.records.clear()
        k = g.int(f'r{i} op', 0, len(w.methods) - 1)
        r = services.post(w, d, services.envelope(w, [services.data_element(w, w.methods[k].input, ('a', None, [], None))]),
                          w.methods[k].soapAction)
        kind, code, message, _ = services.answer(w, r.http_content)
        g.check('the handler ran once', len(raised) == (0 if what == 'fine' else 1))
        if what == 'fine':
            g.check('answered', kind == 'answer' and r.http_status_code == 200 and not log.records)
            continue
        e = raised[0]
        inner = max(i for i, x in enumerate(kinds) if x is None)
        g.same('logged', len(log.records), len([1 for x in kinds[inner + 1:] if isinstance(e, x)]))
        g.check('a fault', kind == 'fault' and r.http_status_code == 500)
        if isinstance(e, SOAPError):
            g.same('unchanged', (code, message), (e.code, e.message))
        else:
            g.same('server code', code, services.SERVER[w.version])
            if mws[inner].traceback:
                g.check('traceback', 'Traceback' in message and type(e).__name__ in message)
            else:
                g.same('kind and text', message, type(e).__name__ + ': ' + str(e))
