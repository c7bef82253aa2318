"""Contracts: registration, symbolic proof, native check."""
import ast
import importlib
import inspect
import linecache
import os
import re
import signal
import sys
import time
import traceback

from . import core
from .core import CUR, Ctx, Raised, Unsupported, check_formula, z3
from .gen import (CheckFailed, DictSource, Exhaustive, ModelSource, NatGen, RandomSource, Rejected, SymGen, Unmet, dumpdraws,
                  short)

REGISTRY = {}


class Contract:
    def __init__(self, prop, fn, targets, proof, runs, exhaustive, seconds, assumes, name=None):
        self.prop, self.fn, self.targets, self.proof = prop, fn, targets, proof
        self.runs, self.exhaustive, self.seconds, self.assumes = runs, exhaustive, seconds, assumes
        self.id = f'{prop}.{name or fn.__name__}'


def contract(prop, targets=(), proof=True, runs=200, exhaustive=False, seconds=60, assumes=()):
    """proof: discharge the obligations deductively for all inputs; the native runs are a cross-check and replay.
    proof=False: bounded check only (labelled so)."""
    def deco(f):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            c = Contract(p, f, targets, proof, runs, exhaustive, seconds, assumes)
            assert c.id not in REGISTRY, c.id
            REGISTRY[c.id] = c
        return f
    return deco


def load(prop=None):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
    for fn in sorted(os.listdir(d)):
        if fn.startswith('c') and fn.endswith('.py'):
            if prop is None or fn[:3].upper() == prop:
                importlib.import_module('specs.' + fn[:-3])
    return {k: v for k, v in REGISTRY.items() if prop is None or v.prop == prop}


class Sink:
    """Receives the obligations of one contract and has them discharged."""

    def __init__(self, on_sat, timeout_ms, max_fail=4):
        self.obligations = {}     # label -> [discharged, refuted, unknown]
        self.solvers = {}
        self.failures = []
        self.on_sat = on_sat
        self.timeout_ms = timeout_ms
        self.max_fail = max_fail

    def emit(self, label, t):
        c = core.ctx()
        t = z3.simplify(t)
        rec = self.obligations.setdefault(label, [0, 0, 0])
        if z3.is_true(t):
            rec[0] += 1
            self.solvers['simplifier'] = self.solvers.get('simplifier', 0) + 1
            return
        if not z3.is_false(t) and c.entailed(t):
            rec[0] += 1
            self.solvers['z3'] = self.solvers.get('z3', 0) + 1
            c.assume(t)
            return
        r, model, name = check_formula(c.pc, z3.Not(t), self.timeout_ms)
        if r == 'unsat':
            rec[0] += 1
            self.solvers[name] = self.solvers.get(name, 0) + 1
            if z3.is_false(t):
                raise core.Infeasible()
        else:
            conf = self.on_sat(label, model, r)
            if r == 'sat' and not conf and abstract(c.pc + [t]):
                r = 'unknown'
            rec[1 if r == 'sat' else 2] += 1
            self.failures.append({'label': label, 'verdict': r, 'solver': name, 'native': conf,
                                  'path_condition': [short(f, 400) for f in c.pc[-12:]],
                                  'negated_goal': short(z3.Not(t), int(os.environ.get('VC_SHORT', '600'))),
                                  'model': short(model, 1500) if model is not None else None})
            if len(self.failures) >= self.max_fail or conf:
                raise Stop()
            if z3.is_false(t):
                raise core.Infeasible()
        c.assume(t)


    def rest(self, t, why):
        """An obligation that the argument rests on: not proved means not decided."""
        n, on_sat = len(self.failures), self.on_sat
        self.on_sat = lambda label, model, verdict: None
        try:
            self.emit(why, t)
        except (Stop, core.Infeasible):
            if len(self.failures) == n:
                raise
        finally:
            self.on_sat = on_sat
        if len(self.failures) > n:
            del self.failures[n:]
            self.obligations.pop(why, None)
            raise Unsupported(f'the argument does not apply: {why}')


ABSTRACT = re.compile(r'(str|text_of|map|squeeze|collapse|strip|re|is)_|.*_(value|text|inf|nan)$|(number_of_digits|tostring|'
                      r'plain_text_of_decimal|utf8_of|bytes_nonempty|truth_of)$')
LOOSE = {'joined', 'text', 'str', 'repr', 'formatted', 'num', 'count'}


def abstract(formulas):
    """Do the formulas speak of functions the verifier knows only in part?  Then a model need not be a counter-example."""
    seen, todo = set(), list(formulas)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and ABSTRACT.match(d.name()):
                return True
            if d.kind() == z3.Z3_OP_UNINTERPRETED and '!' in d.name() and d.name().split('!')[0] in LOOSE:
                return True
            todo.extend(t.children())
    return False


class Stop(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(sig, frame):
    raise Timeout()


def run_native(con, source, seconds=30):
    """One native run. Returns None if it passes, 'rejected', or a description of the failure."""
    g = NatGen(source)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        con.fn(g)
        return None, g
    except Rejected as e:
        g.unmet = e.args[0] if isinstance(e, Unmet) else None
        return 'rejected', g
    except CheckFailed as e:
        return noted({'label': e.label, 'detail': e.detail}, g), g
    except Timeout:
        return {'label': 'terminates', 'detail': f'no result after {seconds} s'}, g
    except Exception as e:
        r = stale(e)
        if r:
            return {'stale': r}, g
        return noted({'label': 'no unexpected exception', 'detail': short(e) + ' at ' + _where(e)}, g), g
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        g.cleanup()


def noted(failure, g):
    """With what the contract noted on the way (documents, code)."""
    notes = [str(x)[:20000] for x in g.root.notes]
    return {**failure, 'notes': notes} if notes else failure


def standin(cls):
    """A class of the specifications that takes the place of something outside soapfish (not a user's subclass)."""
    return cls.__module__.startswith('specs') and not any(c.__module__.startswith('soapfish') for c in cls.__mro__)


def misused_standin(text):
    m = re.match(r"(?:[\w.<>]*<locals>\.)?(\w+)\.\w+\(\) (?:takes|got|missing)", text) or re.match(
        r"'(\w+)' object (?:is not|does not support|has no)", text)
    if not m:
        return False
    todo = [object]
    seen = set()
    while todo:
        for c in type.__subclasses__(todo.pop()):
            if c not in seen:
                seen.add(c)
                if c.__name__ == m.group(1) and standin(c):
                    return True
                todo.append(c)
    return False


def stale(e):
    """The contract calls a private function that the code no longer has in that form: nothing is decided."""
    tb = traceback.extract_tb(e.__traceback__) if isinstance(e, BaseException) and e.__traceback__ else ()
    frame = tb[-1] if tb else None
    n, o = getattr(e, 'name', None), getattr(e, 'obj', None)
    if isinstance(e, AttributeError) and n and o is not None and standin(type(o)):
        return f'the code uses {n}, which the stand-in of the contract does not have'
    if isinstance(e, TypeError) and misused_standin(str(e)):
        return f'the code uses a stand-in of the contract in a way it does not provide: {short(e)}'
    if frame is not None and os.sep + 'specs' + os.sep not in frame.filename:
        return None
    if isinstance(e, AttributeError):
        n = getattr(e, 'name', None)
        o = getattr(e, 'obj', None)
        m = getattr(o, '__name__', '') if isinstance(o, type(sys)) else getattr(o if isinstance(o, type) else type(o), '__module__', '')
        if n and str(m).startswith('soapfish') and (n.startswith('_') or isinstance(o, type(sys))):
            return f'the contract refers to {n}, which the code does not have'
    if isinstance(e, TypeError) and frame is not None and 'argument' in str(e):
        m = re.match(r'([\w.<>]+)\(\)', str(e))
        f = m and m.group(1).split('.')[-1]
        if m and (f.startswith('_') and not f.endswith('__') or callable(getattr(sys.modules.get('soapfish.py2xsd'), f, None))
                  or callable(getattr(sys.modules.get('soapfish.py2wsdl'), f, None))):
            return f'the contract does not call {m.group(1)} as the code declares it'
    return None


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '; '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-4:])


def prove(con, seconds, timeout_ms):
    """Discharge the obligations of a contract over all its paths."""
    from .interp import Interp
    from . import models, xmlmodel  # noqa
    t0 = time.time()
    res = {'contract': con.id, 'status': 'proved', 'reason': None}
    c = Ctx(deadline=t0 + seconds)
    CUR[0] = c
    state = {'sat': 0}

    def on_sat(label, model, verdict):
        if model is None:
            return None
        out, g = run_native(con, ModelSource(model))
        if out in (None, 'rejected') or 'stale' in out:
            return None
        out['draws'] = dumpdraws(g.src.draws)
        return out
    sink = Sink(on_sat, timeout_ms)
    ends = [0, 0]

    def thunk():
        I = Interp()
        g = SymGen(I, sink)
        return I.call(con.fn, [g])

    def on_path(kind, value):
        if kind == 'Raised':
            e = value.exc
            if isinstance(e, (AttributeError, TypeError)) and stale(e):
                raise Unsupported(stale(e))
            nm = type(e).__name__ if isinstance(e, BaseException) else 'exception'
            sink.emit(f'no unexpected exception ({nm}: {short(getattr(e, "args", ""), 120)})', z3.BoolVal(False))
            return
        ends[0] += 1
        if state['sat'] == 0 and ends[0] <= 20:
            r, _, _ = check_formula(c.pc, z3.BoolVal(True), 3000, False)
            if r == 'sat':
                state['sat'] = 1
            elif r == 'unknown':
                ends[1] += 1
    paths = 0
    sys.setrecursionlimit(20000)
    try:
        paths = c.explore(thunk, on_path)
    except Stop:
        pass
    except Unsupported as e:
        res['status'], res['reason'] = 'undecided', f'{type(e).__name__}: {e}'
    except RecursionError:
        res['status'], res['reason'] = 'undecided', 'recursion'
    except Exception as e:
        if os.environ.get('VC_DEBUG'):
            raise
        res['status'], res['reason'] = 'undecided', f'engine: {e!r} at {_where(e)}'
    finally:
        if c.journal:
            c.undo_to(0)
    n = sum(sum(x) for x in sink.obligations.values())
    if sink.failures:
        refuted = [f for f in sink.failures if f['verdict'] == 'sat']
        res['status'] = 'refuted' if refuted else 'undecided'
        if not refuted:
            res['reason'] = 'solver: unknown on ' + ', '.join(sorted({f['label'] for f in sink.failures}))
    elif res['status'] == 'proved':
        if n == 0 or ends[0] == 0:
            res['status'], res['reason'] = 'undecided', 'vacuous: no obligation or no path reaches the end'
        elif not state['sat'] and not ends[1]:
            res['status'], res['reason'] = 'undecided', 'vacuous: contradictory assumptions'
    res.update(paths=paths, ends=ends[0], cover='sat' if state['sat'] else 'unknown',
               obligations=n, discharged=sum(x[0] for x in sink.obligations.values()),
               labels={k: v for k, v in sink.obligations.items()}, solvers=sink.solvers,
               failures=sink.failures, seconds=round(time.time() - t0, 2),
               solver_s=round(core.STATS.solver_s, 2), queries=core.STATS.queries,
               functions=sorted(c.functions), notes=sorted(c.notes))
    return res


def stale_result(con, out):
    return {'contract': con.id, 'runs': 0, 'rejected': 0, 'checks': 0, 'failure': None, 'exhaustive': False, 'seconds': 0,
            'stale': out['stale']}


def literals(con):
    """Constants of the target functions' source, to aim the native runs."""
    out = []
    seen = set()
    for t in con.targets:
        try:
            f = resolve(t)
            f = inspect.unwrap(f) if callable(f) else f
            src = inspect.getsource(f)
            import textwrap
            tree = ast.parse(textwrap.dedent(src))
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float, str)) and not isinstance(n.value, bool):
                if n.value not in seen and len(str(n.value)) < 60:
                    seen.add(n.value)
                    out.append(n.value)
    return out


def resolve(path):
    parts = path.split('.')
    for k in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:k]))
        except ImportError:
            continue
        for p in parts[k:]:
            o = getattr(o, p)
        return o
    raise ImportError(path)


def native(con, runs, seconds, seed, deeper=False):
    """Bounded native check of the contract on generated inputs (deeper: then on lists of one more element, as far as
    time allows)."""
    t0 = time.time()
    lits = literals(con)
    done = rejected = checks = 0
    failure = unmet = None
    complete = False
    if con.exhaustive:
        bound = con.exhaustive if isinstance(con.exhaustive, int) and con.exhaustive is not True else 3
        for n in (bound, bound + 1) if deeper else (bound,):
            ended = True
            for s in Exhaustive(n).runs():
                out, g = run_native(con, s)
                checks += g.checks
                done += 1
                if out == 'rejected':
                    rejected += 1
                    unmet = unmet or g.unmet
                elif out is not None and 'stale' in out:
                    return stale_result(con, out)
                elif out is not None:
                    out['draws'] = dumpdraws(g.src.draws)
                    failure = out
                    ended = False
                    break
                if time.time() - t0 > seconds:
                    ended = False
                    break
            if n == bound:
                complete = ended
            if not ended:
                break
        if failure is not None:
            complete = False
    else:
        for k in range(runs):
            out, g = run_native(con, RandomSource(f'{seed}/{con.id}/{k}', lits))
            checks += g.checks
            done += 1
            if out == 'rejected':
                rejected += 1
                unmet = unmet or g.unmet
            elif out is not None and 'stale' in out:
                return stale_result(con, out)
            elif out is not None:
                out['draws'] = dumpdraws(g.src.draws)
                out['run'] = k
                failure = out
                break
            if time.time() - t0 > seconds:
                break
    if unmet and rejected == done:
        return stale_result(con, {'stale': f'the argument does not apply: {unmet}'})
    return {'contract': con.id, 'runs': done, 'rejected': rejected, 'checks': checks, 'failure': failure,
            'exhaustive': complete, 'seconds': round(time.time() - t0, 2)}
