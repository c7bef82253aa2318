"""Path exploration context of the verifier: path condition, decisions, journal, solver access."""
import os
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)

import z3  # noqa: E402


class Control(BaseException):
    """Engine control flow; never an exception of the program under verification."""


class Unsupported(Control):
    """The engine cannot follow the code: the obligations of this contract are undecided."""


class EngineLeak(Unsupported):
    """A symbolic value reached native code which would have used it wrongly."""


class Infeasible(Control):
    pass


class Budget(Unsupported):
    pass


class Raised(Control):
    """An exception of the program under verification."""

    def __init__(self, exc):
        self.exc = exc


class BreakEx(Control):
    pass


class ContinueEx(Control):
    pass


class ReturnEx(Control):
    def __init__(self, value):
        self.value = value


class StopSearch(Control):
    def __init__(self, owner, value):
        self.owner = owner
        self.value = value


INT, BOOL, REAL, STR = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()
OBJ = z3.DeclareSort('Obj')
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class DecisionContext:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.work = []
        self.inject = []


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by_solver = {}

    def add(self, solver, dt):
        self.solver_s += dt
        self.queries += 1
        s = self.by_solver.setdefault(solver, [0, 0.0])
        s[0] += 1
        s[1] += dt


STATS = Stats()


def has_quantifier(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
    return False


class Ctx:
    def __init__(self, deadline=None, max_steps=2000000):
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.pc = []
        self.dcs = []
        self.journal = []
        self.scope = []
        self.counter = 0
        self.alloc = {}
        self.symw = {}
        self.alloc_seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.notes = set()      # models used, assumptions
        self.functions = set()  # functions interpreted
        self.on_path_end = None
        self.dead = False
        self.events = []
        self.marks = []         # journal positions at which the enclosing generic loop iterations started
        self.reads = []         # (object, key or None, number of enclosing iterations that wrote it before)
        self.num_texts = {}
        self.subs = []          # substitutions under way: what is assumed meanwhile is about the terms put in
        self.lenhyp = {}        # id of list -> (list, length before the loop, index, entries before the loop)

    # -- bookkeeping
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('too many evaluation steps')
        if self.deadline is not None and (self.steps & 255) == 0 and time.time() > self.deadline:
            raise Budget('time limit of the contract reached')

    def register(self, obj):
        self.alloc_seq += 1
        self.alloc[id(obj)] = (obj, self.alloc_seq)
        return obj

    def born(self, obj):
        e = self.alloc.get(id(obj))
        return e[1] if e is not None and e[0] is obj else 0

    def log(self, undo, effect):
        self.journal.append((undo, effect))

    def read(self, obj, key=None):
        """Note that the body of a loop over a list of symbolic length reads a piece of state."""
        t = 0
        if key is not None:
            lo = len(self.journal)
            for k in range(len(self.marks) - 1, -1, -1):
                if any(e[0] == 'setattr' and e[1] is obj and e[2] == key for _, e in self.journal[self.marks[k]:lo]):
                    t = k + 1
                    break
                lo = self.marks[k]
        self.reads.append((obj, key, t))

    def undo_to(self, mark):
        while len(self.journal) > mark:
            undo, _ = self.journal.pop()
            undo()

    # -- terms
    def fresh(self, name, sort):
        self.counter += 1
        nm = f'{name}!{self.counter}'
        if self.scope:
            f = z3.Function(nm, *([INT] * len(self.scope)), sort)
            return f(*self.scope)
        return z3.Const(nm, sort)

    # -- path condition
    def here(self, f):
        for pairs in reversed(self.subs):
            f = z3.substitute(f, *pairs)
        return f

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        f = z3.simplify(self.here(f))
        if z3.is_true(f):
            return
        self.pc.append(f)
        if not has_quantifier(f):
            self.solver.add(f)
        if z3.is_false(f):
            raise Infeasible()

    def feasible(self, f):
        t = time.time()
        r = self.solver.check(f)
        STATS.add('z3-feasibility', time.time() - t)
        return r != z3.unsat

    def entailed(self, f):
        """Does the quantifier-free part of the path condition imply f (solver verdict unsat needed)?"""
        f = z3.simplify(self.here(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        t = time.time()
        r = self.solver.check(z3.Not(f))
        STATS.add('z3-feasibility', time.time() - t)
        return r == z3.unsat

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(self.here(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        subs, self.subs = self.subs, []
        try:
            return self.decide_here(c)
        finally:
            self.subs = subs

    def decide_here(self, c):
        self.tick()
        dc = self.dcs[-1]
        if dc.inject:
            v = dc.inject.pop(0)
            self.assume(c if v else z3.Not(c))
            return v
        if dc.pos < len(dc.prefix):
            v = dc.prefix[dc.pos]
            dc.pos += 1
            dc.taken.append(v)
            self.assume(c if v else z3.Not(c))
            return v
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        dc.pos += 1
        if t and f:
            dc.work.append(dc.taken + [False])
            v = True
            dc.taken.append(v)
            self.assume(c)
        elif t or f:
            v = t
            dc.taken.append(v)
            self.assume(c if v else z3.Not(c))
        else:
            raise Infeasible()
        return v

    def choose(self, n):
        """Non-deterministic choice of 0..n-1; the chooser adds what it assumes."""
        if n == 1:
            return 0
        if n == 0:
            raise Infeasible()
        dc = self.dcs[-1]
        if dc.inject:
            return dc.inject.pop(0)
        if dc.pos < len(dc.prefix):
            v = dc.prefix[dc.pos]
            dc.pos += 1
            dc.taken.append(v)
            return v
        for k in range(n - 1, 0, -1):
            dc.work.append(dc.taken + [k])
        dc.pos += 1
        dc.taken.append(0)
        return 0

    # -- exploration
    def subexplore(self, thunk, enter=None):
        """Run thunk over all its paths from the present state; the state is restored after each.

        Returns a list of (kind, value, path condition delta, decisions, journal slice)."""
        results = []
        work = [[]]
        while work:
            prefix = work.pop()
            dc = DecisionContext(prefix)
            self.dcs.append(dc)
            self.solver.push()
            pcm, jm, em = len(self.pc), len(self.journal), len(self.events)
            try:
                try:
                    value, kind = thunk(), 'normal'
                except (BreakEx, ContinueEx, ReturnEx, StopSearch, Raised) as e:
                    value, kind = e, type(e).__name__
                    if isinstance(e, ContinueEx):
                        kind = 'normal'
                delta = self.pc[pcm:]
                eff = [x[1] for x in self.journal[jm:]]
                results.append((kind, value, delta, list(dc.taken), eff))
            except Infeasible:
                pass
            finally:
                self.undo_to(jm)
                del self.events[em:]
                del self.pc[pcm:]
                self.solver.pop()
                self.dcs.pop()
            work.extend(dc.work)
        return results

    def explore(self, thunk, on_path):
        """Run thunk over all its paths, calling on_path(kind, value) at the end of each."""
        work = [[]]
        paths = 0
        while work:
            prefix = work.pop()
            dc = DecisionContext(prefix)
            self.dcs.append(dc)
            self.solver.push()
            self.pc, self.scope, self.events = [], [], []
            self.counter = 0
            jm = len(self.journal)
            try:
                try:
                    value, kind = thunk(), 'normal'
                except Raised as e:
                    value, kind = e, 'Raised'
                on_path(kind, value)
                paths += 1
            except Infeasible:
                pass
            finally:
                self.undo_to(jm)
                self.alloc.clear()
                self.solver.pop()
                self.dcs.pop()
            work.extend(dc.work)
        return paths


CUR = [None]


def ctx():
    return CUR[0]


def check_formula(pc, neg, timeout_ms=8000, want_model=True):
    """Decide pc & neg. Returns ('unsat'|'sat'|'unknown', model or None, solver name)."""
    global _cvc5_ok
    for name, setup in (('z3', {}), ('z3-mbqi-off', {'smt.mbqi': False})):
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        for k, v in setup.items():
            try:
                s.set(k, v)
            except z3.Z3Exception:
                pass
        s.add(*pc)
        s.add(neg)
        t = time.time()
        r = s.check()
        STATS.add(name, time.time() - t)
        if r == z3.unsat:
            return 'unsat', None, name
        if r == z3.sat:
            return 'sat', s.model() if want_model else None, name
        if not any(has_quantifier(f) for f in list(pc) + [neg]):
            break
    s = z3.Solver()
    s.add(*pc)
    s.add(neg)
    t = time.time()
    r = cvc5_check(s.to_smt2(), timeout_ms)
    STATS.add('cvc5', time.time() - t)
    return r, None, 'cvc5'


def cvc5_check(smt2, timeout_ms):
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout_ms))
        slv.setOption('strings-exp', 'true')
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'vc')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            if c.getCommandName() in ('set-info', 'set-logic'):
                continue
            out = c.invoke(slv, sm)
            if c.getCommandName() == 'check-sat':
                res = str(out).strip()
        return res if res in ('unsat', 'sat') else 'unknown'
    except BaseException:
        return 'unknown'
