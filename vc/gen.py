"""The two readings of a contract: symbolic (all inputs) and native (one input).

A contract is a Python function of one argument g.  It builds inputs with g, runs the real code, and states
obligations with g.check.  Under SymGen it is interpreted symbolically together with the real functions; under NatGen
it is executed by CPython."""
import inspect
import decimal
import functools
import json
import math
import random
import sys
import types
from fractions import Fraction

from .core import BOOL, INT, OBJ, REAL, STR, Infeasible, Raised, Unsupported, ctx, z3
from .sym import (Chunk, GID, SBool, SBytes, SInt, SLazy, SNum, SOpaque, SStr, Sym, Thunk, enc, force, is_sym, mkbool,
                  mkint, parts_of, sint, zbool)


def holders(owner, name, old):
    out = [(owner, name)]
    for mn, mod in list(sys.modules.items()):
        if mn.startswith('soapfish.') and mod is not owner:
            out += [(mod, k) for k, v in list(vars(mod).items()) if v is old]
    return out


def _isfn(a):
    return isinstance(a, (types.FunctionType, types.MethodType, functools.partial)) or type(a).__name__ == 'VFunc'


# =============================================================================================== symbolic
class AnyFunction:
    """A function about which only the kind of its results is known; idx: the element of a list it belongs to."""
    SORTS = {'obj': OBJ, 'bool': BOOL, 'str': STR, 'int': INT}

    def __init__(self, full, idx, ret):
        self.full, self.idx, self.ret = full, tuple(idx), ret

    def _vc_at(self, t):
        return AnyFunction(self.full, [t(i) for i in self.idx], self.ret)

    def __call__(self, I, args, kwargs):
        ts = [enc(a) for a in args] + [enc(v) for _, v in sorted(kwargs.items())]
        f = z3.Function(f'{self.full}/{len(ts)}', *([INT] * len(self.idx)), *([OBJ] * len(ts)), self.SORTS[self.ret])
        t = f(*self.idx, *ts)
        return {'obj': lambda: SOpaque(t, object, self.full + '()'), 'bool': lambda: SBool(t),
                'str': lambda: SStr.atom(t), 'int': lambda: SInt(t)}[self.ret]()


class AnyField:
    """What the fields of an object about which nothing is known hold."""

    def __init__(self, kind, f, idx, special, name):
        self.kind, self.f, self.idx, self.special, self.name = kind, f, tuple(idx), special, name

    def _vc_at(self, t):
        return AnyField(self.kind, self.f, [t(i) for i in self.idx], self.special, self.name)

    def __call__(self, I, o, nm):
        t = SStr(parts_of(force(nm))).z3()
        v = SOpaque(self.f(*self.idx, t), object, self.name)
        if not self.special:
            return v
        return force(SLazy([(self.kind(*self.idx, t) == n, x) for n, x in enumerate(self.special)] + [(None, v)]))


class SymGen:
    _vc_native = True
    symbolic = True

    def __init__(self, I, sink, prefix='', idx=(), root=None):
        self.I, self.sink, self.prefix, self.idx = I, sink, prefix, tuple(idx)
        self.root = root or self

    def _k(self, name, sort):
        full = self.prefix + name
        if self.idx:
            return z3.Function(full, *([INT] * len(self.idx)), sort)(*self.idx)
        return z3.Const(full, sort)

    def int(self, name, lo=None, hi=None):
        t = self._k(name, INT)
        if lo is not None:
            ctx().assume(t >= sint(force(lo)))
        if hi is not None:
            ctx().assume(t <= sint(force(hi)))
        return SInt(t)

    def bool(self, name):
        return SBool(self._k(name, BOOL))

    def str(self, name, nochars='', nonempty=False):
        t = self._k(name, STR)
        for ch in nochars:
            ctx().assume(z3.Not(z3.Contains(t, z3.StringVal(ch))))
        if nonempty:
            ctx().assume(z3.Length(t) > 0)
        return SStr.atom(t, nochars)

    def name(self, name):
        """A non-empty text no other element of the same list has."""
        t = self._k(name, STR)
        ctx().assume(z3.Length(t) > 0)
        if self.idx:
            inv = z3.Function(self.prefix + name + '#inv', *([INT] * (len(self.idx) - 1)), STR, INT)
            ctx().assume(inv(*self.idx[:-1], t) == self.idx[-1])
        return SStr.atom(t)

    def uri(self, name):
        return self.str(name, '{}', nonempty=True)

    def xmltext(self, name, nonempty=False):
        return self.str(name, nonempty=nonempty)

    def havoc(self, obj, name, fields, special=()):
        """Give obj an arbitrary value in every field (an object with attribute _name): one of the special ones or another."""
        kind = z3.Function(self.prefix + name + '#kind', *([INT] * len(self.idx)), STR, INT)
        f = z3.Function(self.prefix + name, *([INT] * len(self.idx)), STR, OBJ)
        read = AnyField(kind, f, self.idx, special, name)
        object.__setattr__(obj, '__symread__', read)
        ctx().log(lambda: object.__delattr__(obj, '__symread__'), ('note', obj))
        ctx().notes.add('field names differ from the attributes ComplexType itself uses')

    def _num(self, kind, name, finite):
        c = ctx()
        r = self._k(name, REAL)
        if finite:
            return SNum(kind, r)
        inf, nan = self._k(name + '.inf', INT), self._k(name + '.nan', BOOL)
        c.assume(z3.And(inf >= -1, inf <= 1, z3.Implies(z3.Or(nan, inf != 0), r == 0), z3.Implies(nan, inf == 0)))
        return SNum(kind, r, inf, nan)

    def float(self, name, finite=False):
        return self._num('float', name, finite)

    def decimal(self, name, finite=True):
        return self._num('decimal', name, finite)

    def pattern(self, name):
        t = self._k(name, STR)
        ctx().assume(z3.Length(t) > 0)
        return SStr.atom(t)

    def number(self, name, exponent=True):
        """A number with its plain decimal text: (value, text, whole part, digits of the fraction or None)."""
        from .sym import Atom, IntText
        c = ctx()
        kind = self.pick(name + ' kind', ['int', 'float', 'decimal'])
        if kind == 'int':
            v = self.int(name)
            return v, SStr([IntText(v.t)]), self.I.call(abs, [v]), None
        r = self._k(name + ' value', REAL)
        whole = self._k(name + ' whole', INT)
        c.assume(whole >= 0)
        neg = self.I.truth(self.bool(name + ' negative'))
        parts = (['-'] if neg else []) + [IntText(whole)]
        frac = None
        if kind == 'float' or self.I.truth(self.bool(name + ' has fraction')):
            f = self._k(name + ' fraction', STR)
            frac = SStr([Atom(f, '.-+eE \t\r\n')])
            for ch in '.-+eE ':
                c.assume(z3.Not(z3.Contains(f, z3.StringVal(ch))))
            c.assume(z3.Length(f) > 0)
            parts += ['.'] + frac.parts
        plain = SStr(parts)
        text = plain
        if exponent and self.I.truth(self.bool(name + ' exponent form')):
            text = SStr.atom(self._k(name + ' text', STR), '.- \t\r\n')
        v = SNum(kind, r, text=text)
        v.plain = plain
        c.num_texts[num_key(text)] = v
        return v, plain, SInt(whole), frac

    def opaque(self, name, cls=object, attrs=None, call=None):
        return SOpaque(self._k(name, OBJ), cls, self.prefix + name, dict(attrs or {}), call)

    def bytes(self, name):
        return SBytes(self._k(name, OBJ))

    def pick(self, name, alts):
        c = ctx()
        n = len(alts)
        sel = self._k(name, INT)
        c.assume(z3.And(sel >= 0, sel < n))
        if not self.idx:
            for k, a in enumerate(alts):
                if k == n - 1 or c.decide(sel == k):
                    return self.I.call(a, []) if _isfn(a) else a
        return SLazy([(sel == k, Thunk(lambda a=a: self.I.call(a, [])) if _isfn(a) else a)
                      for k, a in enumerate(alts)], name)

    def opt(self, name, alt):
        return self.pick(name, [None, alt])

    def list(self, name, builder, min=0):
        full = self.prefix + name
        n = self._k(name + '#n', INT)
        ctx().assume(n >= min)

        def entries(j):
            e = SymGen(self.I, self.sink, full + '.', self.idx + (j,), self.root)
            c = ctx()
            since, jm, rm = c.alloc_seq, len(c.journal), len(c.reads)
            v = self.I.call(builder, [e])
            # the elements are there from the start, making one up changes nothing that is there
            del c.reads[rm:]
            for n in range(len(c.journal) - 1, jm - 1, -1):
                undo, eff = c.journal[n]
                if eff[0] in ('setattr', 'setitem', 'append') and c.born(eff[1]) <= since:
                    undo()
                    del c.journal[n]
            if not is_sym(v) and not isinstance(v, (str, int, bool, float, tuple, type(None))):
                GID.set(v, full, j if not self.idx else z3.Function(full + '#id', *[INT] * (len(self.idx) + 1), INT)(*self.idx, j))
            return [v]
        return ctx().register([Chunk(n, entries, None, full, 1)])

    def index(self):
        return SInt(self.idx[-1])

    def fn(self, name, ret='obj'):
        return SOpaque(self._k(name + '#fn', OBJ), types.FunctionType, self.prefix + name, {},
                       AnyFunction(self.prefix + name, self.idx, ret))

    # -- obligations
    def assume(self, cond):
        cond = force(cond)
        c = ctx()
        if isinstance(cond, SBool):
            c.assume(cond.t)
            if not c.feasible(z3.BoolVal(True)):
                raise Infeasible()
        elif not self.I.truth(cond):
            raise Infeasible()

    def check(self, label, cond, detail=''):
        cond = force(cond)
        if isinstance(cond, SBool):
            t = cond.t
        else:
            t = z3.BoolVal(bool(self.I.truth(cond)))
        self.sink.emit(label, t)

    def same(self, label, a, b):
        deep_same(self.I, self.sink, label, a, b)

    def fail(self, label):
        self.sink.emit(label, z3.BoolVal(False))

    def override(self, f, stub):
        self.I.contracts[f] = lambda I, args, kwargs: I.call(stub, *fitting(f, stub, args, kwargs))

    def invariant(self, f, inv):
        """The invariant of the while loop in f (loops.while_rule)."""
        self.I.invariants[f] = inv

    def recursion(self, f, stub):
        """Within a call of f, calls of f are calls of stub: the contract of f itself, assumed for smaller arguments."""
        active = []

        def handler(I, args, kwargs):
            if active:
                return I.call(stub, args, kwargs)
            active.append(1)
            try:
                return I.call_function(f, args, kwargs)
            finally:
                active.pop()
        self.I.contracts[f] = handler

    def empty_dicts(self, f, make):
        """What stands for the empty dictionaries that f makes."""
        self.I.dicts[f] = make

    def arbitrary(self, name):
        """A truth value about which nothing is known, in each iteration of a loop another one."""
        return SBool(ctx().fresh(name, BOOL))

    def needs_same(self, a, b, why):
        deep_same(self.I, Resting(self.sink), why, a, b)

    def needs(self, cond, why):
        """What the argument of this contract rests on: where it does not hold, nothing is decided."""
        cond = force(cond)
        t = cond.t if isinstance(cond, SBool) else z3.BoolVal(bool(self.I.truth(cond)))
        self.sink.rest(t, why)

    def replace(self, owner, name, value):
        """Put value in place of a variable of a module (also where soapfish modules imported it) for this run."""
        old = vars(owner)[name]
        for o, k in holders(owner, name, old):
            self.I.raw_setattr(o, k, value)

    def frame(self, label, f, allowed=()):
        """(True, result) or (False, exception) of f(), which writes to nothing that was there before but what is allowed."""
        c = ctx()
        mark, since = len(c.journal), c.alloc_seq
        try:
            r = True, self.I.call(f, [])
        except Raised as e:
            r = False, e.exc
        for _, e in c.journal[mark:]:
            if e[0] in ('lazy', 'note'):
                continue
            if e[0] == 'global' or not any(e[1] is x for x in allowed) and c.born(e[1]) <= since:
                what = e[1] if isinstance(e[1], (str, type)) else type(e[1]).__name__
                raise Unsupported(f'frame: writes to {what} ({e[0]} {e[2] if e[0] in ("setattr", "setitem") else ""})')
        self.sink.emit(label, z3.BoolVal(True))
        return r

    def note(self, text):
        ctx().notes.add(text)

    def is_identical(self, a, b):
        return self.I.m.same(self.I, a, b)

    def choice(self, name, n):
        return self.pick(name, list(range(n)))

    def texts(self):
        return []


class Resting:
    """Receives obligations an argument rests on."""

    def __init__(self, sink):
        self.sink = sink

    def emit(self, label, t):
        self.sink.rest(t, label)


def deep_same(I, sink, label, a, b):
    a, b = force(a), force(b)
    m = I.m
    if isinstance(a, m.Entries):
        a = a.items
    if isinstance(b, m.Entries):
        b = b.items
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        a, b = norm_entries(a), norm_entries(b)
        if not any(isinstance(x, Chunk) for x in a + b):
            if len(a) != len(b):
                sink.emit(label + ': same length', z3.BoolVal(False))
                return
            for x, y in zip(a, b):
                deep_same(I, sink, label, x, y)
            return
        while a or b:
            if a and b and isinstance(a[0], Chunk) == isinstance(b[0], Chunk):
                x, y = a.pop(0), b.pop(0)
                if isinstance(x, Chunk):
                    if (a or b) and not ctx().entailed(x.n == y.n):
                        raise Unsupported(f'{label}: lists of different shape')
                    chunk_same(I, sink, label, x, y)
                else:
                    deep_same(I, sink, label, x, y)
                continue
            L = a if a and isinstance(a[0], Chunk) else b if b and isinstance(b[0], Chunk) else None
            if L is None:
                sink.emit(label + ': same length', z3.BoolVal(False))
                return
            L[:1] = split_head(L[0])
        return
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            sink.emit(label + ': same keys', z3.BoolVal(False))
            return
        for k in a:
            deep_same(I, sink, label, a[k], b[k])
        return
    if hasattr(type(a), '_vc_same'):
        return a._vc_same(I, sink, label, b)
    if isinstance(a, SNum) and isinstance(b, SNum):
        sink.emit(label, z3.And(a.nan == b.nan, a.inf == b.inf, z3.Or(a.nan, a.inf != 0, a.r == b.r)))
        return
    r = m.eq(I, a, b)
    r = force(r)
    sink.emit(label, r.t if isinstance(r, SBool) else z3.BoolVal(bool(I.truth(r))))


def split_head(x):
    """The first entry of a chunk and the rest."""
    c = ctx()
    if not c.decide(x.n > 0):
        return []
    head = list(x.entries(z3.IntVal(0))) if c.decide(x.guard(z3.IntVal(0))) else []
    return head + [Chunk(z3.simplify(x.n - 1), lambda j: x.entries(z3.simplify(j + 1)),
                         None if x._guard is None else (lambda j: x.guard(z3.simplify(j + 1))), x.name + '+', x.width)]


def norm_entries(L):
    out = []
    c = ctx()
    for e in L:
        if isinstance(e, Chunk):
            if c.entailed(e.n <= 0):
                continue
        out.append(e)
    return out


def chunk_same(I, sink, label, x, y):
    c = ctx()

    def body():
        c.counter += 1
        j = z3.Int(f'j!{c.counter}')
        c.scope.append(j)
        try:
            c.assume(z3.And(j >= 0, j < x.n))
            sink.emit(label + ': same elements selected', x.guard(j) == y.guard(j))
            c.assume(x.guard(j))
            ex, ey = x.entries(j), y.entries(j)
            deep_same(I, sink, label, list(ex), list(ey))
        finally:
            c.scope.pop()
    sink.emit(label + ': same length', z3.Or(x.n == y.n, z3.And(x.n <= 0, y.n <= 0)))
    c.subexplore(body)


def num_key(text):
    return tuple(p if isinstance(p, str) else (type(p).__name__, p.t.get_id()) for p in text.parts)


PATTERNS = ['a', 'a*', 'a+', 'b', 'ab', 'a|ab', 'ab|a', '[a-z]+', '[a-z]*', r'\d+', r'\d*', r'-?\d+', r'1+', r'[-+]?[0-9]+',
            '.', '.*', '.+', 'a b', ' ', ' *', r'\s*', 'abc', r'abc\n', 'x{2,}', '(a|b)*', '1', '0|1', '5', '12',
            '123', r'\d\.\d', r'-?\d+\.\d+', r'\d{1,3}', '[^a]*', 'foo|foobar', 'A', '0', r'[A-Z]{2}', r'a$', r'^a']


URIS = ['urn:a', 'http://example.org/x', 'urn:other', 'a', 'http://www.w3.org/2001/XMLSchema']
NAMES = ['x', 'name', 'Item', 'value', 'a_b', 'id', 'Code', 'n', 'Body', 'text', 'item', 'type', 'ID', '_own', 'a.b-c']


# =============================================================================================== native
class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class Rejected(Exception):
    pass


class Unmet(Rejected):
    """What the argument of a contract rests on does not hold."""


class Opaque:
    """Stands natively for an arbitrary object."""

    def __init__(self, name, attrs=None):
        self.__name = name
        for k, v in (attrs or {}).items():
            if not k.startswith('__'):
                setattr(self, k, v)

    def __repr__(self):
        return f'<opaque {self.__name}>'


class NatGen:
    symbolic = False

    def __init__(self, source, prefix='', idx=(), root=None):
        self.src, self.prefix, self.idx = source, prefix, tuple(idx)
        self.root = root or self
        if root is None:
            self.undo, self.opaques, self.fns, self.checks = [], {}, {}, 0
            self.notes = []

    def _n(self, name):
        return self.prefix + name + ''.join('[%d]' % i for i in self.idx)

    def _key(self, name):
        return (self.prefix + name, self.idx)

    def int(self, name, lo=None, hi=None):
        v = self.src.get('int', self._key(name), (lo, hi))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Rejected()
        return v

    def bool(self, name):
        return self.src.get('bool', self._key(name), None)

    def str(self, name, nochars='', nonempty=False):
        v = self.src.get('str', self._key(name), (nochars, nonempty))
        if any(ch in v for ch in nochars) or nonempty and not v:
            raise Rejected()
        return v

    def name(self, name):
        v = NAMES[self.src.get('pick', self._key(name), len(NAMES))]
        if self.idx and not (self.idx[-1] == 0):
            v += '_%d' % self.idx[-1]
        return v

    def uri(self, name):
        return URIS[self.src.get('pick', self._key(name), len(URIS))]

    def xmltext(self, name, nonempty=False):
        v = self.str(name, nonempty=nonempty)
        if any(ord(c) < 32 and c not in '\t\n' or 0xD800 <= ord(c) < 0xE000 or c in '\ufffe\uffff' for c in v):
            raise Rejected()
        return v

    def havoc(self, obj, name, fields, special=()):
        for k, f in enumerate(fields):
            o = self.root.opaques.setdefault((self._n(name), f._name), Opaque(f'{self._n(name)}({f._name})'))
            n = self.src.get('pick', (f'{self._n(name)}#{f._name}', ()), 2 * len(special) + 1) if special else 0
            object.__setattr__(obj, f._name, special[n] if n < len(special) else o)

    def float(self, name, finite=False):
        v = self.src.get('float', self._key(name), finite)
        if finite and not math.isfinite(v):
            raise Rejected()
        return v

    def decimal(self, name, finite=True):
        v = self.src.get('decimal', self._key(name), finite)
        if finite and not v.is_finite():
            raise Rejected()
        return v

    def pattern(self, name):
        return PATTERNS[self.src.get('pick', self._key(name), len(PATTERNS))]

    def number(self, name, exponent=True):
        kind = self.pick(name + ' kind', ['int', 'float', 'decimal'])
        v = self.int(name) if kind == 'int' else self.float(name + ' value', True) if kind == 'float' \
            else self.decimal(name + ' value', True)
        plain = format(decimal.Decimal(str(v)), 'f')
        if not exponent and plain != str(v):
            raise Rejected()
        whole, _, frac = plain.lstrip('-').partition('.')
        return v, plain, int(whole), frac if '.' in plain else None

    def opaque(self, name, cls=object, attrs=None, call=None):
        k = self.src.get('opaque', self._key(name), cls)
        k = (k, cls)
        if k not in self.root.opaques:
            self.root.opaques[k] = Opaque(self._n(name), attrs) if cls is object else make_opaque(cls, self._n(name), attrs)
        return self.root.opaques[k]

    def bytes(self, name):
        return self.src.get('bytes', self._key(name), None)

    def pick(self, name, alts):
        k = self.src.get('pick', self._key(name), len(alts))
        if not 0 <= k < len(alts):
            raise Rejected()
        a = alts[k]
        return a() if _isfn(a) else a

    def choice(self, name, n):
        return self.pick(name, list(range(n)))

    def opt(self, name, alt):
        return self.pick(name, [None, alt])

    def list(self, name, builder, min=0):
        n = self.src.get('n', self._key(name + '#n'), min)
        if n < min:
            raise Rejected()
        if n > 60:
            raise Rejected()
        full = self.prefix + name
        return [builder(NatGen(self.src, full + '.', self.idx + (j,), self.root)) for j in range(n)]

    def index(self):
        return self.idx[-1]

    def fn(self, name, ret='obj'):
        full = self._n(name)
        fns = self.root.fns

        def f(*args, **kwargs):
            key = (full, tuple(map(_ident, args)), tuple((k, _ident(v)) for k, v in sorted(kwargs.items())))
            if key not in fns:
                kind = {'obj': 'opaque'}.get(ret, ret)
                v = self.src.get(kind, (full + '()' + str(len([1 for q in fns if q[0] == full])), ()),
                                 {'int': (None, None), 'str': ('', False)}.get(ret))
                fns[key] = (Opaque(full + '()') if ret == 'obj' else v, args)
            return fns[key][0]
        f.__name__ = name
        return f

    def assume(self, cond):
        if not cond:
            raise Rejected()

    def check(self, label, cond, detail=''):
        self.root.checks += 1
        if not cond:
            raise CheckFailed(label, detail)

    def same(self, label, a, b):
        self.root.checks += 1
        if not nat_same(a, b):
            raise CheckFailed(label, f'{short(a)} instead of {short(b)}')

    def fail(self, label):
        raise CheckFailed(label)

    def is_identical(self, a, b):
        return a is b

    def frame(self, label, f, allowed=()):
        try:
            return True, f()
        except Exception as e:
            return False, e

    def note(self, text):
        self.root.notes.append(text)

    def override(self, f, stub):
        """Replace function f by stub in every soapfish module and class for the rest of this run."""
        n = 0
        home = (getattr(f, '__module__', None) or '').split('.')[0]
        given = stub

        def stub(*args, **kwargs):
            args, kwargs = fitting(f, given, args, kwargs)
            return given(*args, **kwargs)
        for mn, mod in list(sys.modules.items()):
            if mn.split('.')[0] == home and home != 'soapfish' and home != 'specs' and vars(mod).get(getattr(f, '__name__', '')) is f:
                self._patch(mod, f.__name__, stub, f)
                n += 1
                continue
            if not (mn == 'soapfish' or mn.startswith('soapfish.') or mn.startswith('specs')):
                continue
            for k, v in list(vars(mod).items()):
                if v is f and mn.startswith('soapfish'):
                    self._patch(mod, k, stub, v)
                    n += 1
                if isinstance(v, type) and v.__module__ == mn:
                    for kk, vv in list(v.__dict__.items()):
                        if vv is f:
                            self._patch(v, kk, stub, vv)
                            n += 1
                        elif isinstance(vv, (staticmethod, classmethod)) and vv.__func__ is f:
                            self._patch(v, kk, type(vv)(stub), vv)
                            n += 1
        return n

    def invariant(self, f, inv):
        pass

    def recursion(self, f, stub):
        pass

    def empty_dicts(self, f, make):
        pass

    def needs_same(self, a, b, why):
        self.needs(nat_same(a, b), why)

    def needs(self, cond, why):
        if not cond:
            raise Unmet(why)

    def replace(self, owner, name, value):
        old = vars(owner)[name]
        for o, k in holders(owner, name, old):
            self._patch(o, k, value, old)

    def _patch(self, owner, name, new, old):
        setattr(owner, name, new)
        self.root.undo.append(lambda: setattr(owner, name, old))

    def on_exit(self, f):
        self.root.undo.append(f)

    def cleanup(self):
        for u in reversed(self.root.undo):
            u()
        self.root.undo.clear()


def fitting(f, stub, args, kwargs):
    """Arguments for the stand-in: those of f's parameters that the stand-in does not know of are left out."""
    code = getattr(stub, '__code__', None)
    if code is None or not (getattr(f, '__module__', None) or '').startswith('soapfish'):
        return args, kwargs
    if not code.co_flags & inspect.CO_VARARGS:
        args = args[:code.co_argcount]
    if not code.co_flags & inspect.CO_VARKEYWORDS:
        known = code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]
        kwargs = {k: v for k, v in kwargs.items() if k in known}
    return args, kwargs


def _ident(v):
    if isinstance(v, (str, int, float, bytes, type(None), bool)):
        return (type(v).__name__, v)
    return ('id', id(v))


def make_opaque(cls, name, attrs):
    try:
        c = type('Opaque' + cls.__name__, (cls,), {})
        o = c.__new__(c)
    except TypeError:
        return Opaque(name, attrs)
    for k, v in (attrs or {}).items():
        if not k.startswith('__'):
            object.__setattr__(o, k, v)
    return o


def short(v, n=300):
    try:
        r = repr(v)
        if type(v).__name__ == '_Element':
            from lxml import etree
            r = etree.tostring(v).decode()
    except Exception as e:
        r = f'<{type(v).__name__}: {e!r}>'
    return r if len(r) <= n else r[:n] + '...'


def nat_same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nat_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(nat_same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    try:
        from lxml import etree
        if isinstance(a, etree._Element) and isinstance(b, etree._Element):
            return a is b or tree_same(a, b)
    except ImportError:
        pass
    return a is b or bool(a == b)


def tree_same(a, b):
    def text(e):
        t = e.text or ''
        return '' if len(e) and not t.strip() else t
    return (a.tag == b.tag and text(a) == text(b) and dict(a.attrib) == dict(b.attrib)
            and len(a) == len(b) and all(tree_same(x, y) for x, y in zip(a, b)))


# ----------------------------------------------------------------------------------------------- sources
INTS = [0, 1, -1, 2, 3, 5, 7, 10, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
        2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, -2 ** 63,
        -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, 10 ** 30]
STRS = ['', 'a', 'b', 'ab', 'abc', 'A', '0', '1', '-1', '007', 'true', 'false', 'True', 'None', ' ', ' a ', 'a b',
        'a\nb', '\n', '\t', 'a\t b', 'abc\n', 'é', '漢', '<&>"\'', 'x' * 40, 'a.b', '{x}', 'foo', 'bar', '12', '5.5']
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.25, 10.0, 100.0, 1e10, 1e-7, -1e22, 123.456, float('inf'),
          float('-inf'), float('nan')]
DECIMALS = ['0', '0.0', '1', '-1', '0.5', '-0.5', '1.50', '12.34', '-12.345', '100', '1E+3', '1E-7', '123456789.123',
            '0.10', '99999', '-99.9']


class RandomSource:
    def __init__(self, seed, lits=()):
        self.r = random.Random(seed)
        self.draws = {}
        self.lit_ints = [x for x in lits if isinstance(x, int) and not isinstance(x, bool)]
        self.lit_strs = [x for x in lits if isinstance(x, str)]
        self.lit_floats = [float(x) for x in lits if isinstance(x, (int, float)) and not isinstance(x, bool) and abs(x) < 1e300]
        self.used_ints = []

    def get(self, kind, key, par):
        if (kind, key) in self.draws:
            return self.draws[kind, key]
        v = self.draw(kind, par)
        self.draws[kind, key] = v
        return v

    def draw(self, kind, par):
        r = self.r
        if kind == 'pick':
            return r.randrange(par)
        if kind == 'n':
            return par + r.choice([0, 0, 1, 1, 2, 2, 3, 4])
        if kind == 'bool':
            return r.random() < 0.5
        if kind == 'opaque':
            return len(self.draws) if r.random() < 0.8 else 0
        if kind == 'bytes':
            return r.choice([b'', b'<a/>', b'x'])
        if kind == 'int':
            lo, hi = par
            for _ in range(30):
                p = r.random()
                if p < 0.3 and self.used_ints:
                    v = r.choice(self.used_ints) + r.choice([-1, 0, 0, 1])
                elif p < 0.5 and self.lit_ints:
                    v = r.choice(self.lit_ints) + r.choice([-1, 0, 0, 1])
                elif p < 0.8:
                    v = r.choice(INTS)
                else:
                    v = r.randint(-20, 20)
                if (lo is None or v >= lo) and (hi is None or v <= hi):
                    break
            else:
                v = r.randint(lo if lo is not None else hi - 50, hi if hi is not None else lo + 50)
            self.used_ints.append(v)
            return v
        if kind == 'str':
            nochars, nonempty = par
            for _ in range(30):
                p = r.random()
                if p < 0.25 and self.lit_strs:
                    v = r.choice(self.lit_strs)
                elif p < 0.75:
                    v = r.choice(STRS)
                else:
                    v = ''.join(r.choice('ab01 -.:TZ+x\n') for _ in range(r.randrange(8)))
                if not any(c in v for c in nochars) and (v or not nonempty):
                    return v
            return 'x'
        if kind == 'float':
            for _ in range(30):
                p = r.random()
                v = r.choice(self.lit_floats) if p < 0.3 and self.lit_floats else (
                    r.choice(FLOATS) if p < 0.8 else r.uniform(-1000, 1000))
                if not par or math.isfinite(v):
                    return v
            return 0.0
        if kind == 'decimal':
            p = r.random()
            if p < 0.6:
                return decimal.Decimal(r.choice(DECIMALS))
            return decimal.Decimal(r.randint(-10 ** 6, 10 ** 6)).scaleb(-r.randint(0, 5))
        raise AssertionError(kind)


class ModelSource:
    """Values of the counter-model a solver gave; draws missing from it take default values."""

    def __init__(self, model):
        self.model = model
        self.draws = {}

    def term(self, name, idx, sort):
        if idx:
            return z3.Function(name, *([INT] * len(idx)), sort)(*[z3.IntVal(i) for i in idx])
        return z3.Const(name, sort)

    def ev(self, name, idx, sort):
        return self.model.eval(self.term(name, idx, sort), model_completion=True)

    def get(self, kind, key, par):
        if (kind, key) in self.draws:
            return self.draws[kind, key]
        v = self.value(kind, key, par)
        self.draws[kind, key] = v
        return v

    def value(self, kind, key, par):
        name, idx = key
        if kind in ('int', 'pick', 'n'):
            v = self.ev(name, idx, INT).as_long()
            if kind == 'pick' and not 0 <= v < par:
                v = 0
            if kind == 'n':
                v = max(v, par)
            return v
        if kind == 'bool':
            return z3.is_true(self.ev(name, idx, BOOL))
        if kind == 'str':
            return z3str(self.ev(name, idx, STR))
        if kind in ('float', 'decimal'):
            if z3.is_true(self.ev(name + '.nan', idx, BOOL)):
                return float('nan') if kind == 'float' else decimal.Decimal('NaN')
            i = self.ev(name + '.inf', idx, INT).as_long()
            if i and not par:
                return math.copysign(float('inf'), i) if kind == 'float' else decimal.Decimal('Infinity').copy_sign(i)
            r = self.ev(name, idx, REAL)
            fr = Fraction(r.numerator_as_long(), r.denominator_as_long()) if z3.is_rational_value(r) else Fraction(0)
            return float(fr) if kind == 'float' else decimal.Decimal(fr.numerator) / decimal.Decimal(fr.denominator)
        if kind == 'opaque':
            return str(self.ev(name, idx, OBJ))
        if kind == 'bytes':
            return b'<a/>'
        raise AssertionError(kind)


class DictSource:
    """Values recorded in a replay file."""

    def __init__(self, draws, fallback):
        self.rec = draws
        self.fallback = fallback
        self.draws = {}

    def get(self, kind, key, par):
        k = dkey(kind, key)
        v = loadval(self.rec[k]) if k in self.rec else self.fallback.get(kind, key, par)
        self.draws[kind, key] = v
        return v


def dkey(kind, key):
    return f'{kind} {key[0]}' + ''.join(f'[{i}]' for i in key[1])


def dumpval(v):
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, int):
        return {'int': str(v)}
    if isinstance(v, float):
        return {'float': repr(v)}
    if isinstance(v, decimal.Decimal):
        return {'decimal': str(v)}
    if isinstance(v, bytes):
        return {'bytes': v.decode('latin-1')}
    return str(v)


def loadval(v):
    if isinstance(v, dict):
        (k, x), = v.items()
        return {'int': int, 'float': float, 'decimal': decimal.Decimal, 'bytes': lambda s: s.encode('latin-1')}[k](x)
    return v


def dumpdraws(draws):
    return {dkey(k, key): dumpval(v) for (k, key), v in draws.items()}


def z3str(v):
    s = v.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith('\\u{', i):
            e = s.index('}', i)
            out.append(chr(int(s[i + 3:e], 16)))
            i = e + 1
        else:
            out.append(s[i])
            i += 1
    r = ''.join(out)
    return ''.join(c if not 0xD800 <= ord(c) <= 0xDFFF else '?' for c in r)


class Exhaustive:
    """Enumerates all choices of a contract whose inputs are finite (pick, bool, bounded int, n)."""

    def __init__(self, max_n=3):
        self.stack = []     # [value, size]
        self.max_n = max_n

    def runs(self):
        while True:
            self.pos = 0
            self.draws = {}
            yield self
            del self.stack[self.pos:]
            while self.stack and self.stack[-1][0] + 1 >= self.stack[-1][1]:
                self.stack.pop()
            if not self.stack:
                return
            self.stack[-1][0] += 1

    def get(self, kind, key, par):
        if (kind, key) in self.draws:
            return self.draws[kind, key]
        if kind == 'pick':
            size, off = par, 0
        elif kind == 'bool':
            size, off = 2, 0
        elif kind == 'int' and None not in par:
            size, off = par[1] - par[0] + 1, par[0]
        elif kind == 'n':
            size, off = self.max_n + 1 - par, par
        else:
            size, off = 1, None
        if self.pos == len(self.stack):
            self.stack.append([0, size])
        v = self.stack[self.pos][0]
        self.pos += 1
        if kind == 'bool':
            v = bool(v)
        elif off is None:
            v = {'int': 0, 'str': 'x', 'float': 0.0, 'decimal': decimal.Decimal(0), 'opaque': len(self.draws), 'bytes': b''}[kind]
        else:
            v += off
        self.draws[kind, key] = v
        return v
