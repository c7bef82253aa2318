"""Symbolic values. Their Python operators raise EngineLeak: only the interpreter may operate on them."""
import datetime as _dt
import decimal as _dec

from .core import (BOOL, INT, OBJ, REAL, STR, EngineLeak, Infeasible, Unsupported, ctx, z3)


def _leak(name):
    def f(self, *a, **k):
        raise EngineLeak(f'native use of a symbolic {type(self).__name__}: {name}')
    return f


class Sym:
    pytype = object
    __hash__ = None

    def __repr__(self):
        return f'<{type(self).__name__}>'


for _n in ('__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __bool__ __len__ __iter__ __contains__ __getitem__ __add__ '
           '__radd__ __sub__ __rsub__ __mul__ __rmul__ __mod__ __rmod__ __floordiv__ __int__ __float__ __index__ '
           '__str__ __format__ __hash__ __neg__ __abs__ __setitem__ __call__').split():
    setattr(Sym, _n, _leak(_n))


class SBool(Sym):
    pytype = bool

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'<SBool {self.t}>'


class SInt(Sym):
    pytype = int

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'<SInt {self.t}>'


class SNum(Sym):
    """A float or decimal.Decimal as an extended real: nan flag, sign of infinity, real value."""

    def __init__(self, kind, r, inf=None, nan=None, text=None):
        self.kind = kind
        self.r = r
        self.inf = z3.IntVal(0) if inf is None else inf
        self.nan = z3.BoolVal(False) if nan is None else nan
        self.text = text
        self.plain = None   # text without exponent, when known

    @property
    def pytype(self):
        return float if self.kind == 'float' else _dec.Decimal


class Digit:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class IntText:
    """The decimal text of an integer."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Atom:
    """An arbitrary text; `nochars` lists characters it is known not to contain."""
    __slots__ = ('t', 'nochars')

    def __init__(self, t, nochars=''):
        self.t = t
        self.nochars = nochars


def code_to_z3(s):
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


class SStr(Sym):
    pytype = str

    def __init__(self, parts, pytype=None):
        ps = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if ps and isinstance(ps[-1], str):
                    ps[-1] += p
                    continue
            ps.append(p)
        self.parts = ps

    def __repr__(self):
        return '<SStr %s>' % '+'.join(repr(p) if isinstance(p, str) else f'{type(p).__name__}({p.t})' for p in self.parts)

    @staticmethod
    def atom(t, nochars=''):
        return SStr([Atom(t, nochars)])

    def z3(self):
        zs = []
        for p in self.parts:
            if isinstance(p, str):
                zs.append(code_to_z3(p))
            elif isinstance(p, Digit):
                zs.append(z3.IntToStr(p.t))
            elif isinstance(p, IntText):
                zs.append(int_text(p.t))
            else:
                zs.append(p.t)
        if not zs:
            return z3.StringVal('')
        return zs[0] if len(zs) == 1 else z3.Concat(*zs)


def int_text(t):
    return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-t)))


def mkstr(parts):
    s = SStr(parts)
    if all(isinstance(p, str) for p in s.parts):
        return s.parts[0] if s.parts else ''
    return s


def parts_of(v):
    if isinstance(v, str):
        return [str.__str__(v)] if v else []
    return v.parts


class SBytes(Sym):
    """Opaque bytes; `tree` is the element tree they serialise, if known."""
    pytype = bytes

    def __init__(self, t, tree=None, text=None):
        self.t = t
        self.tree = tree
        self.text = text


class SOpaque(Sym):
    """An arbitrary object. attrs: name -> value or callable producing it; cls: its (assumed) class."""

    def __init__(self, t, cls=object, name='opaque', attrs=None, call=None, eqkey=True):
        self.t = t
        self.cls = cls
        self.name = name
        self.attrs = attrs or {}
        self.call = call

    @property
    def pytype(self):
        return self.cls


class SLazy(Sym):
    """One of several values; which one is decided on first use. alts: [(condition or None, value or thunk)]."""

    def __init__(self, alts, name='?'):
        self.alts = alts
        self.value = None
        self.done = False
        self.name = name

    def force(self):
        if not self.done:
            c = ctx()
            v = None
            for k, (cond, val) in enumerate(self.alts):
                if k == len(self.alts) - 1:
                    if cond is not None:
                        c.assume(cond)
                    v = val
                    break
                if c.decide(cond):
                    v = val
                    break
            if isinstance(v, Thunk):
                v = v.f()
            if isinstance(v, SLazy):
                v = v.force()
            self.value = v
            self.done = True

            def undo():
                self.done = False
                self.value = None
            c.log(undo, ('lazy', self))
        return self.value


class Thunk:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


def force(v):
    return v.force() if isinstance(v, SLazy) else v


class Poison(Sym):
    """The value a loop over a list of symbolic length leaves in a variable; without a way to find it, using it is not supported."""
    resolve = None

    def __init__(self, name):
        self.name = name


class STimedelta(Sym):
    pytype = _dt.timedelta

    def __init__(self, secs):
        self.secs = secs  # z3 Int


class STimezone(Sym):
    pytype = _dt.timezone

    def __init__(self, secs, name=None):
        self.secs = secs
        self.name = name


class SDate(Sym):
    """datetime.date"""
    pytype = _dt.date
    FIELDS = ('year', 'month', 'day')

    def __init__(self, **f):
        self.f = f


class STime(Sym):
    pytype = _dt.time
    FIELDS = ('hour', 'minute', 'second', 'microsecond', 'tzinfo')

    def __init__(self, **f):
        self.f = f


class SDateTime(Sym):
    pytype = _dt.datetime
    FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')

    def __init__(self, **f):
        self.f = f


class Chunk:
    """A stretch of a list of symbolic length: for j = 0..n-1 (where guard(j)): the entries entries(j)."""

    def __init__(self, n, entries, guard=None, name='c', width=1):
        self.n = n                  # z3 Int
        self._entries = entries     # j term -> list of values / Chunks
        self._guard = guard         # j term -> z3 Bool
        self.name = name
        self.width = width          # entries per index when no entry is a Chunk, else None
        self.cnt = None
        self.peeled = False
        self.reversed = False

    def entries(self, j):
        return self._entries(j)

    def guard(self, j):
        return z3.BoolVal(True) if self._guard is None else self._guard(j)

    @property
    def plain(self):
        return self._guard is None and self.width == 1

    def __repr__(self):
        return f'<Chunk {self.name} n={self.n}>'

    for _n in ('__eq__', '__bool__', '__len__', '__iter__', '__str__', '__lt__'):
        locals()[_n] = _leak(_n)
    __hash__ = object.__hash__
    del _n


def is_sym(v):
    return isinstance(v, (Sym, Chunk))


def sint(v):
    """Concrete int/bool or SInt/SBool -> z3 Int term."""
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    raise Unsupported(f'not an integer: {v!r}')


def mkint(t):
    t = z3.simplify(t)
    return int(t.as_long()) if z3.is_int_value(t) else SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)


def zbool(v):
    """bool / SBool -> z3 Bool"""
    v = force(v)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported(f'not a truth value: {v!r}')


# -- encoding of arbitrary values as terms of sort OBJ (for uninterpreted functions over any value)
_int2obj = z3.Function('obj_of_int', INT, OBJ)
_str2obj = z3.Function('obj_of_str', STR, OBJ)
_real2obj = z3.Function('obj_of_real', REAL, OBJ)
_bool2obj = z3.Function('obj_of_bool', BOOL, OBJ)
_tup = {}
CONST_OBJS = {}


def enc(v):
    v = force(v)
    if isinstance(v, SOpaque):
        return v.t
    if isinstance(v, SBool):
        return _bool2obj(v.t)
    if isinstance(v, bool):
        return _bool2obj(z3.BoolVal(v))
    if isinstance(v, SInt):
        return _int2obj(v.t)
    if isinstance(v, int):
        return _int2obj(z3.IntVal(v))
    if isinstance(v, SStr):
        return _str2obj(v.z3())
    if isinstance(v, str):
        return _str2obj(code_to_z3(v))
    if isinstance(v, SNum):
        return _real2obj(v.r)
    if v is None:
        return z3.Const('obj_None', OBJ)
    g = GID.get(v)
    if g is not None:
        return z3.Function('obj_elem_' + g[0], INT, OBJ)(g[1])
    if isinstance(v, SBytes):
        return v.t
    if isinstance(v, Sym):
        raise Unsupported(f'cannot encode {v!r}')
    if id(v) not in CONST_OBJS:
        CONST_OBJS[id(v)] = (z3.Const(f'obj_const_{len(CONST_OBJS)}', OBJ), v)
    return CONST_OBJS[id(v)][0]


class GID:
    """Identity of objects standing for 'the j-th element of list X'."""
    table = {}

    @classmethod
    def set(cls, obj, name, j):
        cls.table[id(obj)] = (obj, name, j)

    @classmethod
    def get(cls, obj):
        e = cls.table.get(id(obj))
        return (e[1], e[2]) if e is not None and e[0] is obj else None


def infeasible():
    raise Infeasible()
