"""Models of the Python built-ins and libraries for symbolic arguments (the trusted base of the verifier).

Every model either follows the documented behaviour of the real function or raises Unsupported."""
import ast
import builtins
import collections
import copy as _copymod
import datetime as _dt
import decimal as _dec
import enum as _enum
import functools
import hashlib
import inspect
import itertools
import logging
import operator
import re
import types

from . import remodel
from .core import BOOL, INT, OBJ, REAL, STR, Infeasible, Raised, StopSearch, Unsupported, ctx, z3
from .interp import (Entries, GenExp, Interp, MISSING, VFunc, cls_interpretable, deep_has_sym, interpretable)
from .sym import (Atom, Chunk, Digit, GID, IntText, Poison, SBool, SBytes, SDate, SDateTime, SInt, SLazy, SNum, SOpaque,
                  SStr, STime, STimedelta, STimezone, Sym, Thunk, code_to_z3, enc, force, is_sym, mkbool, mkint, mkstr,
                  parts_of, sint, zbool)

FUNCS, CLASSES = {}, {}
STAR_OK = set()
T, F = z3.BoolVal(True), z3.BoolVal(False)


def raise_(exc):
    raise Raised(exc)


def fn(*fs):
    def deco(h):
        for f in fs:
            FUNCS[f] = h
        return h
    return deco


def cl(*cs):
    def deco(h):
        for c in cs:
            CLASSES[c] = h
        return h
    return deco


def fresh_text(name='text'):
    return SStr.atom(ctx().fresh(name, STR))


class SMethod:
    """A method of a symbolic value, bound."""
    def __init__(self, obj, name, f):
        self.obj, self.name, self.f = obj, name, f

    def _vc_call(self, I, args, kwargs):
        return self.f(I, self.obj, args, kwargs)


def imported(v):
    return v


def concretize_shallow(v):
    v = force(v)
    if isinstance(v, Entries):
        if not any(isinstance(x, Chunk) for x in v.items):
            return list(v.items)
    return v


def cut_noread(I, obj, key=None):
    c = ctx()
    if c.marks:
        c.read(obj, key)


# ---------------------------------------------------------------------- types
def py_type(v):
    v = force(v)
    if isinstance(v, SOpaque):
        return v.cls
    if isinstance(v, Sym):
        return v.pytype
    t = getattr(type(v), '_vc_pytype', None)
    return t or type(v)


def isinstance_(I, v, typ):
    v, typ = force(v), force(typ)
    if isinstance(typ, types.UnionType):
        typ = typ.__args__
    if isinstance(typ, tuple):
        return any(isinstance_(I, v, t) for t in typ)
    if not isinstance(typ, type):
        raise Raised(TypeError('isinstance() arg 2 must be a type'))
    if isinstance(v, Poison):
        raise Unsupported('value left by a loop')
    if is_sym(v) or hasattr(type(v), '_vc_pytype'):
        try:
            return issubclass(py_type(v), typ)
        except TypeError as e:
            raise Raised(e) from None
    if isinstance(v, VFunc):
        return issubclass(types.FunctionType, typ)
    if isinstance(v, Entries):
        raise Unsupported('isinstance of an iterator')
    return isinstance(v, typ)


# ---------------------------------------------------------------------- truth
def nonempty(v):
    """Is a list of entries non-empty? z3 formula or bool."""
    conds = []
    for e in v:
        if isinstance(e, Chunk):
            if e.width is None:
                raise Unsupported('emptiness of a nested list of symbolic length')
            if e._guard is None:
                conds.append(e.n > 0)
            else:
                conds.append(None)
        else:
            return True
    if not conds:
        return False
    if None in conds:
        return None
    return z3.Or(*conds)


def some_entry(I, items, pred):
    """Decide whether some entry satisfies pred (evaluated symbolically on the present path)."""
    for e in items:
        if isinstance(e, Chunk):
            tok = object()

            def body(v):
                if I.truth(pred(v)):
                    raise StopSearch(tok, None)
            try:
                I.loop_chunk(e, body, Interp.DUMMY_FRAME(), ())
            except StopSearch as s:
                if s.owner is not tok:
                    raise
                return True
        elif I.truth(pred(e)):
            return True
    return False


def truth(I, v):
    v = force(v)
    c = ctx()
    if v is None:
        return False
    if isinstance(v, SBool):
        return c.decide(v.t)
    if isinstance(v, SInt):
        return c.decide(v.t != 0)
    if isinstance(v, SStr):
        if any(not isinstance(p, Atom) for p in v.parts):
            return True
        return c.decide(z3.Or(*[z3.Length(p.t) > 0 for p in v.parts]))
    if isinstance(v, SNum):
        return c.decide(z3.Or(v.nan, v.inf != 0, v.r != 0))
    if isinstance(v, STimedelta):
        return c.decide(v.secs != 0)
    if isinstance(v, (STimezone, SDate, STime, SDateTime)):
        return True
    if isinstance(v, SBytes):
        if v.tree is not None:
            return True
        return c.decide(z3.Function('bytes_nonempty', OBJ, BOOL)(v.t))
    if isinstance(v, SOpaque):
        if '__bool__' in v.attrs:
            return c.decide(zbool(v.attrs['__bool__']))
        if v.cls is object or not (hasattr(v.cls, '__bool__') or hasattr(v.cls, '__len__')):
            return True
        return c.decide(z3.Function('truth_of', OBJ, BOOL)(v.t))
    if isinstance(v, Poison):
        raise Unsupported(f'value left in {v.name} by a loop of symbolic length')
    if isinstance(v, (list, tuple, collections.deque)):
        cut_noread(I, v, '#len')
        if type(v).__bool__ if hasattr(type(v), '__bool__') else False:
            return I.truth(I.call(I.getattr(v, '__bool__'), []))
        if ctx().lenhyp:
            return I.truth(compare(I, ast.Gt(), length(I, v), 0))
        ne = nonempty(v)
        if ne is None:
            return some_entry(I, list(v), lambda x: True)
        return ne if isinstance(ne, bool) else c.decide(ne)
    if isinstance(v, Entries):
        return True
    if isinstance(v, (dict, set, frozenset)):
        cut_noread(I, v)
        return len(v) > 0
    if hasattr(type(v), '_vc_truth'):
        return v._vc_truth(I)
    if is_sym(v):
        raise Unsupported(f'truth of {v!r}')
    for nm in ('__bool__', '__len__'):
        m = getattr(type(v), nm, None)
        if isinstance(m, (types.FunctionType, VFunc)) and (isinstance(m, VFunc) or interpretable(m)):
            r = I.call(m, [v])
            return I.truth(r)
        if m is not None:
            return bool(v)
    if isinstance(v, (GenExp, VFunc, SMethod)):
        return True
    return bool(v)


# ---------------------------------------------------------------------- strings
def str_len(v):
    n, terms = 0, []
    for p in v.parts:
        if isinstance(p, str):
            n += len(p)
        elif isinstance(p, Digit):
            n += 1
        elif isinstance(p, IntText):
            terms.append(int_text_len(p.t))
        else:
            terms.append(z3.Length(p.t))
    return mkint(z3.IntVal(n) + z3.Sum(terms) if terms else z3.IntVal(n))


_digits = z3.Function('number_of_digits', INT, INT)


def int_text_len(t):
    c = ctx()
    a = z3.If(t >= 0, t, -t)
    c.assume(_digits(a) >= 1)
    return _digits(a) + z3.If(t < 0, z3.IntVal(1), z3.IntVal(0))


def canonical_int(s):
    return bool(re.fullmatch(r'0|-?[1-9][0-9]*', s)) if s.isascii() else False


def str_eq(a, b):
    """a, b: str or SStr. Returns bool or z3 formula."""
    pa, pb = list(parts_of(a)), list(parts_of(b))
    conds = []

    def cells(ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.extend(p)
            else:
                out.append(p)
        return out
    ca, cb = cells(pa), cells(pb)
    # a single integer text against a literal
    for x, y in ((ca, cb), (cb, ca)):
        if len(x) == 1 and isinstance(x[0], IntText) and all(isinstance(q, str) for q in y):
            s = ''.join(y)
            return x[0].t == int(s) if canonical_int(s) else F

    def step(x, y):
        """compare two single cells known to have width one (or identical)"""
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, Digit) and isinstance(y, Digit):
            conds.append(x.t == y.t)
            return True
        if isinstance(x, Digit) and isinstance(y, str):
            if y in '0123456789' and len(y) == 1:
                conds.append(x.t == int(y))
                return True
            return False
        if isinstance(y, Digit):
            return step(y, x)
        return None
    while ca and cb:
        x, y = ca[0], cb[0]
        if isinstance(x, Atom) and isinstance(y, Atom) and x.t.eq(y.t):
            ca.pop(0), cb.pop(0)
            continue
        if isinstance(x, IntText) and isinstance(y, IntText) and (x.t.eq(y.t) or (len(ca) == 1 and len(cb) == 1)):
            conds.append(x.t == y.t)
            ca.pop(0), cb.pop(0)
            continue
        r = step(x, y)
        if r is None:
            break
        if not r:
            return F
        ca.pop(0), cb.pop(0)
    while ca and cb:
        x, y = ca[-1], cb[-1]
        if isinstance(x, Atom) and isinstance(y, Atom) and x.t.eq(y.t):
            ca.pop(), cb.pop()
            continue
        if isinstance(x, IntText) and isinstance(y, IntText) and x.t.eq(y.t):
            ca.pop(), cb.pop()
            continue
        r = step(x, y)
        if r is None:
            break
        if not r:
            return F
        ca.pop(), cb.pop()
    if ca or cb:
        def rest_nonempty(cs):
            return any(not isinstance(x, Atom) for x in cs)
        if not ca or not cb:
            o = ca or cb
            if rest_nonempty(o):
                return F
            conds.append(z3.And(*[x.t == z3.StringVal('') for x in o]))
        else:
            # characters one side surely lacks
            for x, y in ((ca, cb), (cb, ca)):
                if all(isinstance(q, Atom) for q in x):
                    nc = set(x[0].nochars)
                    for q in x[1:]:
                        nc &= set(q.nochars)
                    if any(isinstance(q, str) and q in nc for q in y):
                        return F
            conds.append(SStr(ca).z3() == SStr(cb).z3())
    return z3.And(*conds) if conds else T


def char_in(ch, v):
    """Is the single character ch in the text? z3 formula"""
    out = []
    for p in v.parts:
        if isinstance(p, str):
            if ch in p:
                return T
        elif isinstance(p, Digit):
            if ch in '0123456789':
                out.append(p.t == int(ch))
        elif isinstance(p, IntText):
            if ch == '-':
                out.append(p.t < 0)
            elif ch in '0123456789':
                out.append(z3.Contains(SStr([p]).z3(), z3.StringVal(ch)))
        elif ch not in p.nochars:
            out.append(z3.Contains(p.t, code_to_z3(ch)))
    return z3.Or(*out) if out else F


def str_contains(hay, needle):
    if isinstance(needle, str) and isinstance(hay, str):
        return mkbool(needle in hay)
    if isinstance(needle, str):
        if needle == '':
            return True
        if len(needle) == 1:
            return mkbool(char_in(needle, hay))
    h = SStr(parts_of(hay))
    n = SStr(parts_of(needle))
    return mkbool(z3.Contains(h.z3(), n.z3()))


def explode(v):
    """Split literals into characters."""
    out = []
    for p in parts_of(v):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def part_lacks(p, chars):
    """Does the part surely contain none of chars?"""
    if isinstance(p, str):
        return not any(ch in p for ch in chars)
    if isinstance(p, Digit):
        return not any(ch in '0123456789' for ch in chars)
    if isinstance(p, IntText):
        return not any(ch in '-0123456789' for ch in chars)
    return all(ch in p.nochars for ch in chars)


def uf_text(name, *terms, nochars=''):
    f = z3.Function(name, *[t.sort() for t in terms], STR)
    return SStr.atom(f(*terms), nochars)


STR = STR
STRM = {}


def strm(name):
    def deco(f):
        STRM[name] = f
        return f
    return deco


def to_parts(v):
    v = force(v)
    if isinstance(v, (str, SStr)):
        return v
    raise Raised(TypeError('expected str'))


@strm('startswith')
def _startswith(I, s, a, k):
    p = force(a[0])
    if isinstance(p, tuple):
        return any(I.truth(_startswith(I, s, [x], k)) for x in p)
    cs = explode(s)
    if isinstance(p, str):
        conds = []
        for ch in p:
            if not cs:
                return False
            x = cs[0]
            if isinstance(x, str):
                if x != ch:
                    return False
            elif isinstance(x, Digit):
                if ch not in '0123456789':
                    return False
                conds.append(x.t == int(ch))
            elif isinstance(x, Atom) and ch in x.nochars and len(cs) == 1:
                return False
            else:
                break
            cs.pop(0)
        else:
            return mkbool(z3.And(*conds)) if conds else True
        return mkbool(z3.PrefixOf(code_to_z3(p), SStr(parts_of(s)).z3()))
    return mkbool(z3.PrefixOf(SStr(parts_of(p)).z3(), SStr(parts_of(s)).z3()))


@strm('endswith')
def _endswith(I, s, a, k):
    p = force(a[0])
    if isinstance(p, tuple):
        return any(I.truth(_endswith(I, s, [x], k)) for x in p)
    cs = explode(s)
    if isinstance(p, str):
        conds = []
        for ch in reversed(p):
            if not cs:
                return False
            x = cs[-1]
            if isinstance(x, str):
                if x != ch:
                    return False
            elif isinstance(x, Digit):
                if ch not in '0123456789':
                    return False
                conds.append(x.t == int(ch))
            elif isinstance(x, Atom) and ch in x.nochars and len(cs) == 1:
                return False
            else:
                break
            cs.pop()
        else:
            return mkbool(z3.And(*conds)) if conds else True
    return mkbool(z3.SuffixOf(SStr(parts_of(p)).z3(), SStr(parts_of(s)).z3()))


@strm('split')
def _split(I, s, a, k):
    sep = force(a[0]) if a else force(k.get('sep'))
    maxsplit = force(a[1]) if len(a) > 1 else force(k.get('maxsplit', -1))
    if not isinstance(sep, str) or len(sep) != 1 or not isinstance(maxsplit, int):
        raise Unsupported('split')
    out, cur, n = [], [], 0
    c = ctx()
    ps = explode(s)
    for idx, p in enumerate(ps):
        if isinstance(p, str) and p == sep and (maxsplit < 0 or n < maxsplit):
            out.append(mkstr(cur))
            cur = []
            n += 1
        elif isinstance(p, str) or part_lacks(p, sep) or (0 <= maxsplit <= n):
            cur.append(p)
        elif isinstance(p, Atom):
            if not c.decide(z3.Contains(p.t, code_to_z3(sep))):
                cur.append(Atom(p.t, p.nochars + sep))
                continue
            if maxsplit == 1:
                i = z3.IndexOf(p.t, code_to_z3(sep), 0)
                head = Atom(z3.SubString(p.t, 0, i), p.nochars + sep)
                tail = Atom(z3.SubString(p.t, i + 1, z3.Length(p.t) - i - 1), p.nochars)
                out.append(mkstr(cur + [head]))
                cur = [tail]
                n += 1
                continue
            if maxsplit >= 0:
                raise Unsupported('split')
            # unknown number of pieces: first, middle pieces, last
            first = c.fresh('first', STR)
            last = c.fresh('last', STR)
            mid = c.fresh('mid', STR)
            m = c.fresh('pieces', INT)
            sp = code_to_z3(sep)
            c.assume(z3.And(z3.Not(z3.Contains(first, sp)), z3.Not(z3.Contains(last, sp)), m >= 0,
                            p.t == z3.If(m == 0, z3.Concat(first, sp, last), z3.Concat(first, sp, mid, sp, last))))
            nm = f'piece!{c.counter}'
            c.counter += 1
            pf = z3.Function(nm, INT, STR)
            out.append(mkstr(cur + [Atom(first, p.nochars + sep)]))
            out.append(Chunk(m, lambda j, pf=pf, p=p: [SStr.atom(pf(j), p.nochars + sep)], None, nm))
            cur = [Atom(last, p.nochars + sep)]
        else:
            raise Unsupported('split')
    out.append(mkstr(cur))
    return c.register(out)


@strm('rsplit')
def _rsplit(I, s, a, k):
    sep = force(a[0]) if a else None
    maxsplit = force(a[1]) if len(a) > 1 else force(k.get('maxsplit', -1))
    if not isinstance(sep, str) or len(sep) != 1:
        raise Unsupported('rsplit')
    if maxsplit == -1:
        return _split(I, s, [sep], {})
    if maxsplit != 1:
        raise Unsupported('rsplit')
    c = ctx()
    ps = explode(s)
    for idx in range(len(ps) - 1, -1, -1):
        p = ps[idx]
        if isinstance(p, str) and p == sep:
            return c.register([mkstr(ps[:idx]), mkstr(ps[idx + 1:])])
        if isinstance(p, str) or part_lacks(p, sep):
            continue
        if not isinstance(p, Atom):
            raise Unsupported('rsplit')
        if not c.decide(z3.Contains(p.t, code_to_z3(sep))):
            ps[idx] = Atom(p.t, p.nochars + sep)
            continue
        pre, last = c.fresh('pre', STR), c.fresh('last', STR)
        c.assume(z3.And(p.t == z3.Concat(pre, code_to_z3(sep), last), z3.Not(z3.Contains(last, code_to_z3(sep)))))
        return c.register([mkstr(ps[:idx] + [Atom(pre, p.nochars)]), mkstr([Atom(last, p.nochars + sep)] + ps[idx + 1:])])
    return c.register([mkstr(ps)])


@strm('partition')
def _partition(I, s, a, k):
    r = _split(I, s, [a[0], 1], {})
    return (r[0], a[0], r[1]) if len(r) == 2 else (r[0], '', '')


@strm('rpartition')
def _rpartition(I, s, a, k):
    r = _rsplit(I, s, [a[0], 1], {})
    return (r[0], a[0], r[1]) if len(r) == 2 else ('', '', r[0])


@strm('replace')
def _replace(I, s, a, k):
    old, new = force(a[0]), force(a[1])
    if len(a) > 2 or not isinstance(old, str) or not isinstance(new, str) or len(old) != 1:
        raise Unsupported('replace')
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(p.replace(old, new))
        elif part_lacks(p, old):
            out.append(p)
        elif isinstance(p, Atom):
            out.append(remodel.char_map_atom(p, {old: new}))
        else:
            raise Unsupported('replace')
    return mkstr(out)


def _strip(side):
    def f(I, s, a, k):
        chars = force(a[0]) if a else None
        if chars is None:
            chars = ' \t\n\r\x0b\x0c'
        if not isinstance(chars, str):
            raise Unsupported('strip')
        ps = explode(s)
        c = ctx()

        def trim(ps, end):
            while ps:
                p = ps[end]
                if isinstance(p, str):
                    if p in chars:
                        ps.pop(end)
                        continue
                    return ps
                if isinstance(p, Digit):
                    hit = [int(ch) for ch in chars if ch in '0123456789']
                    if hit and c.decide(z3.Or(*[p.t == h for h in hit])):
                        ps.pop(end)
                        continue
                    return ps
                if isinstance(p, IntText):
                    if any(ch in chars for ch in '0123456789'):
                        raise Unsupported('strip of digits')
                    if '-' in chars and end == 0:
                        ps[0] = IntText(z3.simplify(z3.If(p.t >= 0, p.t, -p.t)))
                    return ps
                return None
            return ps
        for end in ((0, -1) if side == 'both' else ((0,) if side == 'l' else (-1,))):
            r = trim(ps, end)
            if r is None:
                if len(ps) == 1 or all(not isinstance(x, str) or x not in chars for x in ps):
                    key = ''.join(sorted(set(chars)))
                    p = ps[0 if end == 0 else -1]
                    if len(ps) == 1 and isinstance(p, Atom):
                        cm = remodel.strip_atom(p, key, side)
                        return SStr([cm])
                t = SStr(ps).z3()
                return uf_text(f'strip_{side}_{key_of(chars)}', t)
        return mkstr(ps)
    return f


def key_of(chars):
    return ''.join('%x.' % ord(ch) for ch in sorted(set(chars)))


STRM['strip'], STRM['lstrip'], STRM['rstrip'] = _strip('both'), _strip('l'), _strip('r')


def _uf_method(name):
    def f(I, s, a, k):
        if a or k:
            raise Unsupported(f'str.{name} with arguments')
        out = []
        for p in parts_of(s):
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif isinstance(p, (Digit, IntText)):
                out.append(p)
            else:
                out.append(Atom(z3.Function('str_' + name, STR, STR)(p.t)))
        if len(parts_of(s)) > 1 and name in ('capitalize', 'title', 'casefold'):
            raise Unsupported(name)
        return mkstr(out)
    return f


for _n in ('lower', 'upper', 'capitalize', 'casefold'):
    STRM[_n] = _uf_method(_n)


def _pred_method(name):
    def f(I, s, a, k):
        if name in ('isdigit', 'isdecimal', 'isnumeric'):
            if all(isinstance(p, Digit) or (isinstance(p, str) and p.isdigit()) for p in parts_of(s)):
                return bool(parts_of(s))
            if len(parts_of(s)) == 1 and isinstance(parts_of(s)[0], IntText):
                return mkbool(parts_of(s)[0].t >= 0)
            if any(isinstance(p, str) and not getattr(p, name)() for p in parts_of(s)):
                return False
        return mkbool(z3.Function('str_' + name, STR, BOOL)(SStr(parts_of(s)).z3()))
    return f


for _n in ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isspace', 'isidentifier', 'isalnum', 'isascii'):
    STRM[_n] = _pred_method(_n)


@strm('encode')
def _encode(I, s, a, k):
    z = SStr(parts_of(s)).z3()
    return SBytes(z3.Function('utf8_of', STR, OBJ)(z), text=s)


@strm('join')
def _join(I, s, a, k):
    out = []
    es = iter_entries(I, force(a[0])) if not isinstance(force(a[0]), GenExp) else gen_list(I, force(a[0]))
    if any(isinstance(e, Chunk) for e in es):
        return fresh_text('joined')
    for n, e in enumerate(es):
        if n:
            out.extend(parts_of(s))
        e = force(e)
        if not isinstance(e, (str, SStr)):
            raise Raised(TypeError('sequence item: expected str instance'))
        out.extend(parts_of(e))
    return mkstr(out)


@strm('format')
def _format(I, s, a, k):
    if not isinstance(s, str):
        return fresh_text()
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return fresh_text()
        out.extend(parts_of(format_value(I, v, ord(conv) if conv else -1, spec or '')))
    return mkstr(out)


@strm('find')
def _find(I, s, a, k):
    if len(a) != 1:
        raise Unsupported('find')
    return mkint(z3.IndexOf(SStr(parts_of(s)).z3(), SStr(parts_of(force(a[0]))).z3(), 0))


@strm('index')
def _index(I, s, a, k):
    if not I.truth(str_contains(s, force(a[0]))):
        raise Raised(ValueError('substring not found'))
    return _find(I, s, a, k)


@strm('count')
def _count(I, s, a, k):
    ch = force(a[0])
    if not isinstance(ch, str) or len(ch) != 1:
        raise Unsupported('count')
    n = 0
    for p in parts_of(s):
        if isinstance(p, str):
            n += p.count(ch)
        elif not part_lacks(p, ch):
            if isinstance(p, Atom):
                raise Unsupported('count')
            raise Unsupported('count')
    return n


@strm('removeprefix')
def _removeprefix(I, s, a, k):
    p = force(a[0])
    if not I.truth(_startswith(I, s, [p], {})):
        return s
    ps = explode(s)
    if isinstance(p, str) and all(not isinstance(x, (Atom, IntText)) for x in ps[:len(p)]):
        return mkstr(ps[len(p):])
    z = SStr(parts_of(s)).z3()
    pz = SStr(parts_of(p)).z3()
    return SStr.atom(z3.SubString(z, z3.Length(pz), z3.Length(z) - z3.Length(pz)))


@strm('removesuffix')
def _removesuffix(I, s, a, k):
    p = force(a[0])
    if not I.truth(_endswith(I, s, [p], {})):
        return s
    ps = explode(s)
    if isinstance(p, str) and all(not isinstance(x, (Atom, IntText)) for x in ps[len(ps) - len(p):]):
        return mkstr(ps[:len(ps) - len(p)])
    z = SStr(parts_of(s)).z3()
    pz = SStr(parts_of(p)).z3()
    return SStr.atom(z3.SubString(z, 0, z3.Length(z) - z3.Length(pz)))


@strm('zfill')
def _zfill(I, s, a, k):
    w = force(a[0])
    ps = explode(s)
    if not isinstance(w, int):
        raise Unsupported('zfill')
    if len(ps) == 1 and isinstance(ps[0], IntText):
        return format_int(ps[0].t, w, '0')
    if all(isinstance(p, (str, Digit)) for p in ps):
        return mkstr(['0'] * max(0, w - len(ps)) + ps)
    raise Unsupported('zfill')


@strm('translate')
def _translate(I, s, a, k):
    tab = force(a[0])
    if not isinstance(tab, dict):
        raise Unsupported('translate')
    m = {}
    for x, y in tab.items():
        x = chr(x) if isinstance(x, int) else x
        y = chr(y) if isinstance(y, int) else ('' if y is None else y)
        m[x] = y
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(p.translate(tab))
        elif part_lacks(p, ''.join(m)):
            out.append(p)
        elif isinstance(p, Atom):
            out.append(remodel.char_map_atom(p, m))
        else:
            raise Unsupported('translate')
    return mkstr(out)


for _n in ('splitlines', 'swapcase', 'title', 'center', 'ljust', 'rjust', 'expandtabs', 'rfind', 'rindex', 'format_map'):
    def _uns(I, s, a, k, _n=_n):
        raise Unsupported(f'str.{_n}')
    STRM.setdefault(_n, _uns)


# ---------------------------------------------------------------------- text of values
_dectext = z3.Function('text_of_float', REAL, INT, BOOL, STR)
_dectext2 = z3.Function('text_of_decimal', REAL, INT, BOOL, OBJ, STR)


def num_text(v):
    if v.text is not None:
        return v.text
    return SStr.atom(z3.Function('text_of_' + v.kind, REAL, INT, BOOL, STR)(v.r, v.inf, v.nan),
                     ' \t\n\r')


def to_str(I, v):
    v = force(v)
    if isinstance(v, str) and not isinstance(v, _enum.Enum):
        return v
    if isinstance(v, SStr):
        return v
    if isinstance(v, SInt):
        return SStr([IntText(v.t)])
    if isinstance(v, SBool):
        return SLazyText(v)
    if isinstance(v, SNum):
        return num_text(v)
    if isinstance(v, SOpaque):
        if '__str__' in v.attrs:
            x = v.attrs['__str__']
            return x
        return uf_text('str_of', v.t)
    if isinstance(v, SDate):
        return strftime(I, v, '%Y-%m-%d')
    if is_sym(v):
        return fresh_text('str')
    m = getattr(type(v), '__str__', None)
    if isinstance(m, types.FunctionType) and interpretable(m):
        return I.call(m, [v])
    if isinstance(m, VFunc):
        return I.call(m, [v])
    if isinstance(v, BaseException) and len(v.args) == 1 and not isinstance(m, types.FunctionType):
        return to_str(I, v.args[0])
    if deep_has_sym(v) or isinstance(v, BaseException) and deep_has_sym(v.args):
        return fresh_text('str')
    try:
        return str(v)
    except Exception as e:
        raise Raised(e) from None


def SLazyText(b):
    return 'True' if ctx().decide(b.t) else 'False'


def to_repr(I, v):
    v = force(v)
    if isinstance(v, SInt):
        return SStr([IntText(v.t)])
    if isinstance(v, SNum) and v.kind == 'float':
        return num_text(v)
    if is_sym(v) or deep_has_sym(v):
        return fresh_text('repr')
    m = getattr(type(v), '__repr__', None)
    if isinstance(m, types.FunctionType) and interpretable(m):
        return I.call(m, [v])
    try:
        return repr(v)
    except Exception:
        return fresh_text('repr')


def digit_parts(t, w):
    out = []
    for k in range(w - 1, -1, -1):
        q = t / (10 ** k) if k else t
        d = z3.simplify(q % 10)
        if z3.is_int_value(d):
            out.append(str(d.as_long()))
        else:
            out.append(Digit(d))
    return out


def format_int(t, w, fill):
    c = ctx()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return format(v, f'{fill}{w}d' if w else 'd')
    if w and fill == '0':
        if c.decide(z3.And(t >= 0, t < 10 ** w)):
            return mkstr(digit_parts(t, w))
        if not c.decide(t >= 0):
            raise Unsupported('zero padding of a negative number')
        return SStr([IntText(t)])
    if w:
        raise Unsupported('padding')
    return SStr([IntText(t)])


def format_value(I, v, conv, spec):
    v = force(v)
    spec = force(spec)
    if conv == ord('r'):
        return to_repr(I, v)
    if conv in (ord('s'), ord('a')) and not spec:
        return to_str(I, v)
    if spec == '':
        if isinstance(v, _enum.Enum) and isinstance(v, str):
            return format(v, '') if type(v).__format__ is not str.__format__ else str(v)
        return to_str(I, v)
    if isinstance(spec, str):
        if isinstance(v, (SInt,)):
            m = re.fullmatch(r'(0?)(\d*)d?', spec)
            if m:
                return format_int(v.t, int(m.group(2) or 0), m.group(1) or ' ')
            m = re.fullmatch(r'0>(\d+)d?', spec)
            if m:
                return format_int(v.t, int(m.group(1)), '0')
        elif isinstance(v, SStr):
            if spec == 's':
                return v
            m = re.fullmatch(r'0>(\d+)s?', spec)
            if m:
                return _zfill(I, v, [int(m.group(1))], {})
        elif isinstance(v, SNum) and v.kind == 'decimal' and spec == 'f' and v.plain is not None:
            return v.plain
        elif isinstance(v, SNum) and v.kind == 'decimal' and spec == 'f':
            return SStr.atom(z3.Function('plain_text_of_decimal', STR, STR)(SStr(parts_of(num_text(v))).z3()), ' \t\n\r')
        elif isinstance(v, (SDate, STime, SDateTime)):
            return strftime(I, v, spec)
        elif not is_sym(v):
            m = getattr(type(v), '__format__', None)
            if not deep_has_sym(v):
                try:
                    return format(v, spec)
                except Exception as e:
                    raise Raised(e) from None
    return fresh_text('formatted')


def mod_format(I, s, args):
    args = force(args)
    if not isinstance(s, str):
        return fresh_text('formatted')
    out, pos = [], 0
    vals = list(args) if isinstance(args, tuple) else [args]
    for m in re.finditer(r'%(?:\((\w+)\))?([0-9]*)(?:\.[0-9]+)?([sdrif%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        key, w, k = m.groups()
        if k == '%':
            out.append('%')
            continue
        if key is not None:
            if not isinstance(args, dict):
                raise Raised(TypeError('format requires a mapping'))
            v = getitem(I, args, key)
        else:
            if not vals:
                raise Raised(TypeError('not enough arguments for format string'))
            v = force(vals.pop(0))
        if k == 's':
            out.extend(parts_of(to_str(I, v)))
        elif k == 'r':
            out.extend(parts_of(to_repr(I, v)))
        elif k in 'di' and isinstance(v, (SInt, int)):
            out.extend(parts_of(format_int(sint(v), int(w or 0), '0' if w.startswith('0') else ' ')))
        elif k in 'di' and not isinstance(v, (SNum, float, SBool, _dec.Decimal)):
            if isinstance(v, SOpaque):
                out.extend(parts_of(fresh_text()))
            else:
                raise Raised(TypeError('%d format: a number is required'))
        else:
            out.extend(parts_of(fresh_text('num')))
    out.append(s[pos:])
    return mkstr(out)


# ---------------------------------------------------------------------- numbers
def num_of(v):
    """int/float/Decimal/sym -> SNum"""
    v = force(v)
    if isinstance(v, SNum):
        return v
    if isinstance(v, (SInt, SBool)) or isinstance(v, int):
        return SNum('int', z3.ToReal(sint(v)))
    if isinstance(v, float):
        if v != v:
            return SNum('float', z3.RealVal(0), nan=T)
        if v in (float('inf'), float('-inf')):
            return SNum('float', z3.RealVal(0), inf=z3.IntVal(1 if v > 0 else -1))
        n, d = v.as_integer_ratio()
        return SNum('float', z3.Q(n, d))
    if isinstance(v, _dec.Decimal):
        if v.is_nan():
            return SNum('decimal', z3.RealVal(0), nan=T)
        if v.is_infinite():
            return SNum('decimal', z3.RealVal(0), inf=z3.IntVal(1 if v > 0 else -1))
        n, d = v.as_integer_ratio()
        return SNum('decimal', z3.Q(n, d))
    return None


def is_number(v):
    return isinstance(v, (SInt, SBool, SNum, int, float, _dec.Decimal))


def num_lt(a, b, strict=True):
    r = a.r < b.r if strict else a.r <= b.r
    fin = z3.And(a.inf == 0, b.inf == 0, r)
    inf = a.inf < b.inf
    eqinf = F if strict else z3.And(a.inf == b.inf, a.inf != 0)
    return z3.And(z3.Not(a.nan), z3.Not(b.nan), z3.Or(fin, inf, eqinf))


def num_eq(a, b):
    return z3.And(z3.Not(a.nan), z3.Not(b.nan), a.inf == b.inf, z3.Or(a.inf != 0, a.r == b.r))


def numcmp(op, a, b):
    if not isinstance(a, (SNum, float, _dec.Decimal)) and not isinstance(b, (SNum, float, _dec.Decimal)):
        x, y = sint(a), sint(b)
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y, 'Eq': x == y}[op]
    x, y = num_of(a), num_of(b)
    if op == 'Eq':
        return num_eq(x, y)
    if op == 'Lt':
        return num_lt(x, y)
    if op == 'LtE':
        return num_lt(x, y, False)
    if op == 'Gt':
        return num_lt(y, x)
    return num_lt(y, x, False)


OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
       ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
DUNDER = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'), ast.Mult: ('__mul__', '__rmul__'),
          ast.Mod: ('__mod__', '__rmod__'), ast.BitOr: ('__or__', '__ror__'), ast.BitAnd: ('__and__', '__rand__')}


def binop(I, op, a, b, inplace=False):
    a, b = force(a), force(b)
    k = type(op)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('value left by a loop')
    if k is ast.Mod and isinstance(a, (str, SStr)):
        if isinstance(a, str) and not deep_has_sym(b):
            try:
                return a % b
            except Exception as e:
                raise Raised(e) from None
        return mod_format(I, a, b)
    sa, sb = is_sym(a), is_sym(b)
    if k is ast.Add:
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return mkstr(list(parts_of(a)) + list(parts_of(b)))
        if isinstance(a, (list, tuple)) and type(a) is type(b) or isinstance(a, list) and isinstance(b, list):
            cut_noread(I, a), cut_noread(I, b)
            r = list(a) + list(b)
            return tuple(r) if isinstance(a, tuple) else ctx().register(r)
        if isinstance(a, SBytes) or isinstance(b, SBytes):
            raise Unsupported('bytes concatenation')
    if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)) and (sa or sb):
        x, y = sint(a), sint(b)
        if k is ast.Add:
            return mkint(x + y)
        if k is ast.Sub:
            return mkint(x - y)
        if k is ast.Mult:
            return mkint(x * y)
        if k in (ast.FloorDiv, ast.Mod):
            if isinstance(b, int) and not isinstance(b, bool) and b > 0:
                return mkint(x / y if k is ast.FloorDiv else x % y)
            raise Unsupported('division by a symbolic or negative number')
        if k in (ast.BitAnd, ast.BitOr) and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return mkbool((z3.And if k is ast.BitAnd else z3.Or)(zbool(a), zbool(b)))
        raise Unsupported(f'{k.__name__} of symbolic integers')
    if isinstance(a, (STimedelta, _dt.timedelta)) or isinstance(b, (STimedelta, _dt.timedelta)):
        if sa or sb:
            return td_binop(k, a, b)
    if isinstance(a, SNum) or isinstance(b, SNum):
        if is_number(a) and is_number(b):
            x, y = num_of(a), num_of(b)
            c = ctx()
            if c.entailed(z3.And(x.inf == 0, y.inf == 0, z3.Not(x.nan), z3.Not(y.nan))):
                kind = 'decimal' if 'decimal' in (x.kind, y.kind) else 'float'
                raise Unsupported(f'{kind} arithmetic')
        raise Unsupported('float arithmetic')
    if isinstance(a, SETS) or isinstance(b, SETS) or type(a).__name__ in ('dict_keys',):
        if isinstance(a, MSet) or isinstance(b, MSet):
            if isinstance(a, SETS) and isinstance(b, SETS) and k in SETOPS:
                return set_op(I, SETOPS[k], a, b)
        elif not deep_has_sym(a) and not deep_has_sym(b):
            try:
                return ctx().register(OPS[k](a, b))
            except Exception as e:
                raise Raised(e) from None
        raise Unsupported('set operation on symbolic elements')
    if k is ast.Mult and isinstance(a, (int, SInt, SBool)) and isinstance(b, (str, SStr, list, tuple)):
        a, b, sa, sb = b, a, sb, sa
    if k is ast.Mult and isinstance(a, (list, tuple, str)) and isinstance(b, int) and not sa:
        return a * b if isinstance(a, str) else ctx().register(a * b)
    if k is ast.Mult and isinstance(a, (list, tuple, str, SStr)) and isinstance(b, (int, SInt, SBool)):
        if isinstance(a, SStr) and isinstance(b, int):
            return mkstr(list(parts_of(a)) * b)
        raise Unsupported('repetition of a symbolic number of times')
    if sa or sb or isinstance(a, VFunc) or isinstance(b, VFunc):
        # TypeError for clearly wrong combinations, else unknown
        if isinstance(a, (SStr, str)) or isinstance(b, (SStr, str)) or a is None or b is None:
            raise Raised(TypeError('unsupported operand types'))
        raise Unsupported(f'{k.__name__} of {a!r} and {b!r}')
    for x, y, nm in ((a, b, 0), (b, a, 1)):
        if k in DUNDER:
            m = getattr(type(x), DUNDER[k][nm], None)
            if isinstance(m, (types.FunctionType, VFunc)):
                r = I.call(m, [x, y])
                if r is not NotImplemented:
                    return r
    if deep_has_sym(a) or deep_has_sym(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            raise Raised(TypeError('can only concatenate'))
        raise Unsupported(f'{k.__name__} of containers with symbolic content')
    try:
        return OPS[k](a, b)
    except Exception as e:
        raise Raised(e) from None


def unop(I, op, a):
    a = force(a)
    if isinstance(op, ast.USub):
        if isinstance(a, (SInt, SBool)):
            return mkint(-sint(a))
        if isinstance(a, STimedelta):
            return STimedelta(-a.secs)
        if isinstance(a, SNum):
            return SNum(a.kind, -a.r, -a.inf, a.nan)
    if isinstance(op, ast.UAdd) and isinstance(a, (SInt, SNum)):
        return a
    if is_sym(a):
        raise Unsupported('unary operator')
    try:
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)](a)
    except Exception as e:
        raise Raised(e) from None


def eq(I, a, b):
    """Python equality -> bool or SBool"""
    a, b = force(a), force(b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('value left by a loop')
    if a is b and not isinstance(a, SNum):
        return True
    sa, sb = is_sym(a), is_sym(b)
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, SOpaque) or not is_sym(o):
            m = getattr(type(o), '__eq__', None)
            if not is_sym(o) and isinstance(m, (types.FunctionType, VFunc)) and (isinstance(m, VFunc) or interpretable(m)):
                return I.call(m, [o, None])
        return False
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and not isinstance(x, type):
            m = getattr(type(x), '__eq__', None)
            if isinstance(m, (types.FunctionType, VFunc)) and (isinstance(m, VFunc) or interpretable(m)):
                r = I.call(m, [x, y])
                if r is not NotImplemented:
                    return r
    if is_number(a) and is_number(b):
        if not sa and not sb:
            return a == b
        return mkbool(numcmp('Eq', a, b))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if not sa and not sb:
            return a == b
        return mkbool(str_eq(a, b))
    if isinstance(a, (STimedelta, _dt.timedelta)) and isinstance(b, (STimedelta, _dt.timedelta)) and (sa or sb):
        return mkbool(td_secs(a) == td_secs(b))
    if isinstance(a, (STimezone, _dt.timezone)) and isinstance(b, (STimezone, _dt.timezone)) and (sa or sb):
        return mkbool(tz_secs(a) == tz_secs(b))
    if isinstance(a, (SDate, STime, SDateTime)) or isinstance(b, (SDate, STime, SDateTime)):
        return dt_eq(I, a, b)
    if isinstance(a, SOpaque) or isinstance(b, SOpaque):
        if isinstance(a, SOpaque) and isinstance(b, SOpaque):
            return mkbool(a.t == b.t)
        o, v = (a, b) if isinstance(a, SOpaque) else (b, a)
        if o.attrs.get('__plain__'):
            return False
        if not isinstance(v, Sym) and not isinstance(v, (str, int, float)):
            return False
        if o.cls in (object,):
            return False
        return mkbool(enc(o) == enc(v))
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        if isinstance(a, SBytes) and isinstance(b, SBytes):
            if a.t.eq(b.t):
                return True
            if a.tree is None and b.tree is None:
                return mkbool(a.t == b.t)
            raise Unsupported('comparison of rendered documents')
        o = b if isinstance(a, SBytes) else a
        if not isinstance(o, bytes):
            return False
        raise Unsupported('comparison of bytes')
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        cut_noread(I, a), cut_noread(I, b)
        if any(isinstance(x, Chunk) for x in a) or any(isinstance(x, Chunk) for x in b):
            raise Unsupported('comparison of lists of symbolic length')
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not I.truth(eq(I, x, y)):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if deep_has_sym(a) or deep_has_sym(b):
            if a.keys() != b.keys():
                return False
            return all(I.truth(eq(I, a[k], b[k])) for k in a)
    if isinstance(a, (set, frozenset)) and (deep_has_sym(a) or deep_has_sym(b)):
        raise Unsupported('set comparison')
    if sa or sb:
        return False
    if GID.get(a) is not None and GID.get(b) is not None:
        return same(I, a, b)
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a.__func__ is b.__func__ and same(I, a.__self__, b.__self__)
    try:
        return bool(a == b)
    except Exception as e:
        if type(e).__module__.startswith('vc'):
            raise
        raise Raised(e) from None


def same(I, a, b):
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('value left by a loop')
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return mkbool(a.t == b.t)
    if isinstance(a, SBool) and isinstance(b, bool):
        return mkbool(a.t if b else z3.Not(a.t))
    if isinstance(b, SBool) and isinstance(a, bool):
        return same(I, b, a)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return mkbool(a.t == b.t)
    ga, gb = GID.get(a), GID.get(b)
    if ga is not None and gb is not None:
        return mkbool(ga[1] == gb[1]) if ga[0] == gb[0] else False
    if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b) and not isinstance(a, (SOpaque,)):
        if isinstance(a, SBytes):
            return mkbool(a.t == b.t)
        raise Unsupported('identity of symbolic values')
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return False
    return False


def contains(I, item, cont):
    item, cont = force(item), force(cont)
    if isinstance(cont, (str, SStr)):
        if not isinstance(item, (str, SStr)):
            raise Raised(TypeError("'in <string>' requires string as left operand"))
        return str_contains(cont, item)
    if isinstance(cont, SOpaque):
        if '__contains__' in cont.attrs:
            return I.call(cont.attrs['__contains__'], [item])
        raise Unsupported('membership in an opaque object')
    if isinstance(cont, SBytes):
        raise Unsupported('membership in bytes')
    if isinstance(cont, Sym):
        raise Raised(TypeError(f'argument of type {cont.pytype.__name__!r} is not iterable'))
    if isinstance(cont, dict) or type(cont).__name__ in ('dict_keys', 'mappingproxy'):
        cut_noread(I, cont)
        keys = list(cont)
        if not is_sym(item) and not deep_has_sym(keys):
            try:
                return item in cont
            except Exception as e:
                raise Raised(e) from None
        return any_eq(I, item, keys)
    if hasattr(type(cont), '_vc_contains'):
        return cont._vc_contains(I, item)
    if isinstance(cont, (list, tuple, set, frozenset, collections.deque, Entries)):
        cut_noread(I, cont)
        items = list(cont.items if isinstance(cont, Entries) else cont)
        return any_eq(I, item, items)
    if isinstance(cont, GenExp):
        return any_eq(I, item, gen_list(I, cont))
    m = getattr(type(cont), '__contains__', None)
    if isinstance(m, (types.FunctionType, VFunc)):
        return I.call(m, [cont, item])
    if deep_has_sym(item) or deep_has_sym(cont):
        raise Unsupported(f'membership in {type(cont).__name__}')
    try:
        return item in cont
    except Exception as e:
        raise Raised(e) from None


def any_eq(I, item, items):
    if any(isinstance(x, Chunk) for x in items):
        return some_entry(I, items, lambda x: is_or_eq(I, item, x))
    conds = []
    for x in items:
        r = is_or_eq(I, item, x)
        if isinstance(r, SBool):
            conds.append(r.t)
        elif I.truth(r):
            return True
    return mkbool(z3.Or(*conds)) if conds else False


def is_or_eq(I, a, b):
    if force(a) is force(b):
        return True
    return eq(I, a, b)


def compare(I, op, a, b):
    k = type(op).__name__
    a, b = force(a), force(b)
    if k == 'Is':
        return same(I, a, b)
    if k == 'IsNot':
        return neg(same(I, a, b))
    if k == 'In':
        return contains(I, a, b)
    if k == 'NotIn':
        return neg(contains(I, a, b))
    if k == 'Eq':
        return eq(I, a, b)
    if k == 'NotEq':
        for x, y in ((a, b), (b, a)):
            m = getattr(type(x), '__ne__', None)
            if not is_sym(x) and isinstance(m, types.FunctionType) and interpretable(m):
                return I.call(m, [x, y])
        return neg(eq(I, a, b), I)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('value left by a loop')
    if is_number(a) and is_number(b):
        if is_sym(a) or is_sym(b):
            return mkbool(numcmp(k, a, b))
    elif isinstance(a, (STimedelta, _dt.timedelta)) and isinstance(b, (STimedelta, _dt.timedelta)) and (is_sym(a) or is_sym(b)):
        return mkbool(numcmp(k, mkint(td_secs(a)), mkint(td_secs(b)))) if True else None
    elif isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and (is_sym(a) or is_sym(b)):
        x, y = SStr(parts_of(a)).z3(), SStr(parts_of(b)).z3()
        return mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[k])
    elif is_sym(a) or is_sym(b):
        if isinstance(a, (SDate, STime, SDateTime)) and isinstance(b, type(a)):
            raise Unsupported('ordering of dates')
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            for x in (a, b):
                if isinstance(x, SOpaque) and not x.attrs.get('__plain__') and x.cls is not object:
                    raise Unsupported('ordering of opaque values')
        raise Raised(TypeError(f"'{k}' not supported between these types"))
    nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[k]
    m = getattr(type(a), nm, None)
    if isinstance(m, types.FunctionType) and interpretable(m):
        r = I.call(m, [a, b])
        if r is not NotImplemented:
            return r
    if deep_has_sym(a) or deep_has_sym(b):
        raise Unsupported('ordering of containers')
    try:
        return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[k](a, b)
    except Exception as e:
        raise Raised(e) from None


def neg(v, I=None):
    v = force(v)
    if isinstance(v, SBool):
        return mkbool(z3.Not(v.t))
    if isinstance(v, bool):
        return not v
    return not I.truth(v)


# ---------------------------------------------------------------------- containers
def list_append(I, L, v):
    nm = len(L)
    list.append(L, v) if isinstance(L, list) else L.append(v)

    def undo():
        if isinstance(L, list):
            list.__delitem__(L, slice(nm, None))
        else:
            L.pop()
    ctx().log(undo, ('append', L, v))


def list_extend(I, L, it):
    it = force(it)
    if isinstance(it, GenExp):
        I.for_each(it, lambda v: list_append(I, L, v), Interp.DUMMY_FRAME(), ())
        return
    for e in list(iter_entries(I, it)):
        list_append(I, L, e)


def list_restore(L, old):
    if isinstance(L, list):
        list.__setitem__(L, slice(None), old)
    else:
        L.clear()
        L.extend(old)


def list_change(I, L, f, what='mutate'):
    old = list(L)
    f()
    ctx().log(lambda: list_restore(L, old), (what, L))


def gen_list(I, g):
    g = force(g)
    if isinstance(g, GenExp):
        out = ctx().register([])
        I.for_each(g, lambda v: list_append(I, out, v), Interp.DUMMY_FRAME(), ())
        return out
    return list(iter_entries(I, g))


def iter_entries(I, it):
    it = force(it)
    if isinstance(it, (list, tuple, collections.deque)):
        cut_noread(I, it)
        if type(it) not in (list, tuple, collections.deque):
            m = getattr(type(it), '__iter__', None)
            if isinstance(m, types.FunctionType):
                return iter_entries(I, I.call(m, [it]))
        return list(it)
    if isinstance(it, Entries):
        r = it.items
        if getattr(it, 'once', False):
            it.items = []
        return r
    if isinstance(it, GenExp):
        return gen_list(I, it)
    if isinstance(it, (SStr,)):
        out = []
        for p in it.parts:
            if isinstance(p, str):
                out.extend(p)
            elif isinstance(p, Digit):
                out.append(SStr([p]))
            else:
                raise Unsupported('iteration over a symbolic text')
        return out
    if isinstance(it, SOpaque):
        if '__iter__' in it.attrs:
            v = it.attrs['__iter__']
            return list(v)
        if it.cls is object:
            raise Raised(TypeError('object is not iterable'))
        raise Unsupported(f'iteration over opaque {it.name}')
    if it is None or isinstance(it, (SInt, SBool, SNum, int, float)):
        raise Raised(TypeError('object is not iterable'))
    if isinstance(it, Sym):
        raise Unsupported(f'iteration over {it!r}')
    if hasattr(type(it), '_vc_iter'):
        return list(it._vc_iter(I))
    if hasattr(type(it), '_vc_model'):
        raise Unsupported(f'iteration over {type(it).__name__}')
    if isinstance(it, dict):
        cut_noread(I, it)
        return list(it)
    m = getattr(type(it), '__iter__', None)
    if isinstance(m, (types.FunctionType, VFunc)) and not isinstance(it, type):
        return iter_entries(I, I.call(m, [it]))
    try:
        out = []
        for n, x in enumerate(it):
            if n > 5000:
                raise Unsupported('iteration over a very long iterable')
            out.append(x)
        return out
    except Unsupported:
        raise
    except Exception as e:
        raise Raised(e) from None


def unpack(I, v, n, starred):
    es = iter_entries(I, v)
    if any(isinstance(e, Chunk) for e in es):
        raise Unsupported('unpacking of a list of symbolic length')
    if not starred and len(es) != n:
        raise Raised(ValueError('too many values to unpack' if len(es) > n else 'not enough values to unpack'))
    return es


def make_set(I, items):
    items = list(items)
    if any(is_sym(x) for x in items):
        return ctx().register(MSet(items))
    try:
        return ctx().register(set(items))
    except TypeError as e:
        raise Raised(e) from None


def set_op(I, what, a, b):
    """Intersection, difference or union of sets of which one has symbolic members."""
    a, b = [x.items if isinstance(x, MSet) else gen_list(I, x) for x in (a, b)]
    if what == 'union':
        return ctx().register(MSet(list(a) + list(b)))
    out = ctx().register([])

    def body(v):
        if I.truth(any_eq(I, v, b)) == (what == 'intersection'):
            list_append(I, out, v)
    I.for_each(Entries(list(a)), body, Interp.DUMMY_FRAME(), ())
    return ctx().register(MSet(out))


class MSet:
    """A set with symbolic members: membership, iteration, intersection, difference and union only."""
    _vc_model = True
    _vc_pytype = set

    def __init__(self, items):
        self.items = items

    def _vc_contains(self, I, x):
        cut_noread(I, self)
        return any_eq(I, x, self.items)

    def _vc_truth(self, I):
        return truth(I, self.items)

    def _vc_getattr(self, I, name):
        if name == 'add':
            return SMethod(self, name, lambda I, s, a, k: list_append(I, s.items, a[0]))
        if name in ('union', 'intersection', 'difference'):
            return SMethod(self, name, lambda I, s, a, k: functools.reduce(lambda x, y: set_op(I, name, x, y), [force(x) for x in a], s))
        if name == 'isdisjoint':
            return SMethod(self, name, lambda I, s, a, k: not I.truth(set_op(I, 'intersection', s, force(a[0]))))
        if name == 'issubset':
            return SMethod(self, name, lambda I, s, a, k: not I.truth(set_op(I, 'difference', s, force(a[0]))))
        raise Unsupported(f'set.{name} with symbolic members')


SETS = (set, frozenset, MSet)
SETOPS = {ast.BitAnd: 'intersection', ast.Sub: 'difference', ast.BitOr: 'union'}


def list_len(L):
    n = z3.IntVal(0)
    for e in L:
        if isinstance(e, Chunk):
            if e._guard is not None or e.width is None:
                return None
            n = n + e.n * e.width
        else:
            n = n + 1
    return n


def length(I, v):
    v = force(v)
    if isinstance(v, SStr):
        return str_len(v)
    if isinstance(v, (list, tuple, collections.deque)):
        h = ctx().lenhyp.get(id(v))
        if h is not None and h[0] is v:
            n = list_len(list(v)[h[3]:])
            if n is not None:
                return mkint(h[1] + h[2] + n)
        cut_noread(I, v, '#len')
        n = list_len(v)
        if n is None:
            return filtered_len(v)
        return mkint(n)
    if isinstance(v, MSet):
        raise Unsupported('size of a set with symbolic members')
    if isinstance(v, Sym):
        if isinstance(v, SOpaque) and '__len__' in v.attrs:
            return v.attrs['__len__']
        if isinstance(v, (SInt, SBool, SNum)):
            raise Raised(TypeError('object has no len()'))
        raise Unsupported('len')
    if hasattr(type(v), '_vc_len'):
        return v._vc_len(I)
    if hasattr(type(v), '_vc_model'):
        raise Unsupported(f'len of {type(v).__name__}')
    if isinstance(v, dict):
        cut_noread(I, v)
    m = getattr(type(v), '__len__', None)
    if isinstance(m, (types.FunctionType, VFunc)):
        return I.call(m, [v])
    try:
        return len(v)
    except Exception as e:
        raise Raised(e) from None


def filtered_len(v):
    c = ctx()
    total = z3.IntVal(0)
    for e in v:
        if isinstance(e, Chunk):
            if e.width is None:
                raise Unsupported('len of a nested list')
            if e._guard is None:
                total = total + e.n * e.width
            else:
                if e.cnt is None:
                    e.cnt = c.fresh('count', INT)
                c.assume(z3.And(e.cnt >= 0, z3.Or(e.cnt <= e.n, e.n < 0)))
                k = z3.Int('k!cnt')
                total = total + e.cnt * e.width
        else:
            total = total + 1
    return mkint(total)


def getitem(I, o, k):
    o, k = force(o), force(k)
    c = ctx()
    if isinstance(o, Poison):
        raise Unsupported('value left by a loop')
    if isinstance(o, (list, tuple)):
        cut_noread(I, o)
        if isinstance(k, slice):
            return list_slice(I, o, k)
        if not isinstance(k, (int, SInt)):
            raise Raised(TypeError('list indices must be integers'))
        return list_index(I, o, k)
    if isinstance(o, (SStr,)) or isinstance(o, str) and is_sym(k):
        return str_index(I, o, k)
    if isinstance(o, dict):
        cut_noread(I, o)
        if is_sym(k) or any(is_sym(x) for x in o):
            return dict_lookup(I, o, k, None, True)
        m = getattr(type(o), '__getitem__', None)
        if isinstance(m, types.FunctionType) and interpretable(m):
            return I.call(m, [o, k])
        if k not in o:
            if isinstance(o, collections.defaultdict):
                setitem(I, o, k, I.call(o.default_factory, []))
                return o[k]
            raise Raised(KeyError(k))
        return force(dict.__getitem__(o, k))
    if isinstance(o, SOpaque):
        if '__getitem__' in o.attrs:
            return I.call(o.attrs['__getitem__'], [k])
        raise Unsupported('indexing an opaque object')
    if hasattr(type(o), '_vc_getitem'):
        return o._vc_getitem(I, k)
    if isinstance(o, (SBytes,)):
        raise Unsupported('indexing bytes')
    if isinstance(o, Sym) or o is None:
        raise Raised(TypeError('object is not subscriptable'))
    m = getattr(type(o), '__getitem__', None)
    if isinstance(m, (types.FunctionType, VFunc)) and not isinstance(o, type):
        return I.call(m, [o, k])
    if deep_has_sym(k):
        raise Unsupported(f'indexing {type(o).__name__} with a symbolic key')
    try:
        return o[k]
    except Exception as e:
        raise Raised(e) from None


def dict_lookup(I, o, k, default, must):
    for kk in list(o):
        if I.truth(is_or_eq(I, k, kk)):
            return force(o[kk]) if kk in o else None
    if must:
        raise Raised(KeyError(k if not is_sym(k) else 'key'))
    return default


def list_index(I, o, k):
    c = ctx()
    items = list(o)
    if isinstance(k, int) and not any(isinstance(e, Chunk) for e in items):
        try:
            return force(items[k])
        except IndexError as e:
            raise Raised(e) from None
    if isinstance(k, int) and k >= 0:
        head = items[:k + 1]
        if len(head) == k + 1 and not any(isinstance(e, Chunk) for e in head):
            return force(items[k])
    if isinstance(k, int) and k < 0:
        tail = items[k:]
        if len(tail) == -k and not any(isinstance(e, Chunk) for e in tail):
            return force(items[k])
    total = list_len(items)
    if total is None:
        if isinstance(k, int) and k in (0, -1):
            return end_of_list(items, k)
        raise Unsupported('index into a filtered list')
    kt = sint(k)
    if isinstance(k, int) and k < 0:
        kt = total + k
    elif isinstance(k, SInt) and not c.entailed(kt >= 0):
        if not c.decide(kt >= 0):
            kt = kt + total
    if not c.decide(z3.And(kt >= 0, kt < total)):
        raise Raised(IndexError('list index out of range'))
    pos = z3.IntVal(0)
    for n, e in enumerate(items):
        if isinstance(e, Chunk):
            w = e.n * e.width
            last = n == len(items) - 1
            if last or c.decide(kt < pos + w):
                if last:
                    c.assume(kt < pos + w)
                if e.width == 1:
                    return force(e.entries(z3.simplify(kt - pos))[0])
                j = z3.simplify((kt - pos) / e.width)
                r = (kt - pos) % e.width
                es = e.entries(j)
                for q in range(e.width):
                    if q == e.width - 1 or c.decide(r == q):
                        return force(es[q])
            pos = pos + w
        else:
            if c.decide(kt == pos):
                return force(e)
            pos = pos + 1
    raise Infeasible()


def end_of_list(items, k):
    """The first (k = 0) or last (k = -1) item of a list with filtered parts."""
    c = ctx()
    for e in items if k == 0 else reversed(items):
        if not isinstance(e, Chunk):
            return force(e)
        if e.width is None:
            raise Unsupported('index into a nested list')
        if e._guard is None:
            if c.decide(e.n > 0):
                return force(e.entries(z3.IntVal(0) if k == 0 else z3.simplify(e.n - 1))[k])
            continue
        kk = z3.Int(f'k!{c.counter}')
        c.counter += 1
        if c.choose(2) == 0:
            m = c.fresh('end', INT)
            c.assume(z3.And(m >= 0, m < e.n, e.guard(m)))
            beyond = z3.And(kk >= 0, kk < m) if k == 0 else z3.And(kk > m, kk < e.n)
            c.assume(z3.ForAll([kk], z3.Implies(beyond, z3.Not(e.guard(kk)))))
            return force(e.entries(m)[k])
        c.assume(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < e.n), z3.Not(e.guard(kk)))))
    raise Raised(IndexError('list index out of range'))


def list_slice(I, o, k):
    if isinstance(o, tuple):
        mk = tuple
    else:
        mk = lambda x: ctx().register(list(x))
    items = list(o)
    if not any(isinstance(e, Chunk) for e in items):
        if any(is_sym(x) for x in (k.start, k.stop, k.step)):
            raise Unsupported('symbolic slice')
        return mk(items[k])
    if k.step is not None:
        if k.step == -1 and k.start is None and k.stop is None:
            return mk(reverse_entries(items))
        raise Unsupported('slice')
    if k.start is None and k.stop is None:
        return mk(items)
    if k.stop is None and isinstance(k.start, int) and k.start >= 0:
        if not any(isinstance(e, Chunk) for e in items[:k.start]):
            return mk(items[k.start:])
    c = ctx()
    total = list_len(items)
    if total is None:
        raise Unsupported('slice of a filtered list')
    start, stop = force(k.start), force(k.stop)
    if isinstance(start, (int, type(None))) and isinstance(stop, int) and 0 <= (start or 0) and 0 <= stop <= (start or 0) + 3:
        out = []
        for i in range(start or 0, stop):
            if not c.decide(z3.IntVal(i) < total):
                break
            out.append(list_index(I, o, i))
        return mk(out)
    if len(items) == 1 and items[0].plain:
        def bound(b, default):
            if b is None:
                return default
            b = sint(b)
            if not c.decide(b >= 0):
                b = b + total
                return b if c.decide(b >= 0) else z3.IntVal(0)
            return b if c.decide(b <= total) else total
        lo, hi = bound(start, z3.IntVal(0)), bound(stop, total)
        if not c.decide(lo < hi):
            return mk([])
        e = items[0]
        return mk([Chunk(z3.simplify(hi - lo), lambda j: e.entries(z3.simplify(lo + j)), name=e.name)])
    if start is not None and isinstance(start, int) and 0 <= start <= 3 and stop is None:
        # the items from the front one by one
        front = items
        for i in range(start):
            if not c.decide(z3.IntVal(0) < list_len(front)):
                return mk([])
            front = without_first(front)
        return mk(front)
    if stop == -1 and start is None and isinstance(items[-1], Chunk) and items[-1].plain:
        e = items[-1]
        if c.decide(e.n > 0):
            return mk(items[:-1] + [Chunk(z3.simplify(e.n - 1), e.entries, name=e.name)])
    raise Unsupported('slice of a list of symbolic length')


def without_first(items):
    """Entries of a list that is not empty, but for the first."""
    c = ctx()
    items = list(items)
    while True:
        e = items[0]
        if not isinstance(e, Chunk):
            return items[1:]
        if not e.plain:
            raise Unsupported('slice of a list of symbolic length')
        if c.decide(e.n > 0):
            return [Chunk(z3.simplify(e.n - 1), lambda j: e.entries(z3.simplify(j + 1)), name=e.name)] + items[1:]
        items = items[1:]


def reverse_entries(items):
    out = []
    for e in reversed(items):
        if isinstance(e, Chunk):
            n = e.n
            out.append(Chunk(n, lambda j, e=e: list(reversed(e.entries(z3.simplify(e.n - 1 - j)))),
                             None if e._guard is None else (lambda j, e=e: e._guard(z3.simplify(e.n - 1 - j))),
                             e.name + '~', e.width))
            out[-1].reversed = not e.reversed
        else:
            out.append(e)
    return out


def str_index(I, o, k):
    cs = explode(o)
    c = ctx()
    if isinstance(k, int):
        seg = cs[:k + 1] if k >= 0 else cs[k:]
        if k >= 0 and len(seg) == k + 1 and not any(isinstance(x, (Atom, IntText)) for x in seg):
            return mkstr([seg[-1]])
        if k < 0 and len(seg) == -k and not any(isinstance(x, (Atom, IntText)) for x in seg):
            return mkstr([seg[0]])
        if not any(isinstance(x, (Atom, IntText)) for x in cs):
            raise Raised(IndexError('string index out of range'))
        if k == 0 and isinstance(cs[0], Atom) and all(isinstance(x, Atom) for x in cs):
            pass
        z = SStr(cs).z3()
        n = z3.Length(z)
        i = z3.IntVal(k) if k >= 0 else n + k
        if not c.decide(z3.And(i >= 0, i < n)):
            raise Raised(IndexError('string index out of range'))
        return SStr.atom(z3.SubString(z, i, 1))
    if isinstance(k, slice) and k.step is None:
        a, b = k.start, k.stop
        a = 0 if a is None else a
        if isinstance(a, int) and (b is None or isinstance(b, int)):
            if not any(isinstance(x, (Atom, IntText)) for x in cs):
                return mkstr(cs[a:b])
            if a >= 0 and b is None:
                head = cs[:a]
                if len(head) == a and not any(isinstance(x, (Atom, IntText)) for x in head):
                    return mkstr(cs[a:])
                z = SStr(cs).z3()
                return SStr.atom(z3.SubString(z, z3.IntVal(a), z3.Length(z)))
            if a >= 0 and b is not None and b >= 0:
                head = cs[:b]
                if len(head) == b and not any(isinstance(x, (Atom, IntText)) for x in head):
                    return mkstr(cs[a:b])
                z = SStr(cs).z3()
                return SStr.atom(z3.SubString(z, z3.IntVal(a), z3.IntVal(max(0, b - a))))
            if a >= 0 and b is not None and b < 0:
                tail = cs[b:]
                if len(tail) == -b and not any(isinstance(x, (Atom, IntText)) for x in tail):
                    return str_index(I, mkstr(cs[:b]), slice(a, None))
            if a < 0 and b is None:
                tail = cs[a:]
                if len(tail) == -a and not any(isinstance(x, (Atom, IntText)) for x in tail):
                    return mkstr(tail)
    raise Unsupported('symbolic index into a text')


def setitem(I, o, k, v):
    o, k = force(o), force(k)
    c = ctx()
    if isinstance(o, dict):
        if is_sym(k):
            if not hasattr(o, '_vc_sym'):
                raise Unsupported('symbolic dictionary key')
        m = getattr(type(o), '__setitem__', None)
        if isinstance(m, types.FunctionType) and interpretable(m):
            return I.call(m, [o, k, v])
        old = dict.get(o, k, MISSING)
        order = list(dict.items(o))
        dict.__setitem__(o, k, v)

        def undo():
            if old is MISSING:
                dict.pop(o, k, None)
            else:
                dict.__setitem__(o, k, old)
        c.log(undo, ('setitem', o, k, v))
        return
    if isinstance(o, list):
        if isinstance(k, slice) and k == slice(None):
            new = list(iter_entries(I, v))
            list_change(I, o, lambda: list.__setitem__(o, slice(None), new))
            return
        if isinstance(k, int) and not any(isinstance(e, Chunk) for e in o):
            if not -len(o) <= k < len(o):
                raise Raised(IndexError('list assignment index out of range'))
            list_change(I, o, lambda: list.__setitem__(o, k, v))
            return
        raise Unsupported('assignment into a list')
    if hasattr(type(o), '_vc_setitem'):
        return o._vc_setitem(I, k, v)
    if isinstance(o, SOpaque) and '__setitem__' in o.attrs:
        return I.call(o.attrs['__setitem__'], [k, v])
    if is_sym(o):
        raise Unsupported('item assignment')
    m = getattr(type(o), '__setitem__', None)
    if isinstance(m, types.FunctionType):
        return I.call(m, [o, k, v])
    raise Unsupported(f'item assignment to {type(o).__name__}')


def delitem(I, o, k):
    o, k = force(o), force(k)
    if isinstance(o, dict) and not is_sym(k):
        if k not in o:
            raise Raised(KeyError(k))
        dict_change(I, o, lambda: dict.__delitem__(o, k))
        return
    if isinstance(o, list) and isinstance(k, (int, slice)) and not any(isinstance(e, Chunk) for e in o):
        try:
            list_change(I, o, lambda: list.__delitem__(o, k))
        except IndexError as e:
            raise Raised(e) from None
        return
    raise Unsupported('del item')


def dict_change(I, o, f):
    old = dict(o)
    f()

    def undo():
        dict.clear(o)
        dict.update(o, old)
    ctx().log(undo, ('mutate', o))


def delattr_(I, o, name):
    o = force(o)
    if is_sym(o) or not hasattr(o, '__dict__') or name not in o.__dict__ or isinstance(o, type):
        raise Unsupported('del attribute')
    old = o.__dict__[name]
    object.__delattr__(o, name)
    ctx().log(lambda: object.__setattr__(o, name, old), ('mutate', o))


# ---------------------------------------------------------------------- attributes of symbolic values
def attr_sym(I, o, name):
    if hasattr(type(o), '_vc_getattr'):
        return o._vc_getattr(I, name)
    if isinstance(o, SOpaque):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Thunk):
                return force(v.f())
            return force(v)
        if name == '__class__':
            return o.cls
        if o.attrs.get('__closed__', True):
            if o.cls is not object and hasattr(o.cls, name):
                raise Unsupported(f'attribute {name} of opaque {o.name}')
            raise Raised(AttributeError(name))
        raise Unsupported(f'attribute {name} of opaque {o.name}')
    if name == '__class__':
        return o.pytype
    if isinstance(o, SStr):
        if name in STRM:
            return SMethod(o, name, STRM[name])
        if not hasattr('', name):
            raise Raised(AttributeError(name))
        raise Unsupported(f'str.{name}')
    if isinstance(o, SBytes):
        if name == 'decode':
            def dec(I, s, a, k):
                if s.text is not None:
                    return s.text
                raise Unsupported('decode')
            return SMethod(o, name, dec)
        if not hasattr(b'', name):
            raise Raised(AttributeError(name))
        raise Unsupported(f'bytes.{name}')
    if isinstance(o, (SInt, SBool)):
        if not hasattr(1, name):
            raise Raised(AttributeError(name))
        if name in ('real', 'numerator'):
            return o
        raise Unsupported(f'int.{name}')
    if isinstance(o, SNum):
        pt = o.pytype
        if not hasattr(pt, name):
            raise Raised(AttributeError(name))
        if name == 'is_nan':
            return SMethod(o, name, lambda I, s, a, k: mkbool(s.nan))
        if name == 'is_finite':
            return SMethod(o, name, lambda I, s, a, k: mkbool(z3.And(z3.Not(s.nan), s.inf == 0)))
        if name == 'is_infinite':
            return SMethod(o, name, lambda I, s, a, k: mkbool(s.inf != 0))
        raise Unsupported(f'{pt.__name__}.{name}')
    if isinstance(o, (STimedelta, STimezone, SDate, STime, SDateTime)):
        return dt_attr(I, o, name)
    raise Unsupported(f'attribute {name} of {o!r}')


def setattr_sym(I, o, name, value):
    if hasattr(type(o), '_vc_setattr'):
        return o._vc_setattr(I, name, value)
    if isinstance(o, SOpaque):
        sets = o.attrs.get('__sets__')
        if sets is not None:
            list_append(I, sets, (name, value))
            return
        old = o.attrs.get(name, MISSING)
        o.attrs[name] = value

        def undo():
            if old is MISSING:
                o.attrs.pop(name, None)
            else:
                o.attrs[name] = old
        ctx().log(undo, ('setattr', o, name, value))
        return
    raise Raised(AttributeError(name))


def symwrites(obj):
    """The writes to attributes of symbolic name (one list per object and run; its contents are undone by the journal)."""
    c = ctx()
    e = c.symw.get(id(obj))
    if e is None or e[0] is not obj:
        e = c.symw[id(obj)] = (obj, [])
        c.alloc[id(e[1])] = (e[1], c.born(obj))
    return e[1]


def setattr_symname(I, obj, name, value):
    """Assignment to an attribute whose name is symbolic: kept in the list of writes of the object."""
    w = symwrites(obj)
    list_append(I, w, (name, value))


def getattr_symname(I, obj, name, default=MISSING):
    obj = force(obj)
    d = getattr(obj, '__dict__', None)
    if d is None:
        raise Unsupported('getattr with a symbolic name')
    w = symwrites(obj)
    cut_noread(I, obj)
    cut_noread(I, w)
    tok = object()
    for e in reverse_entries(list(w)):
        if isinstance(e, Chunk):
            def body(p):
                if I.truth(eq(I, p[0], name)):
                    raise StopSearch(tok, p[1])
            try:
                I.loop_chunk(e, body, Interp.DUMMY_FRAME(), ())
            except StopSearch as s:
                if s.owner is not tok:
                    raise
                return force(s.value)
        elif I.truth(eq(I, e[0], name)):
            return force(e[1])
    h = d.get('__symread__')
    if h is not None:
        return h(I, obj, name)
    for nm in list(d):
        if nm.startswith('__sym'):
            continue
        if I.truth(eq(I, nm, name)):
            return force(d[nm])
    from .core import Infeasible, check_formula
    if check_formula(ctx().pc, z3.BoolVal(True), 2000, False)[0] == 'unsat':
        raise Infeasible()
    raise Unsupported('getattr with a symbolic name')


# ---------------------------------------------------------------------- built-in methods of concrete containers
def call_builtin_method(I, f, args, kwargs):
    o = getattr(f, '__self__', None)
    name = getattr(f, '__name__', '')
    if o is not None and not isinstance(o, types.ModuleType) and not isinstance(o, type):
        if isinstance(o, list) or isinstance(o, collections.deque):
            return list_method(I, o, name, args, kwargs, f)
        if isinstance(o, dict):
            return dict_method(I, o, name, args, kwargs, f)
        if isinstance(o, (set,)):
            return set_method(I, o, name, args, kwargs, f)
        if isinstance(o, str) and name in STRM and (any(deep_has_sym(a) for a in args) or any(deep_has_sym(a) for a in kwargs.values())):
            return STRM[name](I, str.__str__(o), [force(a) for a in args], kwargs)
        if isinstance(o, re.Pattern):
            return remodel.call(I, o, name, args, kwargs)
        if isinstance(o, tuple) and name in ('index', 'count') and deep_has_sym(o):
            raise Unsupported('tuple.' + name)
        if name == '__setattr__' and isinstance(f, types.MethodWrapperType):
            I.raw_setattr(o, force(args[0]), args[1])
            return None
        if name == '__init__':
            if isinstance(o, BaseException):
                old = o.args
                o.args = tuple(args)
                ctx().log(lambda: setattr(o, 'args', old), ('note', o))
                return None
            if type(o).__init__ is object.__init__ or isinstance(f, types.MethodWrapperType):
                if isinstance(o, (list, dict, set)):
                    pass
                elif not args and not kwargs or True:
                    try:
                        return f(*[concretize_shallow(a) for a in args], **kwargs) if not any(deep_has_sym(a) for a in args) else None
                    except Exception as e:
                        raise Raised(e) from None
        if name in ('__getattribute__',) and args and not is_sym(force(args[0])):
            return I.getattr(o, force(args[0]))
    if o is not None and isinstance(o, type):
        if name == '__new__':
            cls = args[0]
            if o is object:
                return ctx().register(object.__new__(cls))
            if o in (list, dict, set):
                return ctx().register(o.__new__(cls))
            if not any(deep_has_sym(a) for a in args[1:]):
                return ctx().register(f(*args, **kwargs))
            if issubclass(cls, BaseException):
                return ctx().register(cls.__new__(cls))
        if o is dict and name == 'fromkeys':
            d = ctx().register({})
            for k in gen_list(I, args[0]):
                setitem(I, d, k, args[1] if len(args) > 1 else None)
            return d
        if o is str and name == 'maketrans':
            return I.native(f, args, kwargs)
    if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)) and args:
        # unbound method of a built-in class: list.append(x, v)
        s = force(args[0])
        if isinstance(s, Sym):
            return I.call(I.getattr(s, name), args[1:], kwargs)
        if f.__objclass__ is object and name == '__setattr__':
            I.raw_setattr(s, force(args[1]), args[2])
            return None
        if f.__objclass__ is type and name == '__setattr__':
            I.raw_setattr(s, force(args[1]), args[2])
            return None
        if f.__objclass__ is str and isinstance(s, str) and name in ('__str__',):
            return str.__str__(s)
        return I.call(f.__get__(s, type(s)), args[1:], kwargs)
    return I.native(f, args, kwargs)


def list_method(I, L, name, a, k, f):
    c = ctx()
    if name == 'append':
        return list_append(I, L, a[0])
    if name == 'extend' or name == '__iadd__':
        list_extend(I, L, a[0])
        return L if name == '__iadd__' else None
    if name == '__init__':
        if a:
            new = list(gen_list(I, a[0]))
            list_change(I, L, lambda: list_restore(L, new))
        return None
    if name in ('__len__',):
        return length(I, L)
    if name == '__iter__':
        return Entries(list(L))
    if name == '__getitem__':
        return getitem(I, L, a[0])
    if name == '__setitem__':
        return setitem(I, L, a[0], a[1])
    if name == '__contains__':
        return contains(I, a[0], L)
    if name == 'copy':
        return c.register(list(L))
    if name == 'insert' and len(a) == 2:
        n, i = length(I, L), force(a[0])
        if isinstance(i, (int, SInt)) and (i == n if isinstance(i, int) and isinstance(n, int) else c.entailed(sint(i) == sint(n))):
            return list_append(I, L, a[1])
    cut_noread(I, L)
    chunked = any(isinstance(e, Chunk) for e in L)
    if name == 'insert' and isinstance(force(a[0]), int) and (not chunked or force(a[0]) == 0):
        list_change(I, L, lambda: L.insert(force(a[0]), a[1]), 'insert')
        return None
    if name == 'reverse':
        new = reverse_entries(list(L))
        list_change(I, L, lambda: list_restore(L, new))
        return None
    if name == 'clear':
        list_change(I, L, lambda: list_restore(L, []))
        return None
    if name == 'appendleft':
        list_change(I, L, lambda: L.appendleft(a[0]), 'insert')
        return None
    if name in ('pop', 'popleft'):
        i = 0 if name == 'popleft' else (force(a[0]) if a else -1)
        if not isinstance(i, int):
            raise Unsupported('pop')
        if i == 0:
            unpack_head(I, L)
        elif i == -1:
            unpack_last(I, L)
        seg = list(L)[:i + 1] if i >= 0 else list(L)[i:]
        if any(isinstance(e, Chunk) for e in seg) or (chunked and not seg):
            raise Unsupported('pop from a list of symbolic length')
        if len(L) < (i + 1 if i >= 0 else -i):
            raise Raised(IndexError('pop from empty list'))
        v = list(L)[i]
        new = list(L)
        del new[i]
        list_change(I, L, lambda: list_restore(L, new))
        return force(v)
    if name in ('index', 'count', 'remove'):
        if chunked:
            raise Unsupported(f'list.{name}')
        if name == 'count':
            return sum(1 for x in list(L) if I.truth(is_or_eq(I, a[0], x)))
        for n, x in enumerate(list(L)):
            if I.truth(is_or_eq(I, x, a[0])):
                if name == 'index':
                    return n
                new = list(L)
                del new[n]
                list_change(I, L, lambda: list_restore(L, new))
                return None
        raise Raised(ValueError('not in list'))
    if name == 'sort':
        new = sort_entries(I, list(L), k.get('key'), k.get('reverse', False))
        list_change(I, L, lambda: list_restore(L, new))
        return None
    if deep_has_sym(L) or any(deep_has_sym(x) for x in a):
        raise Unsupported(f'list.{name}')
    return I.native(f, a, k)


def unpack_head(I, L):
    """Make the first item of the list a single value."""
    from .gen import split_head
    new = list(L)
    while new and isinstance(new[0], Chunk):
        if new[0].width is None:
            raise Unsupported('pop from a list of lists')
        new[:1] = split_head(new[0])
    if len(new) != len(L) or any(x is not y for x, y in zip(new, L)):
        list_change(I, L, lambda: list_restore(L, new))


def unpack_last(I, L):
    """Make the last item of the list a single value."""
    c = ctx()
    new = list(L)
    while new and isinstance(new[-1], Chunk):
        x = new.pop()
        if x.width is None:
            raise Unsupported('pop from a list of lists')
        if not c.decide(x.n > 0):
            continue
        last = z3.simplify(x.n - 1)
        new.append(Chunk(last, x._entries, x._guard, x.name, x.width))
        if c.decide(x.guard(last)):
            new.extend(x.entries(last))
            break
    if len(new) != len(L) or any(x is not y for x, y in zip(new, L)):
        list_change(I, L, lambda: list_restore(L, new))


def in_order(I, items, key):
    """Whether the items, an unknown number of them perhaps, are provably sorted already."""
    c = ctx()

    def item(e, k):
        if not isinstance(e, Chunk):
            return e
        c.assume(z3.And(k >= 0, k < e.n))
        c.assume(e.guard(k))
        es = e.entries(k)
        if len(es) != 1 or isinstance(es[0], Chunk):
            raise Unsupported('sorting a list of lists')
        return es[0]

    for n, e in enumerate(items):
        for m in range(n, len(items)):
            f = items[m]
            if m == n and not isinstance(e, Chunk):
                continue
            c.counter += 1
            i, j = z3.Int(f'i!{c.counter}'), z3.Int(f'j!{c.counter}')

            def ordered(e=e, f=f, i=i, j=j):
                if e is f:
                    c.assume(i < j)
                a, b = item(e, i), item(f, j)
                x, y = (I.call(key, [a]), I.call(key, [b])) if key is not None else (a, b)
                return I.truth(compare(I, ast.LtE(), x, y))
            c.scope.append(i)
            c.scope.append(j)
            try:
                outs = c.subexplore(ordered)
            finally:
                c.scope.pop()
                c.scope.pop()
            if any(o[0] != 'normal' or o[1] is not True for o in outs):
                return False
    return True


def sort_entries(I, items, key, reverse):
    if any(isinstance(e, Chunk) for e in items):
        if reverse or not in_order(I, items, key):
            raise Unsupported('sorting a list of symbolic length')
        return items
    keys = [I.call(key, [x]) if key is not None else x for x in items]
    if any(deep_has_sym(x) for x in keys):
        if len(items) <= 1:
            return items
        raise Unsupported('sorting by symbolic keys')
    try:
        order = sorted(range(len(items)), key=lambda n: keys[n], reverse=bool(reverse))
    except Exception as e:
        raise Raised(e) from None
    return [items[n] for n in order]


def dict_method(I, d, name, a, k, f):
    if name == 'get':
        kk = force(a[0])
        default = a[1] if len(a) > 1 else k.get('default')
        cut_noread(I, d)
        if is_sym(kk) or any(is_sym(x) for x in d):
            return dict_lookup(I, d, kk, default, False)
        try:
            return force(dict.get(d, kk, default))
        except Exception as e:
            raise Raised(e) from None
    if name == '__getitem__':
        return getitem(I, d, a[0])
    if name == '__setitem__':
        return setitem(I, d, a[0], a[1])
    if name == '__contains__':
        return contains(I, a[0], d)
    if name == '__len__':
        return len(d)
    if name in ('items', 'keys', 'values', 'copy', '__iter__'):
        cut_noread(I, d)
        if name == 'items':
            if '__entries__' in d:
                return Entries(list(d['__entries__']))
            return Entries([(x, v) for x, v in dict.items(d)])
        if name == 'values':
            if '__entries__' in d:
                raise Unsupported('values of a symbolic dictionary')
            return Entries(list(dict.values(d)))
        if name == 'copy':
            return ctx().register(dict(d))
        return d.keys() if name == 'keys' else Entries(list(d))
    if name == 'setdefault':
        if not I.truth(contains(I, a[0], d)):
            setitem(I, d, a[0], a[1] if len(a) > 1 else None)
        return getitem(I, d, a[0])
    if name in ('update', '__init__'):
        if a:
            src = force(a[0])
            if isinstance(src, dict):
                pairs = list(dict.items(src))
            else:
                pairs = [tuple(unpack(I, p, 2, False)) for p in gen_list(I, src)]
            for x, v in pairs:
                setitem(I, d, x, v)
        for x, v in k.items():
            setitem(I, d, x, v)
        return None
    if name == 'pop':
        kk = force(a[0])
        if is_sym(kk):
            raise Unsupported('dict.pop with a symbolic key')
        if kk not in d:
            if len(a) > 1:
                return a[1]
            raise Raised(KeyError(kk))
        v = d[kk]
        dict_change(I, d, lambda: dict.pop(d, kk))
        return force(v)
    if name == 'clear':
        dict_change(I, d, lambda: dict.clear(d))
        return None
    if name in ('popitem',) and d:
        kk = list(d)[-1]
        v = d[kk]
        dict_change(I, d, lambda: dict.pop(d, kk))
        return (kk, v)
    if deep_has_sym(d) or any(deep_has_sym(x) for x in a):
        raise Unsupported(f'dict.{name}')
    return I.native(f, a, k)


def set_method(I, s, name, a, k, f):
    if any(is_sym(force(x)) for x in a):
        if name == '__contains__':
            return contains(I, a[0], s)
        raise Unsupported(f'set.{name} with a symbolic member')
    if name in ('add', 'update', 'discard', 'remove', 'clear', 'pop', 'difference_update', 'intersection_update', '__ior__'):
        old = set(s)
        args = [gen_list(I, x) if isinstance(force(x), (GenExp, Entries)) else force(x) for x in a]
        if any(deep_has_sym(x) for x in args):
            raise Unsupported(f'set.{name}')
        try:
            r = f(*args)
        except Exception as e:
            raise Raised(e) from None

        def undo():
            set.clear(s)
            set.update(s, old)
        ctx().log(undo, ('mutate', s))
        return r
    if name in ('__contains__',):
        cut_noread(I, s)
    return I.native(f, a, k)


# ---------------------------------------------------------------------- built-in functions
@fn(builtins.len)
def _(I, a, k):
    return length(I, a[0])


@fn(builtins.isinstance)
def _(I, a, k):
    return isinstance_(I, a[0], a[1])


@fn(builtins.issubclass)
def _(I, a, k):
    x = force(a[0])
    if is_sym(x):
        raise Unsupported('issubclass of a symbolic class')
    return I.native(issubclass, [x, force(a[1])], {})


@fn(builtins.hasattr)
def _(I, a, k):
    nm = force(a[1])
    if isinstance(nm, SStr):
        raise Unsupported('hasattr with a symbolic name')
    try:
        I.getattr(a[0], nm)
        return True
    except Raised as r:
        if isinstance(r.exc, AttributeError):
            return False
        raise


@fn(builtins.getattr)
def _(I, a, k):
    nm = force(a[1])
    if isinstance(nm, SStr):
        return getattr_symname(I, a[0], nm, *a[2:])
    return I.getattr(a[0], nm, *a[2:])


@fn(builtins.setattr)
def _(I, a, k):
    I.setattr(a[0], a[1], a[2])


@fn(builtins.callable)
def _(I, a, k):
    v = force(a[0])
    if isinstance(v, SOpaque):
        return v.call is not None
    return False if isinstance(v, Sym) else (True if isinstance(v, (VFunc, SMethod)) else callable(v))


@fn(builtins.id)
def _(I, a, k):
    if is_sym(force(a[0])):
        raise Unsupported('id')
    return id(force(a[0]))


@fn(builtins.hash)
def _(I, a, k):
    v = force(a[0])
    if deep_has_sym(v):
        raise Unsupported('hash of a symbolic value')
    return I.native(hash, [v], {})


def _search(I, it, want):
    it = force(it)
    tok = object()

    def body(v):
        if I.truth(v) == want:
            raise StopSearch(tok, v)
    try:
        I.for_each(it, body, Interp.DUMMY_FRAME(), ())
    except StopSearch as s:
        if s.owner is not tok:
            raise
        return True
    return False


@fn(builtins.any)
def _(I, a, k):
    return _search(I, a[0], True)


@fn(builtins.all)
def _(I, a, k):
    return not _search(I, a[0], False)


@fn(builtins.next)
def _(I, a, k):
    it = force(a[0])
    if isinstance(it, Entries) and not isinstance(it, GenExp):
        items = it.items
        if items and not isinstance(items[0], Chunk):
            it.items = items[1:]

            def undo():
                it.items = items
            ctx().log(undo, ('note', it))
            return force(items[0])
    if isinstance(it, (GenExp, Entries)):
        tok = object()

        def body(v):
            raise StopSearch(tok, v)
        try:
            if isinstance(it, GenExp):
                I.for_each(it, body, Interp.DUMMY_FRAME(), ())
            else:
                I.for_each(it.items, body, Interp.DUMMY_FRAME(), ())
                it.items = []
        except StopSearch as s:
            if s.owner is not tok:
                raise
            if isinstance(it, Entries):
                it.items = [Poison('rest of an iterator')]
            return force(s.value)
        if len(a) > 1:
            return a[1]
        raise Raised(StopIteration())
    m = getattr(type(it), '__next__', None)
    if isinstance(m, types.FunctionType):
        return I.call(m, [it])
    return I.native(next, [it] + list(a[1:]), {})


@fn(builtins.iter)
def _(I, a, k):
    it = force(a[0])
    if isinstance(it, (GenExp, Entries)):
        return it
    return Entries(iter_entries(I, it))


@fn(builtins.sorted)
def _(I, a, k):
    return ctx().register(sort_entries(I, gen_list(I, a[0]), k.get('key'), k.get('reverse', False)))


@fn(builtins.repr)
def _(I, a, k):
    return to_repr(I, a[0])


@fn(builtins.ascii)
def _(I, a, k):
    return to_repr(I, a[0])


@fn(builtins.format)
def _(I, a, k):
    return format_value(I, a[0], -1, a[1] if len(a) > 1 else '')


@fn(builtins.abs)
def _(I, a, k):
    v = force(a[0])
    if isinstance(v, (SInt, SBool)):
        t = sint(v)
        return mkint(z3.If(t >= 0, t, -t))
    if isinstance(v, STimedelta):
        return STimedelta(z3.If(v.secs >= 0, v.secs, -v.secs))
    return I.native(abs, [v], {})


@fn(builtins.divmod)
def _(I, a, k):
    return (binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1]))


@fn(builtins.sum)
def _(I, a, k):
    r = a[1] if len(a) > 1 else 0
    for e in gen_list(I, a[0]):
        if isinstance(e, Chunk):
            raise Unsupported('sum over a list of symbolic length')
        r = binop(I, ast.Add(), r, e)
    return r


def _minmax(name, pick):
    def h(I, a, k):
        items = gen_list(I, a[0]) if len(a) == 1 else list(a)
        if any(isinstance(e, Chunk) for e in items):
            raise Unsupported(name)
        items = [force(x) for x in items]
        if not items and 'default' in k:
            return k['default']
        if k.get('key') is not None or not any(is_sym(x) for x in items):
            return I.native(getattr(builtins, name), [items], k)
        r = items[0]
        for x in items[1:]:
            if isinstance(r, (SInt, SBool, int)) and isinstance(x, (SInt, SBool, int)):
                p, q = sint(r), sint(x)
                r = mkint(z3.If(q < p, q, p) if pick == 'min' else z3.If(q > p, q, p))
            elif I.truth(compare(I, ast.Lt() if pick == 'min' else ast.Gt(), x, r)):
                r = x
        return r
    return h


FUNCS[builtins.min], FUNCS[builtins.max] = _minmax('min', 'min'), _minmax('max', 'max')


@fn(builtins.print)
def _(I, a, k):
    return None


@fn(builtins.ord, builtins.chr, builtins.dir, builtins.vars)
def _(I, a, k):
    raise Unsupported('built-in')


FUNCS[builtins.dir] = lambda I, a, k: I.native(dir, a, k)
FUNCS[builtins.ord] = lambda I, a, k: I.native(ord, a, k)
FUNCS[builtins.chr] = lambda I, a, k: I.native(chr, a, k)


def _vars(I, a, k):
    o = force(a[0])
    if is_sym(o):
        raise Unsupported('vars')
    return dict(vars(o))


FUNCS[builtins.vars] = _vars

# -- classes
_is_int_text = z3.Function('is_integer_text', STR, BOOL)
_int_value = z3.Function('integer_value_of_text', STR, INT)


@cl(int)
def _int(I, a, k):
    if not a:
        return 0
    v = force(a[0])
    c = ctx()
    if len(a) > 1 or k:
        if deep_has_sym(a):
            raise Unsupported('int with base')
        return I.native(int, a, k)
    if isinstance(v, (SInt, SBool)):
        return mkint(sint(v))
    if isinstance(v, SStr):
        return int_of_text(v)
    if isinstance(v, SNum):
        if c.decide(v.nan):
            raise Raised(ValueError('cannot convert float NaN to integer'))
        if c.decide(v.inf != 0):
            raise Raised(OverflowError('cannot convert float infinity to integer'))
        return mkint(z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r)))
    if isinstance(v, SOpaque):
        raise Raised(TypeError('int() argument must be a string or a number'))
    if v is None or isinstance(v, (list, dict, tuple, Sym)):
        raise Raised(TypeError('int() argument must be a string or a number'))
    return I.native(int, [v], {})


def int_of_text(v):
    c = ctx()
    ps = explode(v)
    sign = 1
    body = ps
    if body and isinstance(body[0], str) and body[0] in '+-':
        sign = -1 if body[0] == '-' else 1
        body = body[1:]
        if body and isinstance(body[0], IntText) and len(body) == 1:
            if c.decide(body[0].t >= 0):
                return mkint(sign * body[0].t)
            raise Raised(ValueError('invalid literal for int()'))
    if len(body) == 1 and isinstance(body[0], IntText):
        return mkint(sign * body[0].t)
    if body and all(isinstance(p, Digit) or (isinstance(p, str) and p in '0123456789') for p in body):
        t = z3.IntVal(0)
        for p in body:
            t = t * 10 + (p.t if isinstance(p, Digit) else int(p))
        return mkint(z3.simplify(sign * t))
    if any(isinstance(p, str) and not (p.isspace() or p in '+-_' or p.isdigit()) for p in ps):
        raise Raised(ValueError('invalid literal for int()'))
    z = SStr(v.parts).z3()
    if c.decide(_is_int_text(z)):
        return mkint(_int_value(z))
    raise Raised(ValueError('invalid literal for int()'))


_is_float_text = z3.Function('is_float_text', STR, BOOL)


def num_from_text(kind, v, exc):
    c = ctx()
    from .gen import num_key
    known = c.num_texts.get(num_key(v))
    if known is not None:
        # the text of a number, read: by its own type it is the number; by decimal.Decimal the number as written
        if kind == known.kind:
            r = SNum(kind, known.r, text=known.text)
        else:
            r = SNum(kind, z3.Function(f'{kind}_value', STR, REAL)(SStr(v.parts).z3()), text=known.text)
        r.plain = known.plain
        return r
    z = SStr(v.parts).z3()
    if len(v.parts) == 1 and isinstance(v.parts[0], IntText):
        if kind == 'decimal':
            r = SNum(kind, z3.ToReal(v.parts[0].t), text=v)
            r.plain = v
            return r
    # text of a number read back by the same type
    if len(v.parts) == 1 and isinstance(v.parts[0], Atom):
        t = v.parts[0].t
        if z3.is_app(t) and t.decl().name() == 'text_of_' + kind:
            return SNum(kind, t.arg(0), t.arg(1), t.arg(2))
        if z3.is_app(t) and t.decl().name() == 'text_of_float' and kind == 'decimal':
            pass
    if not c.decide(z3.Function(f'is_{kind}_text', STR, BOOL)(z)):
        raise Raised(exc)
    return SNum(kind, z3.Function(f'{kind}_value', STR, REAL)(z), z3.Function(f'{kind}_inf', STR, INT)(z),
                z3.Function(f'{kind}_nan', STR, BOOL)(z))


@cl(float)
def _(I, a, k):
    v = force(a[0]) if a else 0.0
    if isinstance(v, SStr):
        return num_from_text('float', v, ValueError('could not convert string to float'))
    if isinstance(v, (SInt, SBool)):
        raise Unsupported('float of an integer')
    if isinstance(v, SNum):
        if v.kind == 'float':
            return v
        raise Unsupported('float of a decimal')
    if isinstance(v, SOpaque):
        raise Raised(TypeError('float() argument'))
    return I.native(float, [v], {})


@cl(_dec.Decimal)
def _(I, a, k):
    v = force(a[0]) if a else 0
    if isinstance(v, SStr):
        return num_from_text('decimal', v, _dec.InvalidOperation())
    if isinstance(v, (SInt, SBool)):
        r = SNum('decimal', z3.ToReal(sint(v)), text=SStr([IntText(sint(v))]))
        r.plain = r.text
        return r
    if isinstance(v, SNum):
        if v.kind == 'decimal':
            return v
        return SNum('decimal', v.r, v.inf, v.nan)
    if isinstance(v, SOpaque):
        raise Raised(TypeError('conversion to Decimal is not supported'))
    return I.native(_dec.Decimal, [v], {})


@cl(str)
def _(I, a, k):
    if not a:
        return ''
    return to_str(I, a[0])


@cl(bool)
def _(I, a, k):
    if not a:
        return False
    v = force(a[0])
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(v.t != 0)
    return I.truth(v)


@cl(list)
def _(I, a, k):
    return ctx().register(list(gen_list(I, a[0])) if a else [])


@cl(tuple)
def _(I, a, k):
    return tuple(gen_list(I, a[0])) if a else ()


@cl(set, frozenset)
def _(I, a, k):
    return make_set(I, gen_list(I, a[0]) if a else [])


@cl(dict)
def _(I, a, k):
    d = ctx().register({})
    dict_method(I, d, 'update', a, k, None)
    return d


@cl(collections.OrderedDict)
def _(I, a, k):
    d = ctx().register(collections.OrderedDict())
    dict_method(I, d, 'update', a, k, None)
    return d


@cl(collections.deque)
def _(I, a, k):
    return ctx().register(collections.deque(gen_list(I, a[0]) if a else []))


@cl(bytes)
def _(I, a, k):
    if a and isinstance(force(a[0]), SBytes):
        return force(a[0])
    if a and isinstance(force(a[0]), SStr):
        return _encode(I, force(a[0]), [], {})
    return I.native(bytes, a, k)


@cl(enumerate)
def _(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    es = gen_list(I, a[0])
    out, pos = [], sint(start)
    for e in es:
        if isinstance(e, Chunk):
            if not e.plain:
                raise Unsupported('enumerate of a filtered list')
            out.append(Chunk(e.n, lambda j, e=e, pos=pos: [(mkint(pos + j), e.entries(j)[0])], None, 'enum', 1))
            pos = z3.simplify(pos + e.n)
        else:
            out.append((mkint(pos), e))
            pos = z3.simplify(pos + 1)
    return Entries(out)


@cl(zip)
def _(I, a, k):
    ls = [gen_list(I, x) for x in a]
    if any(any(isinstance(e, Chunk) for e in l) for l in ls):
        if all(len(l) == len(ls[0]) for l in ls):
            out = []
            for row in zip(*ls):
                if all(isinstance(e, Chunk) and e.plain for e in row) and all(e.n.eq(row[0].n) for e in row):
                    out.append(Chunk(row[0].n, lambda j, row=row: [tuple(e.entries(j)[0] for e in row)], None, 'zip', 1))
                elif any(isinstance(e, Chunk) for e in row):
                    raise Unsupported('zip of lists of symbolic length')
                else:
                    out.append(tuple(row))
            return Entries(out)
        raise Unsupported('zip of lists of symbolic length')
    return Entries([tuple(r) for r in zip(*ls)])


@cl(map)
def _(I, a, k):
    f = a[0]
    if len(a) != 2:
        raise Unsupported('map')
    out = ctx().register([])
    I.for_each(a[1], lambda v: list_append(I, out, I.call(f, [v])), Interp.DUMMY_FRAME(), ())
    return Entries(list(out))


@cl(filter)
def _(I, a, k):
    f = force(a[0])
    out = ctx().register([])

    def body(v):
        if I.truth(v if f is None else I.call(f, [v])):
            list_append(I, out, v)
    I.for_each(a[1], body, Interp.DUMMY_FRAME(), ())
    return Entries(list(out))


@cl(reversed)
def _(I, a, k):
    return Entries(reverse_entries(list(iter_entries(I, a[0]))))


@cl(range)
def _(I, a, k):
    a = [force(x) for x in a]
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 1:
            return Entries([Chunk(sint(a[0]), lambda j: [mkint(j)], None, 'range', 1)])
        if len(a) == 2:
            s = sint(a[0])
            return Entries([Chunk(z3.simplify(sint(a[1]) - s), lambda j: [mkint(s + j)], None, 'range', 1)])
        raise Unsupported('range')
    return I.native(range, a, k)


@cl(super)
def _(I, a, k):
    return super(*a)


@cl(itertools.chain)
def _(I, a, k):
    out = []
    for x in a:
        out.extend(gen_list(I, x))
    e = Entries(out)
    return e


FUNCS[itertools.chain.from_iterable] = lambda I, a, k: CLASSES[itertools.chain](I, gen_list(I, a[0]), {})


@cl(itertools.takewhile, itertools.islice, itertools.groupby, itertools.product, itertools.zip_longest)
def _(I, a, k):
    raise Unsupported('itertools')


@cl(itertools.dropwhile)
def _(I, a, k):
    es = gen_list(I, a[1])
    n = 0
    while n < len(es) and not isinstance(es[n], Chunk) and I.truth(I.call(a[0], [es[n]])):
        n += 1
    if n < len(es) and isinstance(es[n], Chunk):
        raise Unsupported('dropwhile')
    return Entries(es[n:])


@cl(functools.partial)
def _(I, a, k):
    return ctx().register(functools.partial(a[0], *a[1:], **k)) if not isinstance(a[0], VFunc) else \
        ctx().register(functools.partial(a[0], *a[1:], **k))


@fn(functools.wraps)
def _(I, a, k):
    class Id:
        def _vc_call(self, I, a, k):
            return a[0]
    return Id()


@fn(functools.reduce)
def _(I, a, k):
    items = gen_list(I, a[1])
    if any(isinstance(e, Chunk) for e in items):
        raise Unsupported('reduce over a list of symbolic length')
    if len(a) > 2:
        r = a[2]
    elif items:
        r = items.pop(0)
    else:
        raise Raised(TypeError('reduce() of empty iterable'))
    for x in items:
        r = I.call(a[0], [r, x])
    return r


@cl(property, classmethod, staticmethod)
def _(I, a, k):
    raise Unsupported('descriptor')


@cl(object)
def _(I, a, k):
    return ctx().register(object())


@fn(_copymod.copy)
def _(I, a, k):
    o = force(a[0])
    if isinstance(o, Sym):
        return o
    if isinstance(o, (list, collections.deque)):
        return ctx().register(_copymod.copy(o))
    if cls_interpretable(type(o)):
        r = object.__new__(type(o))
        r.__dict__.update(o.__dict__)
        return ctx().register(r)
    return ctx().register(_copymod.copy(o))


@fn(_copymod.deepcopy)
def _(I, a, k):
    raise Unsupported('deepcopy')


import math as _math


@fn(_math.isfinite)
def _(I, a, k):
    v = force(a[0])
    if isinstance(v, SNum):
        return mkbool(z3.And(z3.Not(v.nan), v.inf == 0))
    return True if isinstance(v, (SInt, SBool)) else I.native(_math.isfinite, [v], {})


@fn(_math.isnan)
def _(I, a, k):
    v = force(a[0])
    if isinstance(v, SNum):
        return mkbool(v.nan)
    return False if isinstance(v, (SInt, SBool)) else I.native(_math.isnan, [v], {})


@fn(_math.isinf)
def _(I, a, k):
    v = force(a[0])
    if isinstance(v, SNum):
        return mkbool(v.inf != 0)
    return False if isinstance(v, (SInt, SBool)) else I.native(_math.isinf, [v], {})


# operator module
FUNCS[operator.attrgetter] = lambda I, a, k: _Getter(a, True)
FUNCS[operator.itemgetter] = lambda I, a, k: _Getter(a, False)
CLASSES[operator.attrgetter] = FUNCS.pop(operator.attrgetter)
CLASSES[operator.itemgetter] = FUNCS.pop(operator.itemgetter)


class _Getter:
    def __init__(self, names, attr):
        self.names, self.attr = names, attr

    def _vc_call(self, I, a, k):
        def one(n):
            if not self.attr:
                return getitem(I, a[0], n)
            o = a[0]
            for p in n.split('.'):
                o = I.getattr(o, p)
            return o
        r = [one(n) for n in self.names]
        return r[0] if len(r) == 1 else tuple(r)


for _opn, _cls in (('eq', ast.Eq), ('ne', ast.NotEq), ('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE)):
    FUNCS[getattr(operator, _opn)] = lambda I, a, k, _cls=_cls: compare(I, _cls(), a[0], a[1])


# logging: no effect on the program
def _nolog(I, a, k):
    return None


for _n in ('debug', 'info', 'warning', 'error', 'exception', 'log', 'critical'):
    FUNCS[getattr(logging.Logger, _n)] = _nolog
    FUNCS[getattr(logging, _n)] = _nolog

# inspect
FUNCS[inspect.isclass] = lambda I, a, k: (not is_sym(force(a[0]))) and isinstance(force(a[0]), type) \
    if not hasattr(force(a[0]), '_vc_isclass') else force(a[0])._vc_isclass

# re module level functions
for _n in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'compile', 'escape'):
    FUNCS[getattr(re, _n)] = lambda I, a, k, _n=_n: remodel.module_call(I, _n, a, k)


# ---------------------------------------------------------------------- dates and times
def td_secs(v):
    v = force(v)
    if isinstance(v, STimedelta):
        return v.secs
    if v.microseconds:
        raise Unsupported('microseconds in a timedelta')
    return z3.IntVal(v.days * 86400 + v.seconds)


def td_binop(k, a, b):
    if k in (ast.Add, ast.Sub) and isinstance(a, (STimedelta, _dt.timedelta)) and isinstance(b, (STimedelta, _dt.timedelta)):
        x, y = td_secs(a), td_secs(b)
        return STimedelta(z3.simplify(x + y if k is ast.Add else x - y))
    if k is ast.Mult:
        t, n = (a, b) if isinstance(a, (STimedelta, _dt.timedelta)) else (b, a)
        if isinstance(n, (int, SInt)):
            return STimedelta(z3.simplify(td_secs(t) * sint(n)))
    if k in (ast.FloorDiv, ast.Mod) and isinstance(b, (_dt.timedelta,)) and isinstance(a, STimedelta):
        d = td_secs(b)
        if k is ast.FloorDiv:
            return mkint(a.secs / d)
        return STimedelta(z3.simplify(a.secs % d))
    raise Unsupported('timedelta arithmetic')


def tz_secs(v):
    v = force(v)
    if isinstance(v, STimezone):
        return v.secs
    return td_secs(v.utcoffset(None))


@cl(_dt.timedelta)
def _(I, a, k):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    vals = dict(zip(names, a))
    vals.update(k)
    vals = {n: force(v) for n, v in vals.items()}
    if not any(is_sym(v) for v in vals.values()):
        return I.native(_dt.timedelta, a, k)
    t = z3.IntVal(0)
    for n, v in vals.items():
        w = {'days': 86400, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'weeks': 604800}.get(n)
        if w is None:
            if isinstance(v, int) and v == 0:
                continue
            raise Unsupported('fractions of a second')
        if not isinstance(v, (int, SInt)):
            raise Unsupported('timedelta of fractions')
        t = t + sint(v) * w
    t = z3.simplify(t)
    if not ctx().decide(z3.And(t >= -999999999 * 86400, t < 1000000000 * 86400)):
        raise Raised(OverflowError('days; must have magnitude <= 999999999'))
    return STimedelta(t)


@cl(_dt.timezone)
def _(I, a, k):
    off = force(a[0] if a else k['offset'])
    name = a[1] if len(a) > 1 else k.get('name')
    if not isinstance(off, (STimedelta, _dt.timedelta)):
        raise Raised(TypeError('timezone() argument 1 must be datetime.timedelta'))
    if not is_sym(off) and not is_sym(force(name)):
        return I.native(_dt.timezone, a, k)
    s = td_secs(off)
    if not ctx().decide(z3.And(s > -86400, s < 86400)):
        raise Raised(ValueError('offset must be strictly between -24 and 24 hours'))
    return STimezone(s, name)


def days_in_month(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30),
                 z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), z3.IntVal(31)))


def date_valid(y, m, d):
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= days_in_month(y, m))


def time_valid(h, mi, s, us):
    return z3.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < 1000000)


def _dtargs(a, k, names, defaults):
    vals = dict(defaults)
    vals.update(zip(names, a))
    for n, v in k.items():
        if n == 'fold':
            continue
        if n not in names:
            raise Raised(TypeError(f'unexpected keyword {n}'))
        vals[n] = v
    for n in names:
        if n not in vals:
            raise Raised(TypeError(f'missing argument {n}'))
    return {n: force(v) for n, v in vals.items()}


def _ints(f, names):
    for n in names:
        if not isinstance(f[n], (int, SInt)):
            if isinstance(f[n], SBool):
                continue
            raise Raised(TypeError('an integer is required'))


def _chk_tz(tz):
    if tz is not None and not isinstance(tz, (STimezone, _dt.tzinfo)) and not (isinstance(tz, SOpaque) and issubclass(tz.cls, _dt.tzinfo)):
        raise Raised(TypeError('tzinfo argument must be None or of a tzinfo subclass'))


def make_dt(cls, f):
    real = {SDate: _dt.date, STime: _dt.time, SDateTime: _dt.datetime}[cls]
    if not any(is_sym(v) for v in f.values()):
        try:
            return real(**f)
        except Exception as e:
            raise Raised(e) from None
    ok = []
    fits = [z3.And(sint(v) >= -2 ** 31, sint(v) < 2 ** 31) for n, v in f.items() if n != 'tzinfo' and isinstance(v, (int, SInt, SBool))]
    if fits and not ctx().decide(z3.And(fits)):
        raise Raised(OverflowError('Python int too large to convert to C int'))
    if cls in (SDate, SDateTime):
        _ints(f, ('year', 'month', 'day'))
        ok.append(date_valid(sint(f['year']), sint(f['month']), sint(f['day'])))
    if cls in (STime, SDateTime):
        _ints(f, ('hour', 'minute', 'second', 'microsecond'))
        ok.append(time_valid(*[sint(f[n]) for n in ('hour', 'minute', 'second', 'microsecond')]))
        _chk_tz(f['tzinfo'])
    if not ctx().decide(z3.And(*ok)):
        raise Raised(ValueError('date or time out of range'))
    return cls(**f)


@cl(_dt.date)
def _(I, a, k):
    return make_dt(SDate, _dtargs(a, k, SDate.FIELDS, {}))


@cl(_dt.time)
def _(I, a, k):
    return make_dt(STime, _dtargs(a, k, STime.FIELDS, dict(hour=0, minute=0, second=0, microsecond=0, tzinfo=None)))


@cl(_dt.datetime)
def _(I, a, k):
    return make_dt(SDateTime, _dtargs(a, k, SDateTime.FIELDS, dict(hour=0, minute=0, second=0, microsecond=0, tzinfo=None)))


def utcoffset(I, tz, arg=None):
    tz = force(tz)
    if tz is None:
        return None
    if isinstance(tz, STimezone):
        return STimedelta(tz.secs)
    if isinstance(tz, SOpaque):
        return I.call(I.getattr(tz, 'utcoffset'), [arg])
    if isinstance(tz, _dt.timezone):
        return tz.utcoffset(None)
    raise Unsupported('utcoffset')


def dt_attr(I, o, name):
    def m(f):
        return SMethod(o, name, f)
    if isinstance(o, STimedelta):
        if name == 'days':
            return mkint(o.secs / 86400)
        if name == 'seconds':
            return mkint(o.secs % 86400)
        if name == 'microseconds':
            return 0
        if name == 'total_seconds':
            return m(lambda I, s, a, k: SNum('float', z3.ToReal(s.secs)))
        real = _dt.timedelta
    elif isinstance(o, STimezone):
        if name == 'utcoffset':
            return m(lambda I, s, a, k: STimedelta(s.secs))
        real = _dt.timezone
    else:
        if name in o.f:
            return force(o.f[name])
        if name == 'strftime':
            return m(lambda I, s, a, k: strftime(I, s, force(a[0])))
        if name == 'isoformat':
            return m(lambda I, s, a, k: isoformat(I, s, a, k))
        if name == 'utcoffset' and isinstance(o, (STime, SDateTime)):
            return m(lambda I, s, a, k: utcoffset(I, s.f['tzinfo'], s))
        if name == 'replace':
            def rep(I, s, a, k):
                f = dict(s.f)
                f.update(zip(type(s).FIELDS, a))
                f.update({n: force(v) for n, v in k.items() if n != 'fold'})
                return make_dt(type(s), f)
            return m(rep)
        if isinstance(o, SDateTime):
            if name == 'date':
                return m(lambda I, s, a, k: make_dt(SDate, {n: s.f[n] for n in SDate.FIELDS}))
            if name in ('time', 'timetz'):
                return m(lambda I, s, a, k: make_dt(STime, {**{n: s.f[n] for n in STime.FIELDS[:4]},
                                                            'tzinfo': None if name == 'time' else s.f['tzinfo']}))
        if name == 'fold':
            return 0
        real = o.pytype
    if not hasattr(real, name):
        raise Raised(AttributeError(name))
    raise Unsupported(f'{real.__name__}.{name}')


def strftime(I, o, fmt):
    if not isinstance(fmt, str):
        raise Unsupported('strftime')
    out, n = [], 0
    f = o.f
    while n < len(fmt):
        ch = fmt[n]
        if ch != '%':
            out.append(ch)
            n += 1
            continue
        d = fmt[n + 1:n + 2]
        n += 2
        names = {'m': 'month', 'd': 'day', 'H': 'hour', 'M': 'minute', 'S': 'second'}
        if d in names:
            if names[d] not in f:
                out.append('00' if d in 'HMS' else '01')
            else:
                out.extend(parts_of(format_int(sint(f[names[d]]), 2, '0')))
        elif d == 'Y':
            if 'year' not in f:
                out.append('1900')
            else:
                t = sint(f['year'])
                if ctx().decide(t >= 1000):
                    out.extend(parts_of(format_int(t, 4, '0')))
                else:
                    out.append(IntText(t))
        elif d == 'y' and 'year' in f:
            out.extend(parts_of(format_int(sint(f['year']) % 100, 2, '0')))
        elif d == 'T':
            out.extend(parts_of(strftime(I, o, '%H:%M:%S')))
        elif d == 'F':
            out.extend(parts_of(strftime(I, o, '%Y-%m-%d')))
        elif d == '%':
            out.append('%')
        elif d == 'f' and 'microsecond' in f:
            out.extend(parts_of(format_int(sint(f['microsecond']), 6, '0')))
        else:
            raise Unsupported(f'strftime %{d}')
    return mkstr(out)


def isoformat(I, o, a, k):
    f = o.f
    out = []
    if 'year' in f:
        out.extend(parts_of(format_int(sint(f['year']), 4, '0')))
        out.extend(parts_of(strftime(I, o, '-%m-%d')))
        if isinstance(o, SDate):
            return mkstr(out)
        out.append(a[0] if a else k.get('sep', 'T'))
    ts = k.get('timespec', 'auto') if not isinstance(o, STime) else (a[0] if a else k.get('timespec', 'auto'))
    out.extend(parts_of(strftime(I, o, '%H:%M:%S')))
    if ts == 'auto':
        if ctx().decide(sint(f['microsecond']) != 0):
            out.append('.')
            out.extend(parts_of(format_int(sint(f['microsecond']), 6, '0')))
    elif ts != 'seconds':
        raise Unsupported('isoformat')
    tz = force(f['tzinfo'])
    if tz is not None:
        s = td_secs(utcoffset(I, tz, o))
        c = ctx()
        neg_ = not c.decide(s >= 0)
        out.append('-' if neg_ else '+')
        s = z3.If(s >= 0, s, -s)
        out.extend(parts_of(format_int(s / 3600, 2, '0')))
        out.append(':')
        out.extend(parts_of(format_int(s % 3600 / 60, 2, '0')))
        if c.decide(s % 60 != 0):
            out.append(':')
            out.extend(parts_of(format_int(s % 60, 2, '0')))
    return mkstr(out)


def dt_eq(I, a, b):
    fa = dt_fields(a)
    fb = dt_fields(b)
    if fa is None or fb is None or fa[0] is not fb[0]:
        return False
    cls, f, g = fa[0], fa[1], fb[1]
    conds = []
    ta, tb = force(f.get('tzinfo')), force(g.get('tzinfo'))
    if (ta is None) != (tb is None):
        return False
    if ta is not None:
        if not ctx().entailed(td_secs(utcoffset(I, ta)) == td_secs(utcoffset(I, tb))):
            raise Unsupported('comparison of times with different offsets')
    for n in cls.FIELDS:
        if n != 'tzinfo':
            conds.append(sint(f[n]) == sint(g[n]))
    return mkbool(z3.And(*conds))


def dt_fields(v):
    if isinstance(v, (SDate, STime, SDateTime)):
        return type(v), v.f
    if isinstance(v, _dt.datetime):
        return SDateTime, {n: getattr(v, n) for n in SDateTime.FIELDS}
    if isinstance(v, _dt.date):
        return SDate, {n: getattr(v, n) for n in SDate.FIELDS}
    if isinstance(v, _dt.time):
        return STime, {n: getattr(v, n) for n in STime.FIELDS}
    return None


# concrete dates asked with symbolic arguments
def _native_tz(name):
    pass


def native_dt_method(I, f, args, kwargs):
    raise Unsupported('datetime method')


FUNCS[hashlib.md5] = lambda I, a, k: I.native(hashlib.md5, a, k)


import warnings as _warnings  # noqa: E402
with _warnings.catch_warnings():
    _warnings.simplefilter('ignore')
    try:
        import cgi as _cgi
    except ImportError:
        _cgi = None


def _parse_header(I, a, k):
    """A header whose unknown parts stand inside quotes and hold neither quotes nor backslashes: such parts are taken
    over as they are, so the real function is run on the header with a mark in their place."""
    text = force(a[0])
    if not isinstance(text, SStr):
        return I.native(_cgi.parse_header, a, k)
    marks, out = {}, ''
    for p in text.parts:
        if isinstance(p, str):
            out += p
        elif isinstance(p, Atom) and '"' in p.nochars and '\\' in p.nochars and out.count('"') % 2:
            mark = chr(0xF0000 + len(marks))
            marks[mark] = p
            out += mark
        else:
            raise Unsupported('cgi.parse_header of an unknown text')
    key, params = _cgi.parse_header(out)

    def back(s):
        return mkstr([marks.get(ch, ch) for ch in s])
    return back(key), {n: back(v) for n, v in params.items()}


if _cgi is not None:
    FUNCS[_cgi.parse_header] = _parse_header
