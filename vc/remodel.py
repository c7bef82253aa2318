"""Model of the re module over texts with symbolic parts."""
import re
import re._constants as sc
import re._parser as sp

from .core import BOOL, STR, Raised, Unsupported, ctx, z3
from .sym import Atom, Digit, IntText, SStr, code_to_z3, force, is_sym, mkstr, parts_of


class NeedUF(Exception):
    pass


class Digits:
    """One or more digits: the text of a non-negative integer."""
    def __init__(self, t):
        self.t = t


# ---------------------------------------------------------------------- character maps on arbitrary texts
class MapAtom(Atom):
    __slots__ = ('base', 'map')


class SqueezeAtom(Atom):
    __slots__ = ('base', 'chars', 'to')


class StripAtom(Atom):
    __slots__ = ('base', 'chars', 'side')


def _key(m):
    return '_'.join('%x-%s' % (ord(a), '.'.join('%x' % ord(x) for x in b)) for a, b in sorted(m.items()))


def char_map_atom(p, m):
    base = p
    if isinstance(p, MapAtom):
        comp = {a: ''.join(m.get(x, x) for x in b) for a, b in p.map.items()}
        for a, b in m.items():
            comp.setdefault(a, b)
        base, m = p.base, comp
    m = {a: b for a, b in m.items() if a != b and a not in base.nochars}
    if not m:
        return base
    t = z3.Function('map_' + _key(m), STR, STR)(base.t)
    images = set(''.join(m.values()))
    a = MapAtom(t, ''.join((set(base.nochars) - images) | (set(m) - images)))
    a.base, a.map = base, m
    if all(len(b) == 1 for b in m.values()):
        ctx().assume(z3.Length(t) == z3.Length(base.t))
    return a


def squeeze_atom(p, chars, to):
    base, chars = p, set(chars)
    if isinstance(p, MapAtom) and all(len(b) == 1 and b in chars for b in p.map.values()):
        chars |= set(p.map)
        base = p.base
    if isinstance(base, StripAtom) and base.side == 'both' and set(base.chars) == chars:
        return collapse_atom(base.base, chars, to)
    t = z3.Function('squeeze_%s_%x' % (_key(dict.fromkeys(chars, '')), ord(to)), STR, STR)(base.t)
    a = SqueezeAtom(t, ''.join((set(base.nochars) | chars) - {to}))
    a.base, a.chars, a.to = base, chars, to
    return a


def collapse_atom(base, chars, to):
    t = z3.Function('collapse_%s_%x' % (_key(dict.fromkeys(chars, '')), ord(to)), STR, STR)(base.t)
    return Atom(t, ''.join((set(base.nochars) | set(chars)) - {to}))


def strip_atom(p, chars, side):
    if isinstance(p, SqueezeAtom) and side == 'both' and set(chars) == {p.to}:
        return collapse_atom(p.base, p.chars, p.to)
    if isinstance(p, MapAtom) and side == 'both' and set(p.map.values()) == set(chars):
        q = StripAtom(z3.Function('strip_%s_%s' % (side, _key(dict.fromkeys(chars, ''))), STR, STR)(p.t), p.nochars)
    else:
        q = StripAtom(z3.Function('strip_%s_%s' % (side, _key(dict.fromkeys(chars, ''))), STR, STR)(p.t), p.nochars)
    q.base, q.chars, q.side = p, chars, side
    return q


# ---------------------------------------------------------------------- matching
def cells_of(text):
    c = ctx()
    out = []
    for p in parts_of(text):
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, IntText):
            if c.decide(p.t < 0):
                out.extend(['-', Digits(-p.t)])
            else:
                out.append(Digits(p.t))
        else:
            out.append(p)
    return out


_CATS = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
         sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}


def char_test(op, av, flags):
    """predicate on a concrete character"""
    if op is sc.LITERAL:
        return lambda ch: ord(ch) == av
    if op is sc.NOT_LITERAL:
        return lambda ch: ord(ch) != av
    if op is sc.ANY:
        return (lambda ch: True) if flags & re.DOTALL else (lambda ch: ch != '\n')
    if op is sc.IN:
        neg, tests = False, []
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                tests.append(lambda ch, a=a: ord(ch) == a)
            elif o is sc.RANGE:
                tests.append(lambda ch, a=a: a[0] <= ord(ch) <= a[1])
            elif o is sc.CATEGORY:
                tests.append(lambda ch, a=a: bool(re.match(_CATS[a], ch, flags & re.ASCII)))
            else:
                raise Unsupported('regular expression')
        return lambda ch: any(t(ch) for t in tests) != neg
    return None


ALL_DIGITS = '0123456789'


def cell_matches(cell, pred):
    if isinstance(cell, str):
        return pred(cell)
    ok = [d for d in ALL_DIGITS if pred(d)]
    if isinstance(cell, Digit):
        if len(ok) == 10:
            return True
        if not ok:
            return False
        return ctx().decide(z3.Or(*[cell.t == int(d) for d in ok]))
    if isinstance(cell, Digits):
        if not ok:
            return False
        raise NeedUF()
    known = [ch for ch in map(chr, range(128)) if pred(ch)]
    raise NeedUF()


class Matcher:
    def __init__(self, pattern, flags, cells):
        self.tree = sp.parse(pattern, flags)
        self.flags = self.tree.state.flags
        if self.flags & (re.IGNORECASE | re.LOCALE | re.MULTILINE):
            raise Unsupported('regular expression flags')
        self.cells = cells
        self.names = self.tree.state.groupdict
        self.ngroups = self.tree.state.groups

    def run(self, start, full):
        def end(pos, groups):
            if full and pos != len(self.cells):
                if pos < len(self.cells) and all(isinstance(x, Atom) for x in self.cells[pos:]):
                    raise NeedUF()
                return None
            return pos, groups
        return self.seq(list(self.tree), 0, start, {}, end)

    def seq(self, nodes, i, pos, groups, k):
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        rest = lambda p, g: self.seq(nodes, i + 1, p, g, k)
        pred = char_test(op, av, self.flags)
        if pred is not None:
            if pos >= len(self.cells):
                return None
            if not cell_matches(self.cells[pos], pred):
                return None
            return rest(pos + 1, groups)
        if op is sc.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported('regular expression flags')

            def close(p, gr):
                if g is None:
                    return rest(p, gr)
                gr = dict(gr)
                gr[g] = (pos, p)
                return rest(p, gr)
            return self.seq(list(sub), 0, pos, groups, close)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, groups, rest)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            return self.repeat(list(sub), lo, hi, op is sc.MAX_REPEAT, 0, pos, groups, rest, -1)
        if op is sc.AT:
            n = len(self.cells)
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                return rest(pos, groups) if pos == 0 else None
            if av is sc.AT_END_STRING:
                return rest(pos, groups) if self.atend(pos) else None
            if av is sc.AT_END:
                if self.atend(pos):
                    return rest(pos, groups)
                if pos == n - 1:
                    c = self.cells[pos]
                    if isinstance(c, Atom):
                        raise NeedUF()
                    if c == '\n':
                        return rest(pos, groups)
                return None
            raise Unsupported('regular expression anchor')
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            if direction != 1:
                raise Unsupported('look-behind')
            r = self.seq(list(sub), 0, pos, groups, lambda p, g: (p, g))
            if op is sc.ASSERT:
                return None if r is None else rest(pos, r[1])
            return rest(pos, groups) if r is None else None
        raise Unsupported(f'regular expression {op}')

    def atend(self, pos):
        if pos < len(self.cells) and all(isinstance(x, Atom) for x in self.cells[pos:]):
            raise NeedUF()
        return pos == len(self.cells)

    def repeat(self, sub, lo, hi, greedy, count, pos, groups, k, last):
        def more():
            if count >= hi or pos == last and count >= lo:
                return None
            if pos < len(self.cells) and isinstance(self.cells[pos], Digits) and len(sub) == 1:
                pred = char_test(*sub[0], self.flags)
                if pred is not None and all(pred(d) for d in ALL_DIGITS) and hi >= sc.MAXREPEAT and lo <= count + 1:
                    r = self.repeat(sub, lo, hi, greedy, count + 1, pos + 1, groups, k, pos)
                    if r is None:
                        raise NeedUF()
                    return r
            return self.seq(sub, 0, pos, groups,
                            lambda p, g: self.repeat(sub, lo, hi, greedy, count + 1, p, g, k, pos))
        if count < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else k(pos, groups)
        r = k(pos, groups)
        return r if r is not None else more()


class MMatch:
    _vc_model = True

    def __init__(self, cells=None, span=None, groups=None, names=None, ngroups=0):
        self.cells, self.span, self.groups, self.names, self.ngroups = cells, span, groups, names, ngroups

    def text(self, a, b):
        out = []
        for p in self.cells[a:b]:
            out.append(IntText(p.t) if isinstance(p, Digits) else p)
        return mkstr(out)

    def get(self, g, default=None):
        if self.cells is None:
            raise Unsupported('groups of a match over an unknown text')
        if isinstance(g, str):
            if g not in self.names:
                raise Raised(IndexError('no such group'))
            g = self.names[g]
        if g == 0:
            return self.text(*self.span)
        if g >= self.ngroups:
            raise Raised(IndexError('no such group'))
        return self.text(*self.groups[g]) if g in self.groups else default

    def _vc_truth(self, I):
        return True

    def _vc_getattr(self, I, name):
        from .models import SMethod
        if name == 'group':
            def f(I, s, a, k):
                a = [force(x) for x in a] or [0]
                r = [s.get(x) for x in a]
                return r[0] if len(r) == 1 else tuple(r)
        elif name == '__getitem__':
            def f(I, s, a, k):
                return s.get(force(a[0]))
        elif name == 'groups':
            def f(I, s, a, k):
                return tuple(s.get(x, a[0] if a else None) for x in range(1, s.ngroups))
        elif name == 'groupdict':
            def f(I, s, a, k):
                return ctx().register({n: s.get(n, a[0] if a else k.get('default')) for n in (s.names or s.get(0) and {})})
        else:
            raise Unsupported(f'match.{name}')
        return SMethod(self, name, f)

    def _vc_getitem(self, I, k):
        return self.get(force(k))


class MPattern:
    _vc_model = True
    _vc_pytype = re.Pattern

    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags

    def _vc_truth(self, I):
        return True

    def _vc_getattr(self, I, name):
        from .models import SMethod
        if name == 'pattern':
            return self.pattern
        return SMethod(self, name, lambda I, s, a, k: call(I, s, name, a, k))


def pattern_term(p):
    return SStr(parts_of(p)).z3()


def as_z3(pattern, flags, name):
    """The language of a pattern without categories, look-around or flags, or None."""
    if flags & ~re.UNICODE or name not in ('match', 'fullmatch'):
        return None
    any_ = z3.AllChar(z3.ReSort(STR))
    eps = z3.Re('')

    def one(c):
        return z3.Re(z3.StringVal(chr(c)))

    def cat(rs):
        return eps if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def seq(nodes, last):
        out = []
        for i, (op, av) in enumerate(nodes):
            end = last and i == len(nodes) - 1
            if op is sc.LITERAL:
                out.append(one(av))
            elif op is sc.NOT_LITERAL:
                out.append(z3.Intersect(any_, z3.Complement(one(av))))
            elif op is sc.ANY:
                out.append(z3.Intersect(any_, z3.Complement(one(10))))
            elif op is sc.IN:
                neg, alts = False, []
                for o, a in av:
                    if o is sc.NEGATE:
                        neg = True
                    elif o is sc.LITERAL:
                        alts.append(one(a))
                    elif o is sc.RANGE:
                        alts.append(z3.Range(z3.StringVal(chr(a[0])), z3.StringVal(chr(a[1]))))
                    else:
                        raise NeedUF()
                r = alts[0] if len(alts) == 1 else z3.Union(*alts)
                out.append(z3.Intersect(any_, z3.Complement(r)) if neg else r)
            elif op is sc.SUBPATTERN and not av[1] and not av[2]:
                out.append(seq(av[3], False))
            elif op is sc.BRANCH:
                out.append(z3.Union(*[seq(b, False) for b in av[1]]))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                r = seq(sub, False)
                if hi == sc.MAXREPEAT:
                    out.append(cat([r] * lo + [z3.Star(r)]))
                else:
                    out.append(z3.Loop(r, int(lo), int(hi)))
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and first[0] is nodes and i == 0:
                pass
            elif op is sc.AT and end and av is sc.AT_END:
                if name == 'fullmatch':
                    pass
                else:
                    out.append(z3.Option(one(10)))
                    closed.append(1)
            elif op is sc.AT and end and av is sc.AT_END_STRING:
                closed.append(1)
            else:
                raise NeedUF()
        return cat(out)
    closed, first = [], []
    try:
        tree = list(sp.parse(pattern, flags))
        if name == 'match' and any(op is sc.BRANCH for op, _ in tree) and '$' in pattern:
            return None
        first.append(tree)
        r = seq(tree, True)
    except NeedUF:
        return None
    except re.error as e:
        raise Raised(e) from None
    if name == 'match' and not closed:
        r = z3.Concat(r, z3.Full(z3.ReSort(STR)))
    return r


def domatch(name, pattern, flags, text):
    text = force(text)
    if not isinstance(text, (str, SStr)):
        raise Raised(TypeError('expected string or bytes-like object'))
    c = ctx()
    if isinstance(pattern, str):
        if isinstance(text, str):
            try:
                m = getattr(re.compile(pattern, flags), name)(text)
            except re.error as e:
                raise Raised(e) from None
            if m is None:
                return None
            return m
        if name == 'search':
            raise Unsupported('re.search on a symbolic text')
        try:
            cells = cells_of(text)
            M = Matcher(pattern, flags, cells)
            r = M.run(0, name == 'fullmatch')
            if r is None:
                return None
            return MMatch(cells, (0, r[0]), r[1], M.names, M.ngroups)
        except NeedUF:
            pass
        except re.error as e:
            raise Raised(e) from None
    if isinstance(pattern, str):
        t = as_z3(pattern, flags, name)
        if t is not None:
            return MMatch() if c.decide(z3.InRe(SStr(parts_of(text)).z3(), t)) else None
    f = z3.Function(f're_{name}_{int(flags)}', STR, STR, BOOL)
    if c.decide(f(pattern_term(pattern), SStr(parts_of(text)).z3())):
        return MMatch()
    return None


def dosub(pattern, flags, repl, text):
    repl, text = force(repl), force(text)
    if not isinstance(pattern, str) or not isinstance(repl, str):
        raise Unsupported('re.sub')
    if not isinstance(text, (str, SStr)):
        raise Raised(TypeError('expected string or bytes-like object'))
    if isinstance(text, str):
        return re.sub(pattern, repl, text, flags=flags)
    tree = list(sp.parse(pattern, flags))
    if len(tree) != 1 or '\\' in repl:
        raise Unsupported('re.sub')
    op, av = tree[0]
    plus = False
    if op is sc.MAX_REPEAT:
        lo, hi, sub = av
        if (lo, hi) != (1, sc.MAXREPEAT) or len(sub) != 1:
            raise Unsupported('re.sub')
        plus = True
        op, av = list(sub)[0]
    pred = char_test(op, av, flags)
    if pred is None:
        raise Unsupported('re.sub')
    if op is sc.IN and list(av) == [(sc.CATEGORY, sc.CATEGORY_NOT_WORD)] and not plus and repl == '_':
        # Character by character; which characters are words is left to the interpreter:
        f, out = z3.Function(f're_sub_not_word_{int(flags)}_{repl}', STR, STR), []
        for p in parts_of(text):
            if isinstance(p, str):
                out.append(re.sub(pattern, repl, p, flags=flags))
            elif type(p) is Atom:
                ctx().assume(f(f(p.t)) == f(p.t))
                out.append(Atom(f(p.t)))
            else:
                raise Unsupported('re.sub with a negated class')
        return mkstr(out)
    if op is sc.NOT_LITERAL or op is sc.ANY or op is sc.IN and any(
            o is sc.NEGATE or o is sc.CATEGORY and a not in (sc.CATEGORY_SPACE, sc.CATEGORY_DIGIT) for o, a in av):
        raise Unsupported('re.sub with a negated class')
    chars = [chr(n) for n in range(0x3100) if pred(chr(n))]
    ps = parts_of(text)
    if plus:
        if len(ps) == 1 and type(ps[0]) in (Atom, MapAtom, SqueezeAtom, StripAtom) and len(repl) == 1:
            return SStr([squeeze_atom(ps[0], chars, repl)])
        raise Unsupported('re.sub')
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(re.sub(pattern, repl, p, flags=flags))
        elif isinstance(p, Atom):
            out.append(char_map_atom(p, {ch: repl for ch in chars}))
        elif not any(d in chars for d in '-0123456789'):
            out.append(p)
        else:
            raise Unsupported('re.sub')
    return mkstr(out)


def module_call(I, name, a, k):
    k = {x: force(v) for x, v in k.items()}
    a = [force(x) for x in a]
    if name == 'escape':
        return I.native(re.escape, a, k)
    pattern = a[0] if a else k['pattern']
    if name == 'compile':
        flags = a[1] if len(a) > 1 else k.get('flags', 0)
        if isinstance(pattern, SStr):
            return MPattern(pattern, int(flags))
        return I.native(re.compile, a, k)
    if isinstance(pattern, re.Pattern):
        return call(I, pattern, name, a[1:], k)
    if isinstance(pattern, MPattern):
        return call(I, pattern, name, a[1:], k)
    if not isinstance(pattern, (str, SStr)):
        raise Raised(TypeError('first argument must be string or compiled pattern'))
    if name in ('match', 'fullmatch', 'search'):
        flags = a[2] if len(a) > 2 else k.get('flags', 0)
        return domatch(name, pattern, int(flags), a[1] if len(a) > 1 else k['string'])
    if name == 'sub':
        if len(a) > 3 or 'count' in k:
            raise Unsupported('re.sub with count')
        if callable(a[1]):
            raise Unsupported('re.sub with a function')
        return dosub(pattern, int(k.get('flags', 0)), a[1], a[2])
    if not any(is_sym(x) for x in a):
        return I.native(getattr(re, name), a, k)
    raise Unsupported(f're.{name}')


def call(I, p, name, a, k):
    a = [force(x) for x in a]
    flags = p.flags & ~re.UNICODE
    if isinstance(p, re.Pattern) and not any(is_sym(x) for x in a) and name != 'sub':
        return I.native(getattr(p, name), a, k)
    if name in ('match', 'fullmatch', 'search') and len(a) == 1:
        return domatch(name, p.pattern, flags, a[0])
    if name == 'sub' and len(a) == 2:
        return dosub(p.pattern, flags, a[0], a[1])
    raise Unsupported(f'pattern.{name}')
