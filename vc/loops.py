"""The rule for loops over lists of symbolic length, and substitution of loop indices in values."""
import functools
import types

from .core import INT, BreakEx, ContinueEx, Infeasible, Raised, ReturnEx, StopSearch, Unsupported, ctx, z3
from .sym import (Atom, Chunk, Digit, GID, IntText, Poison, SBool, SBytes, SDate, SDateTime, SInt, SLazy, SNum, SOpaque,
                  SStr, STime, STimedelta, STimezone, Sym, Thunk)


class Subst:
    """Copies a value, replacing index terms; objects born after `since` are copied, older ones are kept."""

    def __init__(self, pairs, since):
        self.pairs = pairs
        self.since = since
        self.memo = {}

    def t(self, e):
        return z3.substitute(e, *self.pairs) if self.pairs and e is not None else e

    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, str, float, bytes, type)):
            return v
        k = id(v)
        if k in self.memo:
            return self.memo[k][1]
        r = self.copy(v)
        self.memo[k] = (v, r)
        return r

    def part(self, p):
        if isinstance(p, str):
            return p
        if isinstance(p, Atom):
            return Atom(self.t(p.t), p.nochars)
        return type(p)(self.t(p.t))

    def copy(self, v):
        t = self.t
        if isinstance(v, SBool):
            return SBool(t(v.t))
        if isinstance(v, SInt):
            return SInt(t(v.t))
        if isinstance(v, SStr):
            return SStr([self.part(p) for p in v.parts])
        if isinstance(v, SNum):
            return SNum(v.kind, t(v.r), t(v.inf), t(v.nan), None if v.text is None else self(v.text))
        if isinstance(v, SBytes):
            return SBytes(t(v.t), self(v.tree) if v.tree is not None else None, self(v.text) if v.text is not None else None)
        if isinstance(v, SOpaque):
            return SOpaque(t(v.t), v.cls, v.name, {k: self(x) for k, x in v.attrs.items()},
                           v.call._vc_at(self.t) if hasattr(v.call, '_vc_at') else v.call)
        if isinstance(v, SLazy):
            return SLazy([(None if c is None else t(c), self.lazy(x)) for c, x in v.alts], v.name)
        if isinstance(v, Thunk):
            return self.lazy(v)
        if isinstance(v, STimedelta):
            return STimedelta(t(v.secs))
        if isinstance(v, STimezone):
            return STimezone(t(v.secs), v.name)
        if isinstance(v, (SDate, STime, SDateTime)):
            return type(v)(**{k: self(x) for k, x in v.f.items()})
        if isinstance(v, Chunk):
            outer = self

            def entries(j):
                return list(outer.forced(lambda: tuple(v._entries(j))))
            return Chunk(t(v.n), entries, None if v._guard is None else (lambda j: outer.t(v._guard(j))), v.name, v.width)
        if isinstance(v, Sym):
            if isinstance(v, Poison):
                return v
            raise Unsupported(f'substitution in {type(v).__name__}')
        if isinstance(v, tuple):
            return tuple(self(x) for x in v) if type(v) is tuple else v
        if hasattr(type(v), '_vc_at'):
            return v._vc_at(self.t)
        if isinstance(v, types.MethodType):
            return types.MethodType(v.__func__, self(v.__self__))
        if isinstance(v, functools.partial):
            return functools.partial(v.func, *[self(a) for a in v.args], **{k: self(a) for k, a in v.keywords.items()})
        c = ctx()
        if c.born(v) <= self.since:
            return v
        from .interp import VFunc, cls_interpretable
        if isinstance(v, VFunc):
            raise Unsupported('closure created in a loop of symbolic length escapes')
        if isinstance(v, list):
            r = list.__new__(type(v))
            self.memo[id(v)] = (v, r)
            list.extend(r, [self(x) for x in list.__iter__(v)])
            if hasattr(v, '__dict__'):
                for a, x in v.__dict__.items():
                    r.__dict__[a] = self(x)
            self.gid(v, r)
            return c.register(r)
        if isinstance(v, dict):
            r = type(v).__new__(type(v))
            for a, x in v.items():
                dict.__setitem__(r, a, self(x))
            return c.register(r)
        if isinstance(v, (set, frozenset)):
            return v
        if isinstance(v, BaseException):
            return v
        if cls_interpretable(type(v)) or getattr(type(v), '_vc_model', False):
            r = object.__new__(type(v))
            self.memo[id(v)] = (v, r)
            for a, x in v.__dict__.items():
                r.__dict__[a] = self(x)
            self.gid(v, r)
            return c.register(r)
        raise Unsupported(f'substitution in {type(v).__name__}')

    def gid(self, v, r):
        g = GID.get(v)
        if g is not None:
            GID.set(r, g[0], self.t(g[1]))

    def lazy(self, x):
        if isinstance(x, Thunk):
            return Thunk(lambda: self.forced(x.f))
        return self(x)

    def forced(self, f):
        subs = ctx().subs
        if self.pairs:
            subs.append(self.pairs)
        try:
            v = f()
        finally:
            if self.pairs:
                subs.pop()
        return self(v)


def external(effects, since, elem_lo, elem_hi):
    """Effects on objects that existed before the loop body ran."""
    c = ctx()
    out = []
    for e in effects:
        if e[0] in ('lazy', 'note'):
            continue
        obj = e[1]
        b = c.born(obj) if not isinstance(obj, str) else 0
        if b > since:
            if elem_lo < b <= elem_hi:
                raise Unsupported(f'loop of symbolic length changes its elements ({e[0]})')
            continue
        out.append(e)
    return out


KINDS = {'int': (INT, SInt), 'bool': (z3.BoolSort(), SBool), 'str': (z3.StringSort(), SStr.atom)}


def kind_of(v):
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    return 'str' if isinstance(v, (str, SStr)) else None


def loop_chunk(I, ch, body, frames):
    c = ctx()
    c.counter += 1
    j = z3.Int(f'j!{c.counter}')
    since = c.alloc_seq
    snaps = [dict(fr.locals) for fr, _ in frames]

    poisons = {}
    touched = set()     # variables that an iteration which does not leave the loop assigns
    settled = []

    carried = {}    # variables of which an iteration reads what the one before left: their type is the loop's invariant
    loop_id, outer = c.counter, tuple(c.scope)

    scratch = []    # what iterations note down for themselves: (object, attribute), gone when they end
    attrs = []      # attributes of which an iteration reads what the one before left, likewise: (object, name, kind)

    def carry(key, kind, k):
        carried[key] = kind
        return carried_value(f'{key[1]}~{key[0]}', kind, k)

    def carried_value(name, kind, k):
        f = z3.Function(f'{name}~{loop_id}', *([INT] * (len(outer) + 1)), KINDS[kind][0])
        return KINDS[kind][1](f(*outer, k))

    def enter(lim=None, at=None):
        for n, ((fr, names), s) in enumerate(zip(frames, snaps)):
            fr.locals = dict(s)
            for nm in names:
                if nm in fr.localnames and (not settled or (n, nm) in touched):
                    v = poisons.setdefault((n, nm), Poison(nm))
                    if lim is not None:
                        v = Poison(nm)
                        v.resolve = functools.partial(left_value, (n, nm), lim, s)
                    elif at is not None and kind_of(s.get(nm)) is not None:
                        v.resolve = functools.partial(carry, (n, nm), kind_of(s[nm]), at)
                    fr.locals[nm] = v

    def left_value(key, lim, before):
        """What the first `lim` iterations leave in a variable."""
        per = [(cond, [e[3] for e in eff if e[0] == 'local' and e[2] == key]) for cond, eff in norm_locals]
        if any(isinstance(v, Poison) for _, vs in per for v in vs):
            raise Unsupported('value left by a loop')
        if key[1] not in before:
            return last_written(per, lim, lambda: Poison(key[1]))
        return last_written(per, lim, lambda: before[key[1]])

    def last_written(per, lim, otherwise):
        return left_by(ch, j, lim, per, since, otherwise)

    def after_iteration():
        for n, ((fr, names), s) in enumerate(zip(frames, snaps)):
            for nm in names:
                if nm in fr.localnames and nm in fr.locals and fr.locals[nm] is not poisons.get((n, nm)):
                    touched.add((n, nm))
                    v = fr.locals[nm]
                    v = Subst([], since)(v) if keeps_identity(v, since) else Poison(nm)
                    yield ('local', None, (n, nm), v)
                elif nm in fr.localnames and nm not in fr.locals:
                    touched.add((n, nm))
                    yield ('local', None, (n, nm), Poison(nm))

    def restore():
        for (fr, _), s in zip(frames, snaps):
            fr.locals = dict(s)

    rec = {}

    def iteration(k):
        enter(at=k)
        c.assume(z3.And(k >= 0, k < ch.n))
        c.assume(ch.guard(k))
        lo = c.alloc_seq
        rm = len(c.reads)
        es = ch.entries(k)
        del c.reads[rm:]        # what building the element does is no effect of the loop
        rec['elem'] = (lo, c.alloc_seq)
        for obj, key in scratch:
            I.raw_setattr(obj, key, Poison(key))
        for n, (obj, key, kind) in enumerate(attrs):
            I.raw_setattr(obj, key, carried_value(f'{key}~attr{n}', kind, k))
        rec['jm'] = len(c.journal)
        for e in es:
            if isinstance(e, Chunk):
                loop_chunk(I, e, body, frames)
            else:
                try:
                    body(e)
                except ContinueEx:
                    pass

    depth = len(c.marks)

    def generic():
        jm = len(c.journal)
        c.marks.append(jm)
        try:
            return generic_(jm)
        finally:
            del c.marks[depth:]

    def generic_(jm):

        def capture():
            eff = []
            for e in external([x[1] for x in c.journal[rec.get('jm', jm):]], since, *rec.get('elem', (0, 0))):
                if e[0] == 'setattr' and e[2] in getattr(type(e[1]), '_vc_scratch', ()):
                    if not any(e[1] is o and e[2] == k for o, k in scratch):
                        scratch.append((e[1], e[2]))
                else:
                    eff.append(e)
            sn = Subst([], since)
            return [tuple(sn(x) if k > 1 else x for k, x in enumerate(e)) for e in eff]
        try:
            iteration(j)
        except (BreakEx, ReturnEx, StopSearch, Raised) as e:
            e.effects = capture()
            raise
        left = list(after_iteration())
        return capture() + left

    hyp = []
    while True:
        c.scope.append(j)
        rm, noted = len(c.reads), len(scratch)
        old = {id(L): c.lenhyp.get(id(L)) for L, _, _ in hyp}
        for L, base, cnt in hyp:
            c.lenhyp[id(L)] = (L, base, j, cnt)
        try:
            outs = c.subexplore(generic)
        finally:
            c.scope.pop()
            restore()
            for k, h in old.items():
                if h is None:
                    del c.lenhyp[k]
                else:
                    c.lenhyp[k] = h
        reads = c.reads[rm:]
        more = length_only(c, outs, reads, depth, [L for L, _, _ in hyp]) if ch._guard is None else []
        state = carried_attributes(outs, reads, depth, attrs)
        if not more and not state and len(scratch) == noted:
            break
        attrs += state
        # invariant: iteration j starts with j items more in these lists than there were before the loop
        del c.reads[rm:]
        for L in more:
            n = I.m.length(I, L)
            hyp.append((L, n.t if isinstance(n, SInt) else z3.IntVal(n), len(L)))
    for key, kind in carried.items():
        for o in outs:
            for e in (o[1] if o[0] == 'normal' else ()):
                if e[0] == 'local' and e[2] == key and kind_of(e[3]) != kind:
                    raise Unsupported('loop invariant: the variable keeps its type')
    for obj, key, kind in attrs:
        for o in outs:
            for e in (o[1] if o[0] == 'normal' else ()):
                if e[0] == 'setattr' and e[1] is obj and e[2] == key and kind_of(e[3]) != kind:
                    raise Unsupported('loop invariant: the attribute keeps its type')
    for L, _, _ in hyp:
        for o in outs:
            if o[0] == 'normal':
                vs = [e for e in o[1] if e[0] != 'local' and e[1] is L]
                if len(vs) != 1 or vs[0][0] != 'append' or isinstance(vs[0][2], Chunk):
                    raise Unsupported('loop invariant: not one item per iteration')
    if not c.marks:
        c.reads.clear()
    written = [e for o in outs for e in (o[1] if o[0] == 'normal' else getattr(o[1], 'effects', ())) if e[0] != 'local']
    for e in written:
        key = e[2] if e[0] in ('setattr', 'setitem') else None
        for obj, k, t in reads:
            if obj is e[1] and t <= depth and (k is None or k == key or key is None and (k == '#len' or e[0] != 'append')):
                if ch.peeled:
                    raise Unsupported(f'a loop of symbolic length reads what it writes ({e[0]} {key or ""})')
                return peel(I, ch, body, frames)
    if not outs:
        return
    normals = [o for o in outs if o[0] == 'normal']
    exits = [o for o in outs if o[0] != 'normal']
    norm_locals = [(z3.And(*o[2]) if o[2] else z3.BoolVal(True), o[1]) for o in normals]
    norm_eff = [(cond, [e for e in eff if e[0] != 'local']) for cond, eff in norm_locals]

    def cond_at(cond, k):
        return z3.substitute(cond, (j, k))

    def all_normal(lim):
        if not exits and not (len(norm_eff) > 1 and any(has_witness(d) for d, _ in norm_eff)):
            return z3.BoolVal(True)
        k = z3.Int(f'k!{c.counter}')
        c.counter += 1
        ok = z3.Or(*[cond_at(d, k) for d, _ in norm_eff]) if norm_eff else z3.BoolVal(False)
        f = z3.Implies(z3.And(k >= 0, k < lim, ch.guard(k)), ok)
        if ch.reversed:     # speak of the elements by their index in the list itself, so that terms match
            f = z3.simplify(z3.substitute(f, (k, ch.n - 1 - k)), som=True)
        return z3.ForAll([k], f)

    settled.append(True)
    which = c.choose(len(exits) + 1)
    if which == 0:
        c.assume(all_normal(ch.n))
        if not norm_eff and ch._guard is None:
            c.assume(ch.n <= 0)
        apply_effects(I, ch, j, ch.n, norm_eff, since)
        for obj, key in scratch:
            I.raw_setattr(obj, key, Poison(key))
        enter(ch.n)
        return
    e = exits[which - 1]
    i = c.fresh('i', z3.IntSort())
    c.assume(z3.And(i >= 0, i < ch.n, ch.guard(i)))
    c.assume(all_normal(i))
    apply_effects(I, ch, j, i, norm_eff, since)
    if not c.feasible(z3.BoolVal(True)):
        raise Infeasible()
    dc = c.dcs[-1]
    dc.inject = list(e[3]) + dc.inject
    iteration(i)
    raise Unsupported('replay of a loop exit took another path')


def has_witness(e):
    """Does the condition of a path speak of something chosen in the iteration?"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
                return True
            todo.extend(x.children())
    return False


def while_rule(I, s, fr, inv):
    """A while loop with an invariant given by the contract: an object with the methods

    enter(variables): checks that the invariant holds when the loop is reached;
    arbitrary(variables): new values of the variables, in any state the invariant allows;
    turn(before, variables): checks that one turn from such a state keeps the invariant;
    leave(variables): what the invariant is worth where the loop ends because its condition does not hold."""
    c = ctx()
    names = [n for n in sorted(assigned_names_of(s)) if n in fr.localnames]
    known = {k: v for k, v in fr.locals.items() if not isinstance(v, Poison)}
    I.call(I.getattr(inv, 'enter'), [c.register(dict(known))])
    turn = c.choose(2) == 0
    since = c.alloc_seq
    new = I.call(I.getattr(inv, 'arbitrary'), [c.register(dict(known))])
    for n in names:
        if n not in new:
            fr.locals[n] = Poison(n)
    for n, v in new.items():
        fr.locals[n] = v
    before = {k: (c.register(type(v)(v)) if type(v) is list or type(v).__name__ == 'deque' else v) for k, v in new.items()}
    holds = I.truth(I.eval(s.test, fr))
    if turn != holds:
        raise Infeasible()
    if not turn:
        I.call(I.getattr(inv, 'leave'), [c.register({k: v for k, v in fr.locals.items() if not isinstance(v, Poison)})])
        I.block(s.orelse, fr)
        return
    mark = len(c.journal)

    def framed():
        for _, e in c.journal[mark:]:
            if e[0] not in ('lazy', 'note') and (isinstance(e[1], str) or c.born(e[1]) <= since):
                raise Unsupported('a loop with an invariant changes what the invariant does not speak of')
    try:
        I.block(s.body, fr)
    except ContinueEx:
        pass
    except BreakEx:
        return framed()
    except ReturnEx:
        framed()
        raise
    framed()
    I.call(I.getattr(inv, 'turn'), [before, c.register({k: v for k, v in fr.locals.items() if not isinstance(v, Poison)})])
    raise Infeasible()


def assigned_names_of(s):
    from .interp import assigned_names
    return assigned_names([s]).names


def carried_attributes(outs, reads, depth, known):
    """Attributes an iteration reads and writes that hold values of a simple type."""
    out = []
    for o in outs:
        for e in (o[1] if o[0] == 'normal' else getattr(o[1], 'effects', ())):
            if e[0] != 'setattr' or any(e[1] is obj and e[2] == key for obj, key, _ in known + out):
                continue
            if any(obj is e[1] and k == e[2] and t <= depth for obj, k, t in reads):
                kind = kind_of(vars(e[1]).get(e[2]))
                if kind is not None:
                    out.append((e[1], e[2], kind))
    return out


def length_only(c, outs, reads, depth, known):
    """Lists appended to by the loop of which it otherwise uses the length only."""
    out = []
    for o in outs:
        for e in (o[1] if o[0] == 'normal' else ()):
            L = e[1]
            if e[0] == 'append' and isinstance(L, list) and not any(L is x for x in out) and not any(L is x for x in known):
                ks = {k for obj, k, t in reads if obj is L and t <= depth}
                if '#len' in ks and None not in ks:
                    out.append(L)
    return out


def peel(I, ch, body, frames):
    """Run the first iteration by itself, then the others by the loop rule."""
    c = ctx()
    if not c.decide(ch.n > 0):
        return
    if c.decide(ch.guard(z3.IntVal(0))):
        for e in ch.entries(z3.IntVal(0)):
            if isinstance(e, Chunk):
                loop_chunk(I, e, body, frames)
            else:
                try:
                    body(e)
                except ContinueEx:
                    pass
    rest = Chunk(z3.simplify(ch.n - 1), lambda j: ch.entries(z3.simplify(j + 1)),
                 None if ch._guard is None else (lambda j: ch.guard(z3.simplify(j + 1))), ch.name + '+', ch.width)
    rest.peeled = True
    loop_chunk(I, rest, body, frames)


def apply_effects(I, ch, j, lim, norm_eff, since):
    c = ctx()
    if not any(eff for _, eff in norm_eff):
        return
    targets, sets = [], []
    for _, eff in norm_eff:
        for e in eff:
            if e[0] == 'append':
                if not any(e[1] is t for t in targets):
                    targets.append(e[1])
            elif e[0] in ('setattr', 'setitem'):
                if not any(e[0] == s[0] and e[1] is s[1] and e[2] == s[2] for s in sets):
                    sets.append(e[:3])
            else:
                raise Unsupported(f'effect {e[0]} in a loop of symbolic length')

    def sub(k):
        return Subst([(j, k)], since)

    for L in targets:
        per = []
        for cond, eff in norm_eff:
            per.append((cond, [e[2] for e in eff if e[0] == 'append' and e[1] is L]))
        filled = [(cond, vs) for cond, vs in per if vs]
        all_fill = len(filled) == len(per)
        g0 = ch._guard
        width = len(filled[0][1])
        if all(len(vs) == width and not any(isinstance(v, Chunk) for v in vs) for _, vs in filled):
            if len(filled) == 1:
                vs = filled[0][1]
                entries = lambda k, vs=vs: [sub(k)(v) for v in vs]
            else:
                entries = lambda k, filled=filled, width=width: [SLazy(
                    [(z3.substitute(cond, (j, k)), Thunk(lambda v=vs[p]: sub(k)(v))) for cond, vs in filled], 'phi')
                    for p in range(width)]
            if all_fill:
                guard = g0
            else:
                guard = lambda k, filled=filled: z3.And(ch.guard(k), z3.Or(*[z3.substitute(cd, (j, k)) for cd, _ in filled]))
            new = Chunk(lim, entries, guard, ch.name + "'", width)
        elif len(filled) == 1 and all_fill:
            vs = filled[0][1]
            width = None if any(isinstance(v, Chunk) for v in vs) else len(vs)
            new = Chunk(lim, lambda k, vs=vs: (lambda s: [s(v) for v in vs])(sub(k)), g0, ch.name + "'", width)
        else:
            def entries(k, filled=filled):
                out = []
                for cond, vs in filled:
                    cd = z3.substitute(cond, (j, k))
                    out.append(Chunk(z3.IntVal(1), lambda _k, vs=vs: (lambda s: [s(v) for v in vs])(sub(k)),
                                     lambda _k, cd=cd: cd, ch.name + '?',
                                     None if any(isinstance(v, Chunk) for v in vs) else len(vs)))
                return out
            new = Chunk(lim, entries, g0, ch.name + "'", None)
        I.m.list_append(I, L, new)

    for kind, obj, key in sets:
        per = []
        for cond, eff in norm_eff:
            vs = [e[3] for e in eff if e[0] == kind and e[1] is obj and e[2] == key]
            per.append((cond, vs))
        v = left_by(ch, j, lim, per, since, None)
        if v is not NOTHING:
            if kind == 'setattr':
                I.raw_setattr(obj, key, v)
            else:
                I.m.setitem(I, obj, key, v)

def keeps_identity(v, since):
    """Copies of the value stand for the same thing: not so for an object made by the loop."""
    if isinstance(v, SLazy):
        return all(not isinstance(x, Thunk) and keeps_identity(x, since) for _, x in v.alts)
    if v is None or isinstance(v, (bool, int, str, float, bytes, type, SBool, SInt, SStr, SNum, SOpaque)):
        return True
    if isinstance(v, tuple):
        return all(keeps_identity(x, since) for x in v)
    if isinstance(v, BaseException):
        return False
    return GID.get(v) is not None or ctx().born(v) <= since and not isinstance(v, Sym)


NOTHING = object()


def left_by(ch, j, lim, per, since, otherwise):
    """The value the last writing one of the first `lim` iterations wrote; per: what an iteration writes, by its path."""
    c = ctx()

    def sub(k):
        return Subst([(j, k)], since)
    writers = [(cond, vs[-1]) for cond, vs in per if vs]

    def wrote(k):
        ws = z3.BoolVal(True) if len(writers) == len(per) else z3.Or(*[z3.substitute(cd, (j, k)) for cd, _ in writers])
        return z3.And(ch.guard(k), ws)

    simple = ch._guard is None and len(writers) == len(per)
    if simple:
        some = c.decide(lim > 0)
        m = z3.simplify(lim - 1)
    else:
        kk = z3.Int(f'k!{c.counter}')
        c.counter += 1
        some = c.choose(2) == 0
        if some:
            m = c.fresh('last', z3.IntSort())
            c.assume(z3.And(m >= 0, m < lim, wrote(m)))
            c.assume(z3.ForAll([kk], z3.Implies(z3.And(kk > m, kk < lim), z3.Not(wrote(kk)))))
        else:
            c.assume(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < lim), z3.Not(wrote(kk)))))
    if not some:
        return NOTHING if otherwise is None else otherwise()
    if len(writers) == 1:
        return sub(m)(writers[0][1])
    return SLazy([(z3.substitute(cd, (j, m)), Thunk(lambda x=x: sub(m)(x))) for cd, x in writers], 'phi')
