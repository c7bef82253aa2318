"""Symbolic interpreter for the Python source of live functions."""
import ast
import builtins
import functools
import inspect
import linecache
import types
import urllib.parse

from .core import (BreakEx, Budget, ContinueEx, Control, Infeasible, Raised, ReturnEx, StopSearch, Unsupported, ctx, z3)
from .sym import (Chunk, GID, Poison, SBool, SBytes, SDate, SDateTime, SInt, SLazy, SNum, SOpaque, SStr, STime,
                  STimedelta, STimezone, Sym, Thunk, force, is_sym, mkbool, zbool)

INTERP_PREFIXES = ('soapfish', 'iso8601', 'specs', 'vc.spec')
NATIVE_FUNCS = set()     # functions never interpreted
MISSING = object()

_files = {}


def _file_index(filename):
    key = filename
    if key not in _files:
        linecache.checkcache(filename)
        src = ''.join(linecache.getlines(filename))
        idx = {}
        if src:
            for node in ast.walk(ast.parse(src)):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                    name = getattr(node, 'name', '<lambda>')
                    lines = {node.lineno}
                    if isinstance(node, ast.FunctionDef) and node.decorator_list:
                        lines.add(node.decorator_list[0].lineno)
                    for ln in lines:
                        idx.setdefault((name, ln), []).append(node)
        _files[key] = idx
    return _files[key]


def func_node(f):
    co = f.__code__
    nodes = _file_index(co.co_filename).get((co.co_name, co.co_firstlineno), [])
    if len(nodes) > 1:
        nodes = [n for n in nodes if isinstance(n, ast.Lambda)
                 and tuple(a.arg for a in n.args.args) == co.co_varnames[:co.co_argcount]]
    if len(nodes) > 1:
        spans = set(co.co_positions())
        nodes = [n for n in nodes if (n.body.lineno, n.body.end_lineno, n.body.col_offset, n.body.end_col_offset) in spans]
    if len(nodes) != 1:
        raise Unsupported(f'no unique source for {f!r}')
    return nodes[0]


def interpretable(f):
    m = getattr(f, '__module__', None) or ''
    return f not in NATIVE_FUNCS and any(m == p or m.startswith(p + '.') for p in INTERP_PREFIXES)


def cls_interpretable(cls):
    m = getattr(cls, '__module__', None) or ''
    return any(m == p or m.startswith(p + '.') for p in INTERP_PREFIXES)


class _Scope(ast.NodeVisitor):
    def __init__(self):
        self.names, self.glob, self.nonl = set(), set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name.split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.glob.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonl.update(n.names)


_scope_cache = {}


def assigned_names(nodes):
    s = _Scope()
    for n in nodes:
        s.visit(n)
    return s


def local_names(node):
    if node not in _scope_cache:
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        s = assigned_names(body)
        _scope_cache[node] = (params | s.names) - s.glob - s.nonl, s.nonl, s.glob
    return _scope_cache[node]


MAKERS = (urllib.parse.parse_qs,)


class Frame:
    def __init__(self, localnames, globs, parent=None, free=None, func=None, nonl=(), glob=()):
        self.localnames = localnames
        self.locals = {}
        self.globals = globs
        self.parent = parent
        self.free = free or {}
        self.func = func
        self.self_arg = None
        self.nonl = nonl
        self.glob = glob
        self.exc = None


class VFunc:
    """A function object created by interpreted code."""

    def __init__(self, node, frame, defaults, kwdefaults, interp):
        self.node = node
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.interp = interp
        self.__name__ = getattr(node, 'name', '<lambda>')
        self.__module__ = frame.globals.get('__name__')

    def __call__(self, *a, **k):
        try:
            return self.interp.call_vfunc(self, list(a), k)
        except Raised as e:
            raise e.exc

    def __get__(self, obj, objtype=None):
        return self if obj is None else types.MethodType(self, obj)


class GenExp:
    def __init__(self, node, frame, first):
        self.node = node
        self.frame = frame
        self.first = first
        self.used = False


class Entries:
    """Result of an iterator-like builtin: a list of entries, some of which may be Chunks."""

    def __init__(self, items):
        self.items = items


def deep_has_sym(v, depth=4, seen=None):
    if is_sym(v) or isinstance(v, (VFunc, GenExp, Entries)):
        return True
    if depth <= 0 or v is None or isinstance(v, (str, int, float, bytes, type, types.ModuleType)):
        return False
    if isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ == 'deque':
        return any(deep_has_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(deep_has_sym(x, depth - 1) or deep_has_sym(k, 1) for k, x in v.items())
    if getattr(type(v), '_vc_model', False):
        return True
    if isinstance(v, functools.partial):
        return deep_has_sym(v.args, depth - 1) or deep_has_sym(v.keywords, depth - 1) or deep_has_sym(v.func, depth - 1)
    if isinstance(v, types.MethodType):
        return deep_has_sym(v.__self__, depth - 1)
    if cls_interpretable(type(v)) and hasattr(v, '__dict__'):
        return any(deep_has_sym(x, depth - 1) for x in list(v.__dict__.values()))
    return False


class Interp:
    @staticmethod
    def DUMMY_FRAME():
        return Frame(set(), {})

    def __init__(self):
        from . import models
        self.m = models
        self.contracts = {}    # function -> handler(interp, args, kwargs)
        self.dicts = {}        # function -> what stands for the empty dictionaries it makes
        self.invariants = {}   # function -> the invariant of its while loop
        self.call_depth = 0

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        c = ctx()
        c.tick()
        f = force(f)
        args = list(args)
        if isinstance(f, VFunc):
            return self.call_vfunc(f, args, kwargs)
        h = self._contract(f)
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, types.MethodType):
            if getattr(type(f.__self__), '_vc_native', False):
                return f(*args, **kwargs)
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, SOpaque):
            if f.call is None:
                raise Unsupported(f'call of {f.name}')
            return f.call(self, args, kwargs)
        if isinstance(f, Sym):
            raise Raised(TypeError(f'{f.pytype.__name__!r} object is not callable'))
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        if isinstance(f, types.FunctionType):
            h = self.m.FUNCS.get(f)
            if h is not None:
                return h(self, args, kwargs)
            if interpretable(f):
                return self.call_function(f, args, kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.call_class(f, args, kwargs)
        try:
            h = self.m.FUNCS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType, types.WrapperDescriptorType,
                          types.MethodDescriptorType, types.BuiltinFunctionType)):
            return self.m.call_builtin_method(self, f, args, kwargs)
        if hasattr(type(f), '_vc_call'):
            return f._vc_call(self, args, kwargs)
        cm = getattr(type(f), '__call__', None)
        if isinstance(cm, types.FunctionType):
            return self.call(cm, [f] + args, kwargs)
        return self.native(f, args, kwargs)

    def _contract(self, f):
        if isinstance(f, Sym):
            return None
        try:
            return self.contracts.get(f)
        except TypeError:
            return None

    def native(self, f, args, kwargs):
        if any(deep_has_sym(a) for a in args) or any(deep_has_sym(v) for v in kwargs.values()):
            args = [self.m.concretize_shallow(a) for a in args]
            kwargs = {k: self.m.concretize_shallow(v) for k, v in kwargs.items()}
            if any(deep_has_sym(a) for a in args) or any(deep_has_sym(v) for v in kwargs.values()):
                raise Unsupported(f'no model of {getattr(f, "__qualname__", f)!s} for symbolic arguments')
        try:
            r = f(*args, **kwargs)
        except Control:
            raise
        except Exception as e:
            raise Raised(e) from None
        if type(r) in (list, dict) and (isinstance(getattr(f, '__self__', None), (str, bytes)) or f in MAKERS):
            ctx().register(r)
        return r

    def call_function(self, f, args, kwargs):
        node = func_node(f)
        ctx().functions.add(f'{f.__module__}.{f.__qualname__}')
        ln, nonl, glob = local_names(node)
        free = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))
        fr = Frame(ln, f.__globals__, None, free, f, nonl, glob)
        return self.run(node, fr, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__name__)

    def call_vfunc(self, f, args, kwargs):
        ln, nonl, glob = local_names(f.node)
        fr = Frame(ln, f.frame.globals, f.frame, None, f, nonl, glob)
        return self.run(f.node, fr, args, kwargs, f.defaults, f.kwdefaults, f.__name__)

    def run(self, node, fr, args, kwargs, defaults, kwdefaults, name):
        self.bind(node.args, fr, args, kwargs, defaults, kwdefaults, name)
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) and self._owner(node, n):
                raise Unsupported(f'generator function {name}')
        self.call_depth += 1
        if self.call_depth > 120:
            self.call_depth -= 1
            raise Unsupported('recursion too deep')
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.call_depth -= 1

    _own_cache = {}

    def _owner(self, node, n):
        key = (node, n)
        if key not in self._own_cache:
            def has(x):
                for ch in ast.iter_child_nodes(x):
                    if ch is n:
                        return True
                    if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                        continue
                    if has(ch):
                        return True
                return False
            self._own_cache[key] = has(node)
        return self._own_cache[key]

    def bind(self, a, fr, args, kwargs, defaults, kwdefaults, name):
        kwargs = dict(kwargs)
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = fr.locals
        if len(args) > len(pos) and not a.vararg:
            raise Raised(TypeError(f'{name}() takes {len(pos)} positional arguments but {len(args)} were given'))
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        first_def = len(pos) - len(defaults)
        posonly = {x.arg for x in a.posonlyargs}
        for k, n in enumerate(pos):
            if n in kwargs and n not in posonly:
                if n in loc:
                    raise Raised(TypeError(f'{name}() got multiple values for argument {n!r}'))
                loc[n] = kwargs.pop(n)
            elif n not in loc:
                if k >= first_def:
                    loc[n] = defaults[k - first_def]
                else:
                    raise Raised(TypeError(f'{name}() missing required argument {n!r}'))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise Raised(TypeError(f'{name}() missing keyword argument {x.arg!r}'))
        if a.kwarg:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            raise Raised(TypeError(f'{name}() got an unexpected keyword argument {next(iter(kwargs))!r}'))
        fr.self_arg = loc.get(pos[0]) if pos else None

    def call_class(self, cls, args, kwargs):
        try:
            h = self.m.CLASSES.get(cls)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kwargs)
        if cls in (type,):
            if len(args) == 1:
                return self.m.py_type(force(args[0]))
        new, init = cls.__new__, cls.__init__
        inew = isinstance(new, types.FunctionType) and interpretable(new)
        iinit = isinstance(init, types.FunctionType) and interpretable(init)
        meta_call = type(cls).__call__
        if meta_call is not type.__call__ or not (inew or iinit or cls_interpretable(cls) or issubclass(cls, BaseException)):
            return ctx().register(self.native(cls, args, kwargs))
        if inew:
            obj = self.call(new, [cls] + args, kwargs)
        elif new is object.__new__:
            if (args or kwargs) and init is object.__init__:
                raise Raised(TypeError(f'{cls.__name__}() takes no arguments'))
            obj = object.__new__(cls)
        elif issubclass(cls, BaseException):
            if (cls.__module__ or '').startswith('lxml'):
                return ctx().register(self.native(cls, args, kwargs))
            obj = cls.__new__(cls, *args)
        elif issubclass(cls, (list, dict, set)):
            obj = cls.__new__(cls)
        else:
            return ctx().register(self.native(cls, args, kwargs))
        ctx().register(obj)
        if isinstance(obj, cls):
            if isinstance(init, types.FunctionType):
                self.call(init, [obj] + args, kwargs)
            elif init is not object.__init__ and not issubclass(cls, BaseException):
                self.m.call_builtin_method(self, types.MethodType(init, obj) if False else init.__get__(obj), args, kwargs)
        return obj

    # ------------------------------------------------------------------ attributes
    def getattr(self, obj, name, default=MISSING):
        obj = force(obj)
        if isinstance(obj, Poison):
            return obj
        c = ctx()
        if c.marks and not isinstance(obj, (types.ModuleType, types.FunctionType, super)):
            c.read(obj, name)
        try:
            if isinstance(obj, Sym) or hasattr(type(obj), '_vc_getattr'):
                return self.m.attr_sym(self, obj, name)
            if isinstance(obj, super):
                # bound super object: native lookup is right, except that properties are interpreted
                mro = obj.__self_class__.__mro__
                for k in mro[mro.index(obj.__thisclass__) + 1:]:
                    d = k.__dict__.get(name, MISSING)
                    if d is not MISSING:
                        if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and interpretable(d.fget) \
                                and not isinstance(obj.__self__, type):
                            return self.call(d.fget, [obj.__self__])
                        break
                return getattr(obj, name)
            cls = type(obj)
            if not isinstance(obj, type):
                for k in cls.__mro__:
                    d = k.__dict__.get(name, MISSING)
                    if d is not MISSING:
                        if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and interpretable(d.fget):
                            return self.call(d.fget, [obj])
                        if isinstance(d, VFunc):
                            if name not in getattr(obj, '__dict__', {}):
                                return types.MethodType(d, obj)
                        break
            return force(getattr(obj, name))
        except Raised as e:
            if default is not MISSING and isinstance(e.exc, AttributeError):
                return default
            raise
        except Control:
            raise
        except AttributeError as e:
            if default is not MISSING:
                return default
            raise Raised(e) from None
        except Exception as e:
            raise Raised(e) from None

    def setattr(self, obj, name, value):
        obj = force(obj)
        name = force(name)
        if isinstance(obj, Sym) or hasattr(type(obj), '_vc_setattr'):
            return self.m.setattr_sym(self, obj, name, value)
        sa = None if isinstance(obj, type) else type(obj).__setattr__
        if isinstance(sa, types.FunctionType) and interpretable(sa):
            self.call(sa, [obj, name, value])
            return
        if isinstance(name, str) and not isinstance(obj, type):
            for k in type(obj).__mro__:
                d = k.__dict__.get(name, MISSING)
                if isinstance(d, property):
                    if d.fset is None:
                        raise Raised(AttributeError(name))
                    self.call(d.fset, [obj, value])
                    return
                if d is not MISSING:
                    break
        self.raw_setattr(obj, name, value)

    def raw_setattr(self, obj, name, value):
        name = force(name)
        if isinstance(name, SStr):
            return self.m.setattr_symname(self, obj, name, value)
        old = MISSING
        d = obj.__dict__ if hasattr(obj, '__dict__') else None
        if d is not None and name in d:
            old = d[name]
        elif d is None and hasattr(obj, name):
            old = getattr(obj, name)
        if old is value:
            ctx().log(lambda: None, ('setattr', obj, name, value))
            return
        if isinstance(obj, type):
            try:
                type.__setattr__(obj, name, value)
            except Exception as e:
                raise Raised(e) from None

            def undo():
                if old is MISSING:
                    type.__delattr__(obj, name)
                else:
                    type.__setattr__(obj, name, old)
        else:
            try:
                object.__setattr__(obj, name, value)
            except Exception as e:
                raise Raised(e) from None

            def undo():
                if old is MISSING:
                    object.__delattr__(obj, name)
                else:
                    object.__setattr__(obj, name, old)
        ctx().log(undo, ('setattr', obj, name, value))

    # ------------------------------------------------------------------ names
    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.localnames:
                if name in f.locals:
                    v = f.locals[name]
                    if type(v) is Poison and v.resolve is not None:
                        v = f.locals[name] = v.resolve()
                    return v
                if f is fr:
                    raise Raised(UnboundLocalError(name))
                raise Raised(NameError(name))
            if name in f.free:
                try:
                    return f.free[name].cell_contents
                except ValueError:
                    raise Raised(NameError(name)) from None
            f = f.parent
        if name in fr.globals:
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Raised(NameError(f'name {name!r} is not defined'))

    def store(self, name, value, fr):
        if name in fr.nonl:
            if ctx().marks:
                raise Unsupported('nonlocal store in a loop of symbolic length')
            f = fr.parent
            while f is not None:
                if name in f.localnames:
                    f.locals[name] = value
                    return
                f = f.parent
            if name in fr.free:
                raise Unsupported('nonlocal store to a native cell')
        if name in fr.glob:
            g, old = fr.globals, fr.globals.get(name, MISSING)
            g[name] = value

            def undo():
                if old is MISSING:
                    g.pop(name, None)
                else:
                    g[name] = old
            ctx().log(undo, ('global', name, value))
            return
        if name not in fr.localnames and fr.parent is not None:   # walrus in a comprehension
            f = fr.parent
            while name not in f.localnames and f.parent is not None:
                f = f.parent
            f.locals[name] = value
            return
        fr.locals[name] = value

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        ctx().tick()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        return m(s, fr)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id, fr)
            get, put = None, (lambda v: self.store(t.id, v, fr))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, self.mangle(t.attr, fr))
            put = lambda v: self.setattr(o, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            old = self.m.getitem(self, o, k)
            put = lambda v: self.m.setitem(self, o, k, v)
        else:
            raise Unsupported('augmented assignment target')
        old = force(old)
        if isinstance(old, list) and isinstance(s.op, ast.Add):
            self.m.list_extend(self, old, self.eval(s.value, fr))
            put(old)
            return
        put(self.m.binop(self, s.op, old, self.eval(s.value, fr), inplace=True))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = force(self.eval(t.value, fr))
            self.m.setitem(self, o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.m.unpack(self, v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise Raised(ValueError('not enough values to unpack'))
                mid = items[k:len(items) - after]
                items = items[:k] + [list(mid)] + items[len(items) - after:]
                for e, x in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.locals:
                    del fr.locals[t.id]
                else:
                    raise Raised(NameError(t.id))
            elif isinstance(t, ast.Subscript):
                self.m.delitem(self, force(self.eval(t.value, fr)), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.m.delattr_(self, force(self.eval(t.value, fr)), t.attr)
            else:
                raise Unsupported('del target')

    def x_Return(self, s, fr):
        raise ReturnEx(None if s.value is None else self.eval(s.value, fr))

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def x_While(self, s, fr):
        inv = self.invariants.get(fr.func) if isinstance(fr.func, types.FunctionType) else None
        if inv is not None:
            from .loops import while_rule
            return while_rule(self, s, fr, inv)
        n = 0
        while True:
            v = self.eval(s.test, fr)
            if isinstance(force(v), Sym):
                n += 1
            if not self.truth(v):
                break
            if n > 12:
                raise Unsupported('while loop with a symbolic condition')
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        names = assigned_names([s]).names

        def body(v):
            self.assign(s.target, v, fr)
            self.block(s.body, fr)
        try:
            self.for_each(it, body, fr, names)
        except BreakEx:
            return
        self.block(s.orelse, fr)

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is None:
                raise Raised(RuntimeError('No active exception to reraise'))
            raise Raised(f.exc)
        e = force(self.eval(s.exc, fr))
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [])
        if s.cause is not None:
            cause = force(self.eval(s.cause, fr))
            if isinstance(e, BaseException) and isinstance(cause, (BaseException, type(None))):
                e.__cause__ = cause
        if isinstance(e, SOpaque) and issubclass(e.cls, BaseException):
            raise Raised(e)
        if not isinstance(e, BaseException):
            raise Raised(TypeError('exceptions must derive from BaseException'))
        raise Raised(e)

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise Raised(AssertionError('line %d' % s.lineno))

    def exc_matches(self, exc, typ):
        typ = force(typ)
        if isinstance(typ, tuple):
            return any(self.exc_matches(exc, t) for t in typ)
        if isinstance(exc, SOpaque):
            return self.m.isinstance_(self, exc, typ)
        return isinstance(exc, typ)

    def x_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Raised as r:
                for h in s.handlers:
                    if h.type is None or self.truth(self.exc_matches(r.exc, self.eval(h.type, fr))):
                        old = fr.exc
                        fr.exc = r.exc
                        if h.name:
                            self.store(h.name, r.exc, fr)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (Infeasible, Unsupported):
            raise
        except Control:
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def x_With(self, s, fr):
        def go(items):
            if not items:
                return self.block(s.body, fr)
            it = items[0]
            cm = force(self.eval(it.context_expr, fr))
            if is_sym(cm):
                raise Unsupported('with on a symbolic value')
            v = self.call(self.getattr(cm, '__enter__'), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                go(items[1:])
            except Raised as r:
                e = r.exc
                if not isinstance(e, BaseException):
                    raise Unsupported('symbolic exception in with') from None
                if not self.truth(self.call(self.getattr(cm, '__exit__'), [type(e), e, None])):
                    raise
            except (ReturnEx, BreakEx, ContinueEx):
                self.call(self.getattr(cm, '__exit__'), [None, None, None])
                raise
            else:
                self.call(self.getattr(cm, '__exit__'), [None, None, None])
        go(s.items)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f])
        self.store(s.name, f, fr)

    def make_func(self, node, fr):
        a = node.args
        defaults = tuple(self.eval(d, fr) for d in a.defaults)
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return ctx().register(VFunc(node, fr, defaults, kwd, self))

    def x_ClassDef(self, s, fr):
        env = {}
        chain, f = [], fr
        while f is not None:
            chain.append(f)
            f = f.parent
        for f in reversed(chain):
            for k, c in f.free.items():
                try:
                    env[k] = c.cell_contents
                except ValueError:
                    pass
            env.update(f.locals)
        g = dict(fr.globals)
        g.update(env)
        node = ast.Module([s], [])
        fn = getattr(fr.func, '__code__', None)
        filename = fn.co_filename if fn else '<class>'
        ns = {}
        try:
            exec(compile(node, filename, 'exec'), g, ns)
        except Control:
            raise
        except Exception as e:
            raise Raised(e) from None
        self.store(s.name, ns[s.name], fr)

    def x_Import(self, s, fr):
        for a in s.names:
            mod = self.native(__import__, [a.name], {'globals': fr.globals})
            if a.asname:
                for p in a.name.split('.')[1:]:
                    mod = getattr(mod, p)
                self.store(a.asname, mod, fr)
            else:
                self.store(a.name.split('.')[0], mod, fr)

    def x_ImportFrom(self, s, fr):
        mod = self.native(__import__, [s.module or '', fr.globals, None, [a.name for a in s.names], s.level], {})
        for a in s.names:
            v = self.getattr(mod, a.name)
            self.store(a.asname or a.name, self.m.imported(v), fr)

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    # ------------------------------------------------------------------ loops
    def entries(self, it):
        """The entries (values and Chunks) an iterable yields."""
        it = force(it)
        return self.m.iter_entries(self, it)

    def for_each(self, it, body, fr, assigned=()):
        it = force(it)
        if isinstance(it, GenExp):
            if it.used:
                return
            it.used = True
            self.run_comp(it.node.generators, 0, it.frame, lambda f: body(self.eval(it.node.elt, f)), it.first,
                          outer=(fr, assigned))
            return
        for e in self.entries(it):
            if isinstance(e, Chunk):
                self.loop_chunk(e, body, fr, assigned)
            else:
                try:
                    body(e)
                except ContinueEx:
                    pass

    def run_comp(self, gens, k, fr, emit, first=None, outer=None):
        if k == len(gens):
            emit(fr)
            return
        g = gens[k]
        it = first if k == 0 else self.eval(g.iter, fr)
        names = assigned_names([g.target]).names

        def body(v):
            self.assign(g.target, v, fr)
            for c in g.ifs:
                if not self.truth(self.eval(c, fr)):
                    return
            self.run_comp(gens, k + 1, fr, emit, None, outer)
        frames = [(fr, names)]
        if outer is not None:
            frames.append(outer)
        self.for_each_frames(it, body, frames)

    def for_each_frames(self, it, body, frames):
        it = force(it)
        if isinstance(it, GenExp):
            return self.for_each(it, body, *frames[0])
        for e in self.entries(it):
            if isinstance(e, Chunk):
                self.loop_chunk(e, body, frames[0][0], frames[0][1], frames[1:])
            else:
                try:
                    body(e)
                except ContinueEx:
                    pass

    def loop_chunk(self, ch, body, fr, assigned, more=()):
        from .loops import loop_chunk
        return loop_chunk(self, ch, body, [(fr, assigned)] + list(more))

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        v = force(v)
        if v is True or v is False:
            return v
        return self.m.truth(self, v)

    def eval(self, n, fr):
        ctx().tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), self.mangle(n.attr, fr))

    @staticmethod
    def mangle(name, fr):
        if not name.startswith('__') or name.endswith('__'):
            return name
        f = fr
        while f is not None:
            q = getattr(f.func, '__qualname__', '').split('.')
            if len(q) > 1 and q[-2] != '<locals>':
                return '_' + q[-2].lstrip('_') + name
            f = f.parent
        return name

    def e_Subscript(self, n, fr):
        o = force(self.eval(n.value, fr))
        return self.m.getitem(self, o, self.eval(n.slice, fr))

    def e_Slice(self, n, fr):
        return slice(*(None if x is None else force(self.eval(x, fr)) for x in (n.lower, n.upper, n.step)))

    def e_Starred(self, n, fr):
        raise Unsupported('starred expression')

    def seq(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.entries(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_List(self, n, fr):
        return ctx().register(self.seq(n.elts, fr))

    def e_Tuple(self, n, fr):
        return tuple(self.seq(n.elts, fr))

    def e_Set(self, n, fr):
        return self.m.make_set(self, self.seq(n.elts, fr))

    def e_Dict(self, n, fr):
        if not n.keys and self.dicts and fr.func in self.dicts:
            return self.call(self.dicts[fr.func], [])
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = force(self.eval(v, fr))
                if is_sym(x) or not isinstance(x, dict):
                    raise Unsupported('dict unpacking')
                d.update(x)
            else:
                kk = force(self.eval(k, fr))
                if isinstance(kk, Sym):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.eval(v, fr)
        return ctx().register(d)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for e in n.values:
            v = self.eval(e, fr)
            if e is n.values[-1]:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            v = force(v)
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        return self.m.unop(self, n.op, force(v))

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        return self.m.binop(self, n.op, a, self.eval(n.right, fr))

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, fr)
            v = self.m.compare(self, op, left, right)
            if k == len(n.ops) - 1:
                return v
            if not self.truth(v):
                return False
            left = right

    def e_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.store(n.target.id, v, fr)
        return v

    def e_Call(self, n, fr):
        fn = n.func
        if isinstance(fn, ast.Name):
            if fn.id == 'super' and not n.args:
                return self.zero_super(fr)
            if fn.id == 'locals' and not n.args and self.load('locals', fr) is builtins.locals:
                d = dict(fr.locals)
                for k, c in fr.free.items():
                    try:
                        d[k] = c.cell_contents
                    except ValueError:
                        pass
                return d
            if fn.id in ('vars', 'globals', 'eval', 'exec') and not n.args:
                raise Unsupported(fn.id)
        f = self.eval(fn, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                es = self.entries(self.eval(a.value, fr))
                if any(isinstance(e, Chunk) for e in es):
                    if force(f) in self.m.STAR_OK:
                        args.extend(es)
                        continue
                    raise Unsupported('call with a starred list of symbolic length')
                args.extend(es)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = force(self.eval(k.value, fr))
                if not isinstance(d, dict):
                    raise Unsupported('** of a non-dict')
                for kk, v in d.items():
                    kwargs[kk] = v
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def zero_super(self, fr):
        f = fr
        while f is not None:
            if '__class__' in f.free:
                return super(f.free['__class__'].cell_contents, f.self_arg)
            f = f.parent
        raise Unsupported('super() without class')

    def e_GeneratorExp(self, n, fr):
        first = self.eval(n.generators[0].iter, fr)
        return GenExp(n, self.comp_frame(n, fr), first)

    def comp_frame(self, n, fr):
        names = set()
        for g in n.generators:
            names |= assigned_names([g.target]).names
        f = Frame(names, fr.globals, fr, None, fr.func)
        f.self_arg = fr.self_arg
        return f

    def e_ListComp(self, n, fr):
        out = ctx().register([])
        first = self.eval(n.generators[0].iter, fr)
        f = self.comp_frame(n, fr)
        self.run_comp(n.generators, 0, f, lambda f: self.m.list_append(self, out, self.eval(n.elt, f)), first)
        return out

    def e_SetComp(self, n, fr):
        out = ctx().register([])
        first = self.eval(n.generators[0].iter, fr)
        f = self.comp_frame(n, fr)
        self.run_comp(n.generators, 0, f, lambda f: self.m.list_append(self, out, self.eval(n.elt, f)), first)
        return self.m.make_set(self, out)

    def e_DictComp(self, n, fr):
        out = ctx().register({})
        first = self.eval(n.generators[0].iter, fr)
        f = self.comp_frame(n, fr)

        def emit(f):
            k = force(self.eval(n.key, f))
            self.m.setitem(self, out, k, self.eval(n.value, f))
        self.run_comp(n.generators, 0, f, emit, first)
        return out

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = '' if v.format_spec is None else self.eval(v.format_spec, fr)
                s = self.m.format_value(self, x, v.conversion, spec)
                parts.extend(self.m.parts_of(s))
        return self.m.mkstr(parts)

    def e_FormattedValue(self, n, fr):
        return self.e_JoinedStr(ast.JoinedStr([n]), fr)
