"""
Symbolic interpreter over the AST of the real functions.

The text that is interpreted is the text of the file the imported function comes from (located through its code object),
parsed on every run. What is dropped: docstrings, annotations, type comments, decorators that return the function unchanged
in kind (the interpreter starts from the decorated object and refuses what it does not know).
"""
import sys
import os, ast, inspect, types, builtins, sys, functools, operator
import z3
from .engine import *
from .engine import I, B, SEQ, OBJ
from .heap import *
from . import models


REPO_PREFIX = 'scarletio'


class PyExc(Exception):
    """A Python-level exception raised by the interpreted program."""
    def __init__(self, value):
        self.value = value
    def __str__(self):
        v = self.value
        return f'PyExc({getattr(getattr(v, "cls", None), "__name__", v)})'


Interp_PyExc = PyExc

class MissingName(Exception):
    def __init__(self, name): self.name = name


class _Undef:
    def __repr__(self): return '<undefined>'
UNDEF = _Undef()


class LazyVar:
    """A local havocked at a loop head; its kind is picked when it is read."""
    __slots__ = ('key', 'name', 'factory')
    def __init__(self, key, name, factory=None): self.key = key; self.name = name; self.factory = factory


_file_asts = {}
def file_ast(filename):
    r = _file_asts.get(filename)
    if r is None:
        with open(filename, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, filename)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                index[(n.name, first)] = n
            elif isinstance(n, ast.Lambda):
                index.setdefault(('<lambda>', n.lineno), n)
        r = _file_asts[filename] = (tree, index)
    return r


def function_ast(fn):
    code = fn.__code__
    try:
        _, index = file_ast(code.co_filename)
    except (OSError, SyntaxError):
        return None
    return index.get((code.co_name, code.co_firstlineno))


class Frame:
    __slots__ = ('locals', 'globals', 'cells', 'fn_name', 'node', 'local_names', 'native', 'cls_cell', 'self_first', 'loop_ord', 'globals_decl')
    def __init__(self):
        self.locals = {}
        self.cells = {}
        self.cls_cell = None
        self.globals_decl = ()


class Cell:
    """variable shared with nested functions: refers to the locals of the defining frame"""
    __slots__ = ('frame_locals', 'name')
    def __init__(self, fl, name): self.frame_locals = fl; self.name = name


_scope_cache = {}
def scope_info(node):
    """-> (assigned local names, loops in source order, is_generator)"""
    r = _scope_cache.get(node)
    if r is not None: return r
    names = set(); loops = []; gen = [False]; nonlocals = set(); globs = set()
    args = node.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        names.add(a.arg)
    if args.vararg: names.add(args.vararg.arg)
    if args.kwarg: names.add(args.kwarg.arg)
    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]: visit(d)
            return
        if isinstance(n, ast.ClassDef):
            names.add(n.name); return
        if isinstance(n, ast.Lambda) and not top:
            for d in n.args.defaults: visit(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            loops.append(n)
            visit(n.generators[0].iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: names.add((a.asname or a.name).split('.')[0])
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)): loops.append(n)
        if isinstance(n, (ast.Yield, ast.YieldFrom)): gen[0] = True
        if isinstance(n, ast.Nonlocal): nonlocals.update(n.names)
        if isinstance(n, ast.Global): globs.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body: visit(s)
    r = _scope_cache[node] = (names - nonlocals - globs, loops, gen[0])
    return r


_assigned_cache = {}
def assigned_in(nodes):
    key = tuple(id(n) for n in nodes)
    r = _assigned_cache.get(key)
    if r is not None: return r[0]
    out = set()
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name); return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        for c in ast.iter_child_nodes(n): visit(c)
    for n in nodes: visit(n)
    _assigned_cache[key] = (out, nodes)
    return out


def kind_of(v):
    if v is None: return ('none',)
    if isinstance(v, (SBool, bool)): return ('bool',)
    if isinstance(v, (SInt, int)): return ('int',)
    if isinstance(v, (SReal, float)): return ('real',)
    if isinstance(v, str): return ('str',)
    if isinstance(v, (bytes,)): return ('bytes',)
    if isinstance(v, SSeq): return (v.kind,)
    if isinstance(v, tuple): return ('tuple', tuple(kind_of(e) for e in v))
    if isinstance(v, Opaque): return ('opaque', v.iface)
    if isinstance(v, Heap): return ('heap', v.oid)
    if isinstance(v, (OpaqueMethod,)): return ('complex', repr(type(v)))
    if isinstance(v, (Closure, Bound, BuiltinMethod)): return ('complex', repr(type(v)))
    return ('native', v) if _hashable(v) else ('complex', repr(type(v)))

def _same(a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, SSeq) and isinstance(b, SSeq): return a.t.eq(b.t)
    if isinstance(a, (int, str, bytes, float, type(None))): return type(a) is type(b) and a == b
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a.t.eq(b.t)
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return False

def _hashable(v):
    try: hash(v)
    except Exception: return False
    return True


def fresh_of_kind(ctx, kind, name):
    k = kind[0]
    if k == 'none': return None
    if k == 'bool': return ctx.bool(name, record=False)
    if k == 'int': return ctx.int(name, record=False)
    if k == 'real': return SReal(ctx.fresh(name, z3.RealSort()))
    if k in ('str', 'bytes', 'view'): return SSeq(ctx.fresh(name, SEQ), k)
    if k == 'tuple': return tuple(fresh_of_kind(ctx, e, f'{name}_{i}') for i, e in enumerate(kind[1]))
    if k == 'opaque': return Opaque(ctx.fresh(name, OBJ), kind[1])
    if k == 'native': return kind[1]
    raise Unsupported(f'loop variable {name} of kind {kind}')


class L:
    """View of the state handed to loop invariants. L.x: current value of local x as a raw value; L.t('x'): as term."""
    def __init__(self, interp, frame, spec_env, mapping, entry=None):
        self.__dict__.update(interp=interp, frame=frame, env=spec_env, mapping=mapping, entry=entry, ctx=interp.ctx, ghost=interp.ctx.ghost)
    def get(self, name):
        env = self.__dict__['env']
        if name in env: return env[name]
        frame = self.__dict__['frame']
        n = self.__dict__['mapping'].get(name, name)
        if n in frame.locals:
            v = self.interp.read_local(frame, n)
            if v is not UNDEF: return v
        if n in frame.cells:
            return self.interp.load_name_frame(frame, n)
        raise MissingName(name)
    def __getattr__(self, name):
        return self.get(name)
    def t(self, name):
        return term(self.get(name))
    def has(self, name):
        try: self.get(name)
        except MissingName: return False
        return True


class Loop:
    """Loop contract. inv(L) -> bool terms (list or dict name -> term); dec(L) -> integer term that is >= 0 and decreases.
    shapes: local name -> factory(ctx) for a havocked local, heap: (object getter, location) -> handled by Havoc.
    extra_havoc(L): called after the havoc, for ghost state."""
    def __init__(self, inv, dec=None, shapes=None, havoc=None, on_entry=None, on_step=None, name=None, lists=None, at_exit=None, on_head=None):
        self.inv = inv
        self.dec = dec
        self.shapes = shapes or {}
        self.havoc = havoc
        self.on_entry = on_entry
        self.on_step = on_step
        self.name = name
        self.lists = lists or {}
        self.at_exit = at_exit
        self.on_head = on_head
        self.claimed = None


class ActiveLoop:
    def __init__(self, key, oid, havocked):
        self.key = key; self.oid = oid; self.havocked = havocked


class Interp:
    PyExc = PyExc
    def __init__(self, ctx):
        self.ctx = ctx
        ctx.interp = self
        self.depth = 0
        self.stack = []

    # ---------------------------------------------------------------- exceptions
    def raise_(self, cls, *args):
        if cls is TypeError:
            # a model that gives up on an abstract value must not be taken for a type error of the program
            f = sys._getframe(1)
            if f.f_code.co_filename == models.__file__:
                for v in f.f_locals.values():
                    for x in (v if isinstance(v, (list, tuple)) else (v,)):
                        if isinstance(x, Opaque) and not getattr(x.iface, 'typed', False): raise Unsupported(f'operation on {x!r}')
        raise PyExc(Inst(self.ctx, cls, {'args': tuple(args)}))

    # ---------------------------------------------------------------- names
    def read_local(self, frame, name):
        v = frame.locals.get(name, UNDEF)
        if isinstance(v, LazyVar):
            if v.factory is not None:
                v = v.factory(self.ctx)
            else:
                kinds = self.ctx.x.loop_shapes.get((v.key, v.name)) or []
                kinds = list(kinds)
                if not kinds:
                    raise Unsupported(f'loop variable {name} read before it is assigned')
                k = self.ctx.choose(len(kinds), 'kind')
                v = fresh_of_kind(self.ctx, kinds[k], v.name)
            frame.locals[name] = v
        return v

    def load_name_frame(self, frame, name):
        if name in frame.locals:
            v = self.read_local(frame, name)
            if v is UNDEF:
                self.raise_(UnboundLocalError, name)
            return v
        c = frame.cells.get(name)
        if c is not None:
            if isinstance(c, Cell):
                v = self.read_local_dict(c)
                return v
            return self.import_native(c.cell_contents)
        if name in frame.local_names and name not in frame.globals_decl:
            self.raise_(UnboundLocalError, name)
        return self.load_global(frame.globals, name)

    def read_local_dict(self, c):
        fl = c.frame_locals
        return self.load_name_frame(fl, c.name)

    def load_global(self, globs, name):
        ov = self.ctx.ghost.get('globals')
        if ov is not None:
            k = (globs.get('__name__'), name)
            if k in ov: return ov[k]
            if (None, name) in ov: return ov[(None, name)]
        if name in globs: return self.import_native(globs[name])
        if hasattr(builtins, name): return getattr(builtins, name)
        self.raise_(NameError, name)

    def import_native(self, v):
        return v

    def store_name(self, frame, name, v):
        c = frame.cells.get(name)
        if c is not None and name not in frame.local_names:
            if isinstance(c, Cell):
                self.ctx_touch_cell(c)
                c.frame_locals.locals[c.name] = v
                return
            raise Unsupported('store to a native closure cell')
        if name in frame.globals_decl:
            raise Unsupported('store to a global')
        frame.locals[name] = v

    def ctx_touch_cell(self, c):
        if self.ctx.loops:
            raise Unsupported('store to an outer function variable inside an unbounded loop')

    # ---------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        ctx = self.ctx
        kwargs = kwargs or {}
        args = list(args)
        ctx.step()
        key = f
        if _hashable(key):
            h = ctx.handlers.get(key)
            if h is not None:
                return h(ctx, *args, **kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + args, kwargs)
        if isinstance(f, Closure):
            return self.run_closure(f, args, kwargs)
        if isinstance(f, BuiltinMethod):
            return models.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, BuiltinMethodOf):
            if f.o.base is not None and hasattr(models.pytype(f.o.base), f.name):
                return models.call_method(self, f.o.base, f.name, args, kwargs, owner=f.o)
            return models.object_method(self, f.o, f.name, args, kwargs)
        if isinstance(f, OpaqueMethod):
            return getattr(f.o.iface, 'm_' + f.name)(ctx, f.o, *args, **kwargs)
        if isinstance(f, Opaque):
            return f.iface.call(ctx, f, args, kwargs)
        if isinstance(f, (functools.partial, models.PartialV)):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, Inst):
            m = self.class_lookup(f.cls, '__call__')
            if m is None: self.raise_(TypeError, 'not callable')
            return self.call(m, [f] + args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            h = models.FUNCTIONS.get(f)
            if h is not None:
                return h(self, args, kwargs)
            mod = f.__module__ or ''
            if mod.split('.')[0] == REPO_PREFIX or getattr(f, '__pv_interpret__', False):
                return self.run_native_function(f, args, kwargs)
            return self.native_call(f, args, kwargs)
        h = models.FUNCTIONS.get(f) if _hashable(f) else None
        if h is not None:
            return h(self, args, kwargs)
        # method descriptors / slot wrappers of builtins:  dict.get(self, ...), list.__len__
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            if args:
                obj = args[0]
                if isinstance(obj, Inst) and obj.base is not None:
                    return models.call_method(self, obj.base, f.__name__, args[1:], kwargs, owner=obj)
                if isinstance(obj, Inst):
                    return models.object_method(self, obj, f.__name__, args[1:], kwargs)
                return models.call_method(self, obj, f.__name__, args[1:], kwargs)
        if isinstance(f, types.ClassMethodDescriptorType):
            return self.native_call(f, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodWrapperType)):
            s = getattr(f, '__self__', None)
            if s is not None and not isinstance(s, types.ModuleType):
                if isinstance(s, type):
                    return models.class_method(self, s, f.__name__, args, kwargs)
                return models.call_method(self, s, f.__name__, args, kwargs)
            return self.native_call(f, args, kwargs)
        if isinstance(f, (Heap, SInt, SBool, SSeq)) or f is None or isinstance(f, (int, str, bytes, tuple)):
            self.raise_(TypeError, 'not callable')
        return self.native_call(f, args, kwargs)

    def native_call(self, f, args, kwargs):
        """Runs an external function on concrete immutable arguments."""
        if all(is_native(a) for a in args) and all(is_native(a) for a in kwargs.values()):
            if getattr(f, '__name__', '') in ('exec', 'eval', 'open', 'print', 'input', 'exit', 'system'):
                raise Unsupported(f'call of {f}')
            try:
                r = f(*args, **kwargs)
            except Exception as exc:
                raise PyExc(Inst(self.ctx, type(exc), {'args': exc.args}))
            return models.wrap_native(self, r)
        raise Unsupported(f'external function {getattr(f, "__module__", "")}.{getattr(f, "__qualname__", f)} has no contract')

    def run_native_function(self, f, args, kwargs):
        node = function_ast(f)
        if node is None:
            raise Unsupported(f'no source for {f}')
        self.ctx.x.stats.functions.add(f'{f.__module__}.{f.__qualname__}')
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                cells[n] = c
        return self.run_function(node, f.__globals__, cells, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__qualname__, args, kwargs)

    def run_closure(self, c, args, kwargs):
        return self.run_function(c.node, c.globals, c.cells, c.defaults, c.kwdefaults, c.qualname, args, kwargs)

    def bind_args(self, node, defaults, kwdefaults, args, kwargs, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        n = len(pos)
        for k, v in enumerate(args[:n]): out[pos[k]] = v
        if len(args) > n:
            if a.vararg is None:
                self.raise_(TypeError, f'{name}() takes {n} positional arguments')
            out[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in out: self.raise_(TypeError, f'multiple values for {k}')
                out[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: self.raise_(TypeError, f'{name}() got an unexpected keyword argument {k}')
        if a.kwarg is not None: out[a.kwarg.arg] = LDict(self.ctx, items=extra)
        nd = len(defaults)
        for k, p in enumerate(pos):
            if p not in out:
                j = k - (n - nd)
                if j >= 0: out[p] = defaults[j]
                else: self.raise_(TypeError, f'{name}() missing argument {p}')
        for p in kwonly:
            if p not in out:
                if p in kwdefaults: out[p] = kwdefaults[p]
                else: self.raise_(TypeError, f'{name}() missing argument {p}')
        return out

    def run_function(self, node, globs, cells, defaults, kwdefaults, qualname, args, kwargs):
        bound = self.bind_args(node, defaults, kwdefaults, args, kwargs, qualname)
        names, loops, is_gen = scope_info(node)
        fr = Frame()
        fr.locals = bound
        fr.globals = globs
        fr.cells = cells
        fr.fn_name = qualname
        fr.node = node
        fr.local_names = names
        fr.loop_ord = loops
        gd = set()
        if not isinstance(node, ast.Lambda):
            for s in ast.walk(node):
                if isinstance(s, ast.Global): gd.update(s.names)
        fr.globals_decl = gd
        if isinstance(node, ast.Lambda):
            return self.run_frame(fr, node.body, True)
        is_async = isinstance(node, ast.AsyncFunctionDef)
        if is_gen or is_async:
            kind = 'asyncgen' if (is_gen and is_async) else ('coroutine' if is_async else 'generator')
            return Gen(self.ctx, lambda: self.run_frame(fr, node.body, False), kind, qualname)
        return self.run_frame(fr, node.body, False)

    def run_frame(self, fr, body, is_expr):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported(f'call depth ({fr.fn_name})')
        self.stack.append(fr)
        try:
            if is_expr: return self.eval(body, fr)
            r = self.exec_block(body, fr)
            if r is not None and r[0] == 'return': return r[1]
            return None
        finally:
            self.depth -= 1
            self.stack.pop()

    def run_gen(self, g):
        """Runs a generator / coroutine body in line; yields go to the handler on top of ctx.yield_stack."""
        if g.used: raise Unsupported('generator resumed twice')
        g.used = True
        return g.thunk()

    def collect(self, g):
        """Runs a generator to completion, returns the yielded values."""
        out = []
        def on_yield(ctx, v):
            out.append(v)
            return None
        self.ctx.yield_stack.append(on_yield)
        nloops = len(self.ctx.loops)
        try:
            self.run_gen(g)
        finally:
            self.ctx.yield_stack.pop()
        return out

    # ---------------------------------------------------------------- classes
    def class_lookup(self, cls, name):
        for k in getattr(cls, '__mro__', ()):
            d = vars(k)
            if name in d: return d[name]
        return None

    def instantiate(self, cls, args, kwargs):
        ctx = self.ctx
        h = models.CLASSES.get(cls)
        if h is not None: return h(self, args, kwargs)
        if issubclass(cls, BaseException):
            new = self.class_lookup(cls, '__new__')
            new = new.__func__ if isinstance(new, staticmethod) else new
            if isinstance(new, types.FunctionType) and new in ctx.handlers: return self.call(new, [cls] + list(args), kwargs)
            init = self.class_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType) and init.__module__.split('.')[0] == REPO_PREFIX:
                o = Inst(ctx, cls, {'args': tuple(args)})
                new = self.class_lookup(cls, '__new__')
                self.call(init, [o] + list(args), kwargs)
                return o
            return Inst(ctx, cls, {'args': tuple(args)})
        mod = cls.__module__.split('.')[0]
        if mod == REPO_PREFIX or getattr(cls, '__pv_interpret__', False):
            meta = type(cls)
            mcall = self.class_lookup(meta, '__call__') if meta is not type else None
            if isinstance(mcall, types.FunctionType):
                return self.call(mcall, [cls] + list(args), kwargs)
            new = self.class_lookup(cls, '__new__')
            if isinstance(new, staticmethod): new = new.__func__
            if isinstance(new, types.FunctionType):
                o = self.call(new, [cls] + list(args), kwargs)
                if not (isinstance(o, Inst) and issubclass(o.cls, cls)): return o
            else:
                o = self.new_instance(cls, args, kwargs)
            init = self.class_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
            elif o.base is not None and isinstance(o.base, Heap) and args:
                models.call_method(self, o.base, '__init__', args, kwargs, owner=o)
            return o
        return self.native_call(cls, args, kwargs)

    def new_instance(self, cls, args=(), kwargs=None):
        """object.__new__(cls) (or that of the builtin base)"""
        ctx = self.ctx
        o = Inst(ctx, cls)
        h = ctx.ghost.get('new_base')
        b = h(ctx, cls) if h is not None else None
        if b is not None: o.base = b
        elif issubclass(cls, dict): o.base = LDict(ctx, items={})
        elif issubclass(cls, list): o.base = LList(ctx, items=[])
        elif issubclass(cls, (set, frozenset)): o.base = LSet(ctx, items=[])
        elif issubclass(cls, str):
            o.base = models.to_str(self, args[0]) if args else ''
        elif issubclass(cls, int) :
            o.base = args[0] if args else 0
        elif issubclass(cls, BaseException):
            o.fields['args'] = tuple(args)
        return o

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=UNDEF):
        ctx = self.ctx
        if isinstance(o, Inst):
            if name in o.fields and not isinstance(self.class_lookup(o.cls, name), property):
                v = o.fields[name]
                if isinstance(v, LazyField):
                    v = o.fields[name] = v.make(ctx)
                return v
            if name == '__class__': return o.cls
            v = self.class_lookup(o.cls, name)
            if v is not None or any(name in vars(k) for k in o.cls.__mro__):
                return self.bind(v, o, name, default)
            if o.base is not None and hasattr(models.pytype(o.base), name):
                return BuiltinMethod(o.base, name)
            g = self.class_lookup(o.cls, '__getattr__')
            if isinstance(g, types.FunctionType):
                return self.call(g, [o, name])
            if default is not UNDEF: return default
            self.raise_(AttributeError, name)
        if isinstance(o, Opaque):
            return o.iface.getattr(ctx, o, name)
        if isinstance(o, Super):
            mro = o.self.cls.__mro__ if isinstance(o.self, Inst) else o.self.__mro__
            mro = mro[mro.index(o.cls) + 1:]
            for k in mro:
                if name in vars(k):
                    return self.bind(vars(k)[name], o.self, name, default)
            self.raise_(AttributeError, name)
        if isinstance(o, UnknownExc):
            if name == '__class__': return Opaque(ctx.fresh('exc_cls', OBJ), ANY)
            if name == 'value' : return o.value if hasattr(o, 'value') else models.fresh_opaque(ctx, 'exc_value')
            if name in ('with_traceback',): return BuiltinMethod(o, name)
            if name in ('__traceback__', '__cause__', '__context__', 'args'): return models.fresh_opaque(ctx, name)
            raise Unsupported(f'attribute {name} of an unknown exception')
        if isinstance(o, Gen):
            return BuiltinMethod(o, name)
        if name == 'maxlen' and isinstance(o, LList) and o.kind == 'deque': return o.maxlen
        if isinstance(o, (SSeq, SInt, SBool, SReal, LList, LDict, LSet, LBytes, LArray, ListIter)):
            t = models.pytype(o)
            if t is not None and not hasattr(t, name):
                if default is not UNDEF: return default
                self.raise_(AttributeError, name)
            if isinstance(o, (SInt, SBool)) and name in ('real', 'numerator'): return o
            return BuiltinMethod(o, name)
        if isinstance(o, (str, bytes, int, float, tuple)) and not isinstance(o, type):
            if hasattr(o, name):
                v = getattr(type(o), name, None)
                if callable(v): return BuiltinMethod(o, name)
                return getattr(o, name)
            if default is not UNDEF: return default
            self.raise_(AttributeError, name)
        if isinstance(o, (Closure,)):
            if name in o.attrs: return o.attrs[name]
            if name == '__name__': return o.name
        if isinstance(o, Bound):
            if name == '__self__': return o.self
            if name == '__func__': return o.fn
        # native object (module, class, regex, function, constant instance)
        if isinstance(o, models.NativeRef): 
            return models.native_attr(self, o, name)
        try:
            v = getattr(o, name)
        except AttributeError:
            if default is not UNDEF: return default
            self.raise_(AttributeError, name)
        return models.wrap_native(self, v, owner=o)

    def bind(self, v, o, name, default=UNDEF):
        if isinstance(v, property):
            if v.fget is None: self.raise_(AttributeError, name)
            return self.call(v.fget, [o])
        if isinstance(v, types.FunctionType):
            if isinstance(o, type): return v
            return Bound(v, o)
        if isinstance(v, staticmethod): return v.__func__
        if isinstance(v, classmethod): return Bound(v.__func__, o.cls if isinstance(o, Inst) else o)
        if isinstance(v, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            if isinstance(o, Inst) and name in o.fields: return o.fields[name]
            if name == '__dict__': raise Unsupported('__dict__')
            if default is not UNDEF: return default
            self.raise_(AttributeError, name)
        if isinstance(v, (types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinFunctionType)):
            if isinstance(o, Inst):
                if name == '__new__': return v
                if o.base is not None: return BuiltinMethodOf(o, name)
                return BuiltinMethodOf(o, name)
            return v
        if hasattr(type(v), '__get__') and not isinstance(v, type):
            h = models.DESCRIPTORS.get(type(v).__name__)
            if h is not None: return h(self, v, o, name)
            raise Unsupported(f'descriptor {type(v)}')
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            p = self.class_lookup(o.cls, name)
            if isinstance(p, property):
                if p.fset is None: self.raise_(AttributeError, name)
                self.call(p.fset, [o, v])
                return
            s = self.class_lookup(o.cls, '__setattr__')
            if isinstance(s, types.FunctionType):
                self.call(s, [o, name, v]); return
            self.ctx.touch(o, name)
            o.fields[name] = v
            return
        if isinstance(o, Opaque):
            o.iface.setattr(self.ctx, o, name, v)
            return
        if isinstance(o, UnknownExc):
            return
        if isinstance(o, Closure):
            o.attrs[name] = v
            return
        raise Unsupported(f'attribute store on {o!r}')

    def delattr(self, o, name):
        if isinstance(o, Inst):
            self.ctx.touch(o, name)
            if name not in o.fields: self.raise_(AttributeError, name)
            del o.fields[name]
            return
        raise Unsupported('del attribute')

    # ---------------------------------------------------------------- truth and operators
    def truth(self, v):
        """-> python bool, splitting the path when needed"""
        t = self.truth_term(v)
        if isinstance(t, bool): return t
        return self.ctx.branch(t)

    def truth_term(self, v):
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, SBool): return v.t
        if isinstance(v, SInt): return v.t != 0
        if isinstance(v, SReal): return v.t != 0
        if isinstance(v, SSeq): return z3.Length(v.t) > 0
        if isinstance(v, LBytes): return z3.Length(v.t) > 0
        if isinstance(v, LArray): return v.n > 0
        if isinstance(v, (LList, LDict, LSet)):
            n = models.length(self, v)
            return n != 0 if isinstance(n, int) else n.t != 0
        if isinstance(v, Inst):
            for m in ('__bool__', '__len__'):
                f = self.class_lookup(v.cls, m)
                if isinstance(f, types.FunctionType):
                    return self.truth_term(self.call(f, [v]))
                if m == '__len__' and f is not None and v.base is not None:
                    return self.truth_term(v.base)
            if v.base is not None: return self.truth_term(v.base)
            return True
        if isinstance(v, Opaque):
            if v.iface.truthy is True: return True
            if callable(v.iface.truthy): return v.iface.truthy(self.ctx, v)
            raise Unsupported(f'truth of opaque {v.iface.name}')
        if isinstance(v, (Closure, Bound, BuiltinMethod, Gen, UnknownExc, OpaqueMethod, ListIter)): return True
        if isinstance(v, models.NativeRef): return True
        return bool(v)

    # ---------------------------------------------------------------- expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported(f'expression {type(n).__name__} at line {getattr(n, "lineno", "?")}')
        return m(n, fr)

    def e_Constant(self, n, fr): return n.value
    def e_Name(self, n, fr): return self.load_name_frame(fr, n.id)
    def e_Attribute(self, n, fr): 
        o = self.eval(n.value, fr)
        name = n.attr
        if name.startswith('__') and not name.endswith('__'):
            raise Unsupported('name mangling')
        return self.getattr(o, name)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.store_name(fr, n.target.id, v)
        return v

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred): out.extend(self.iter_concrete(self.eval(e.value, fr)))
            else: out.append(self.eval(e, fr))
        return tuple(out)

    def e_List(self, n, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = LList(self.ctx, items=[])
            for e in n.elts:
                if isinstance(e, ast.Starred): 
                    v = self.eval(e.value, fr)
                    if isinstance(v, LList) and not v.concrete: models.call_method(self, out, 'extend', [v], {})
                    else:
                        for x in self.iter_concrete(v): models.call_method(self, out, 'append', [x], {})
                else: models.call_method(self, out, 'append', [self.eval(e, fr)], {})
            return out
        return LList(self.ctx, items=list(self.e_Tuple(n, fr)))

    def e_Set(self, n, fr):
        s = LSet(self.ctx, items=[])
        for v in self.e_Tuple(n, fr): models.call_method(self, s, 'add', [v], {})
        return s

    def e_Dict(self, n, fr):
        d = LDict(self.ctx, items={})
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, fr)
            if k is None:
                models.call_method(self, d, 'update', [vv], {})
            else:
                models.setitem(self, d, self.eval(k, fr), vv)
        return d

    def e_IfExp(self, n, fr):
        return self.eval(n.body, fr) if self.truth(self.eval(n.test, fr)) else self.eval(n.orelse, fr)

    def e_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        v = None
        for k, e in enumerate(n.values):
            v = self.eval(e, fr)
            if k == len(n.values) - 1: return v
            t = self.truth(v)
            if is_and and not t: return v
            if not is_and and t: return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            if isinstance(t, bool): return not t
            return SBool(z3.Not(t))
        return models.unary(self, type(n.op).__name__, v)

    def e_BinOp(self, n, fr):
        return models.binop(self, type(n.op).__name__, self.eval(n.left, fr), self.eval(n.right, fr))

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = None
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, fr)
            v = models.compare(self, type(op).__name__, left, right)
            if k == len(n.ops) - 1:
                return v
            if not self.truth(v): return v
            left = right
        return res

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return models.getitem(self, o, self.eval_index(n.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return models.SliceV(*[None if e is None else self.eval(e, fr) for e in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Slice(self, n, fr):
        return self.eval_index(n, fr)

    def e_Call(self, n, fr):
        # zero argument super
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and 'super' not in fr.locals:
            c = fr.cells.get('__class__')
            if c is None: raise Unsupported('super() without class cell')
            first = (fr.node.args.posonlyargs + fr.node.args.args)[0].arg
            return Super(c.cell_contents, self.load_name_frame(fr, first))
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred): args.extend(self.iter_concrete(self.eval(a.value, fr)))
            else: args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, LDict) and v.concrete: kwargs.update(v.items)
                elif isinstance(v, dict): kwargs.update(v)
                else: raise Unsupported('** of a symbolic mapping')
            else: kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def e_Lambda(self, n, fr):
        return Closure(n, fr.globals, self.child_cells(fr), '<lambda>', [self.eval(d, fr) for d in n.args.defaults], {}, fr.fn_name + '.<lambda>')

    def child_cells(self, fr):
        cells = dict(fr.cells)
        for name in fr.local_names | set(fr.locals):
            cells[name] = Cell(fr, name)
        return cells

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant): parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                spec = self.e_JoinedStr(p.format_spec, fr) if p.format_spec is not None else ''
                parts.append(models.format_value(self, v, p.conversion, spec))
        return models.concat_str(self, parts)

    def e_FormattedValue(self, n, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), fr)

    def e_Starred(self, n, fr): raise Unsupported('starred')

    def e_Await(self, n, fr):
        return self.await_value(self.eval(n.value, fr))

    def await_value(self, v):
        ctx = self.ctx
        if isinstance(v, Gen) and v.kind in ('coroutine', 'generator'):
            return self.run_gen(v)
        if isinstance(v, Inst):
            m = self.class_lookup(v.cls, '__await__')
            if isinstance(m, types.FunctionType) and m not in ctx.handlers:
                g = self.call(m, [v])
                if isinstance(g, Gen): return self.run_gen(g)
                return self.await_value(g)
            if m in ctx.handlers: return ctx.handlers[m](ctx, v)
        if isinstance(v, Opaque) and hasattr(v.iface, 'await_'):
            return v.iface.await_(ctx, v)
        if ctx.await_handler is not None:
            return ctx.await_handler(ctx, v)
        raise Unsupported(f'await of {v!r}')

    def e_Yield(self, n, fr):
        v = None if n.value is None else self.eval(n.value, fr)
        if not self.ctx.yield_stack: raise Unsupported('yield without contract')
        return self.ctx.yield_stack[-1](self.ctx, v)

    def e_YieldFrom(self, n, fr):
        v = self.eval(n.value, fr)
        if isinstance(v, Gen): return self.run_gen(v)
        if isinstance(v, (Inst, Opaque)):
            m = self.class_lookup(v.cls, '__iter__') if isinstance(v, Inst) else None
            if isinstance(m, types.FunctionType) or m in self.ctx.handlers:
                g = self.call(m, [v])
                if isinstance(g, Gen): return self.run_gen(g)
            return self.await_value(v)
        if not self.ctx.yield_stack: raise Unsupported('yield from')
        h = self.ctx.yield_stack[-1]
        if models.concrete_elements(self, v) is None and hasattr(h, 'bulk'):
            h.bulk(self.ctx, v)
            return None
        for x in self.iter_concrete(v):
            h(self.ctx, x)
        return None

    # comprehensions: desugared to loops
    def e_ListComp(self, n, fr): return self.comp(n, fr, 'list')
    def e_GeneratorExp(self, n, fr): return self.comp(n, fr, 'list')
    def e_SetComp(self, n, fr): return self.comp(n, fr, 'set')
    def e_DictComp(self, n, fr): return self.comp(n, fr, 'dict')

    _comp_cache = {}
    def comp(self, n, fr, kind):
        d = self._comp_cache.get(n)
        if d is None:
            if kind == 'dict':
                body = ast.Assign([ast.Subscript(ast.Name('_comp', ast.Load()), n.key, ast.Store())], n.value)
            else:
                body = ast.Expr(ast.Call(ast.Attribute(ast.Name('_comp', ast.Load()), 'append' if kind == 'list' else 'add', ast.Load()), [n.elt], []))
            for g in reversed(n.generators):
                for cond in reversed(g.ifs):
                    body = ast.If(cond, [body], [])
                body = (ast.AsyncFor if g.is_async else ast.For)(g.target, g.iter, [body], [])
            ast.fix_missing_locations(body)
            for s in ast.walk(body):
                s.lineno = getattr(s, 'lineno', n.lineno) or n.lineno
            d = self._comp_cache[n] = body
        sub = Frame()
        sub.globals = fr.globals
        sub.cells = self.child_cells(fr)
        if '__class__' in fr.cells: sub.cells['__class__'] = fr.cells['__class__']
        sub.fn_name = fr.fn_name
        sub.node = fr.node
        targets = assigned_in([d])
        sub.local_names = targets | {'_comp'}
        sub.loop_ord = fr.loop_ord
        sub.globals_decl = fr.globals_decl
        out = LList(self.ctx, items=[]) if kind == 'list' else (LSet(self.ctx, items=[]) if kind == 'set' else LDict(self.ctx, items={}))
        sub.locals = {'_comp': out}
        self.comp_node = n
        # first iterable is evaluated in the enclosing scope; names resolve through the cells anyway
        self.do_for(d, sub, key_node=n)
        return sub.locals['_comp']

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for s in body:
            r = self.exec(s, fr)
            if r is not None: return r
        return None

    def exec(self, s, fr):
        self.ctx.step()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return None
        self.eval(s.value, fr)
    def s_Pass(self, s, fr): return None
    def s_Break(self, s, fr): return ('break',)
    def s_Continue(self, s, fr): return ('continue',)
    def s_Return(self, s, fr):
        return ('return', None if s.value is None else self.eval(s.value, fr))
    def s_Global(self, s, fr): return None
    def s_Nonlocal(self, s, fr): return None

    def s_Import(self, s, fr):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                mod = sys.modules[a.name]
            self.store_name(fr, a.asname or a.name.split('.')[0], mod)

    def s_ImportFrom(self, s, fr):
        pkg = fr.globals.get('__package__')
        import importlib
        mod = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        for a in s.names:
            v = getattr(mod, a.name) if hasattr(mod, a.name) else importlib.import_module(mod.__name__ + '.' + a.name)
            self.store_name(fr, a.asname or a.name, v)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name_frame(fr, t.id)
            self.store_name(fr, t.id, models.inplace(self, op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, models.inplace(self, op, cur, self.eval(s.value, fr)))
        else:
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = models.getitem(self, o, k)
            models.setitem(self, o, k, models.inplace(self, op, cur, self.eval(s.value, fr)))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.store_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            models.setitem(self, o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            vals = models.unpack(self, v, n, bool(star))
            if star:
                k = star[0]
                tail = n - k - 1
                if len(vals) < n - 1: self.raise_(ValueError, 'not enough values to unpack')
                mid = vals[k:len(vals) - tail]
                vals = list(vals[:k]) + [LList(self.ctx, items=list(mid))] + list(vals[len(vals) - tail:])
                for e, x in zip(t.elts, vals): self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            else:
                if len(vals) != n: self.raise_(ValueError, 'unpack length')
                for e, x in zip(t.elts, vals): self.assign(e, x, fr)
        else: raise Unsupported(f'assignment target {type(t).__name__}')

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load_name_frame(fr, t.id)
                fr.locals[t.id] = UNDEF
            elif isinstance(t, ast.Attribute): self.delattr(self.eval(t.value, fr), t.attr)
            else:
                models.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)): return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            self.raise_(AssertionError)

    def s_FunctionDef(self, s, fr):
        c = Closure(s, fr.globals, self.child_cells(fr), s.name, [self.eval(d, fr) for d in s.args.defaults],
            {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
            fr.fn_name + '.' + s.name)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.store_name(fr, s.name, v)
    s_AsyncFunctionDef = s_FunctionDef

    def s_Raise(self, s, fr):
        if s.exc is None:
            for f in reversed(self.exc_stack if hasattr(self, 'exc_stack') else []):
                raise PyExc(f)
            self.raise_(RuntimeError, 'No active exception to re-raise')
        v = self.eval(s.exc, fr)
        if s.cause is not None: self.eval(s.cause, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.call(v, [])
        if isinstance(v, BaseException):
            v = Inst(self.ctx, type(v), {'args': v.args})
        if isinstance(v, Opaque) and isinstance(getattr(v.iface, 'exc_bound', None), type):
            e = v.extra.get('exc')
            if e is None:
                e = v.iface.as_exc(self.ctx, v)
            v = e
        if not (isinstance(v, UnknownExc) or (isinstance(v, Inst) and issubclass(v.cls, BaseException))):
            if isinstance(v, Opaque): raise Unsupported('raise of an opaque object')
            self.raise_(TypeError, 'exceptions must derive from BaseException')
        raise PyExc(v)

    def exc_match(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(exc, c) for c in cls)
        if not (isinstance(cls, type) and issubclass(cls, BaseException)):
            raise Unsupported(f'except {cls!r}')
        if isinstance(exc, UnknownExc): return exc.matches(cls)
        return issubclass(exc.cls, cls)

    def s_Try(self, s, fr):
        if not hasattr(self, 'exc_stack'): self.exc_stack = []
        sig = None
        pending = None
        try:
            try:
                sig = self.exec_block(s.body, fr)
            except PyExc as e:
                exc = e.value
                for h in s.handlers:
                    if h.type is None or self.exc_match(exc, self.eval(h.type, fr)):
                        if h.name: fr.locals[h.name] = exc
                        self.exc_stack.append(exc)
                        try:
                            sig = self.exec_block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                            if h.name: fr.locals[h.name] = UNDEF
                        break
                else:
                    raise
            else:
                if sig is None and s.orelse:
                    sig = self.exec_block(s.orelse, fr)
        except PyExc as e:
            pending = e
        if s.finalbody:
            if pending is not None: self.exc_stack.append(pending.value)
            try:
                r = self.exec_block(s.finalbody, fr)
            finally:
                if pending is not None: self.exc_stack.pop()
            if r is not None: return r
        if pending is not None: raise pending
        return sig

    def s_With(self, s, fr, is_async=False):
        return self.with_items(s.items, s.body, fr, is_async)
    def s_AsyncWith(self, s, fr):
        return self.with_items(s.items, s.body, fr, True)

    def with_items(self, items, body, fr, is_async):
        if not items: return self.exec_block(body, fr)
        it = items[0]
        m = self.eval(it.context_expr, fr)
        pre = '__a' if is_async else '__'
        enter = self.getattr(m, pre + 'enter__')
        exit_ = self.getattr(m, pre + 'exit__')
        v = self.call(enter, [])
        if is_async: v = self.await_value(v)
        if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
        sig = None
        try:
            sig = self.with_items(items[1:], body, fr, is_async)
        except PyExc as e:
            exc = e.value
            cls = exc.cls if isinstance(exc, Inst) else models.exc_class_value(self, exc)
            if not hasattr(self, 'exc_stack'): self.exc_stack = []
            self.exc_stack.append(exc)
            try:
                r = self.call(exit_, [cls, exc, None])
                if is_async: r = self.await_value(r)
            finally:
                self.exc_stack.pop()
            if self.truth(r): return None
            raise
        r = self.call(exit_, [None, None, None])
        if is_async: self.await_value(r)
        return sig

    # ---------------------------------------------------------------- loops
    def s_For(self, s, fr): return self.do_for(s, fr)
    def s_AsyncFor(self, s, fr): return self.do_async_for(s, fr)

    def iter_concrete(self, v):
        """list of the elements of an iterable of known length (splits on small unions), else Unsupported"""
        r = models.concrete_elements(self, v)
        if r is None: raise Unsupported('iteration over a sequence of unknown length')
        return r

    def do_async_for(self, s, fr):
        it = self.eval(s.iter, fr)
        if isinstance(it, Gen):
            vals = self.collect(it)
            return self.for_concrete(s, fr, vals)
        if isinstance(it, Opaque) and hasattr(it.iface, 'async_items'):
            items, exc = it.iface.async_items(self.ctx, it)       # what it gives, then how it ends
            if exc is None: return self.do_for(s, fr, value=items)
            r = self.do_for(s, fr, value=items, orelse=False)
            if r is None: raise PyExc(exc)
            return r
        if isinstance(it, Opaque) and hasattr(it.iface, 'aiter'):
            return it.iface.aiter(self.ctx, it, lambda v: self._for_body(s, fr, v))
        # protocol: while True: try: v = await anext
        ai = self.call(self.getattr(it, '__aiter__'), [])
        def cond(): return True
        def pre_body():
            try:
                v = self.await_value(self.call(self.getattr(ai, '__anext__'), []))
            except PyExc as e:
                if self.exc_match(e.value, StopAsyncIteration): return ('break',)
                raise
            self.assign(s.target, v, fr)
            return None
        return self.loop(s, fr, cond, lambda: (pre_body() or self.exec_block(s.body, fr)), {}, list(s.body) + [s.target], force=True)

    def _for_body(self, s, fr, v):
        self.assign(s.target, v, fr)
        return self.exec_block(s.body, fr)

    def for_concrete(self, s, fr, vals):
        for v in vals:
            self.assign(s.target, v, fr)
            r = self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == 'break': return None
                if r[0] == 'continue': continue
                return r
        return self.exec_block(s.orelse, fr)

    def do_for(self, s, fr, key_node=None, value=None, orelse=True):
        if not orelse and s.orelse: raise Unsupported('async for with else')
        if isinstance(s, ast.AsyncFor) and value is None:
            return self.do_async_for(s, fr)
        it = value if value is not None else self.eval(s.iter, fr)
        if isinstance(it, Inst):
            f = self.class_lookup(it.cls, '__iter__')
            if isinstance(f, types.FunctionType): it = self.call(f, [it])
        if isinstance(it, LList) and it.concrete:
            # live list: Python looks at the current length on every step
            k = 0
            while True:
                if not it.concrete: raise Unsupported('list became symbolic while iterated')
                if k >= len(it.items): break
                self.assign(s.target, it.items[k], fr)
                k += 1
                r = self.exec_block(s.body, fr)
                if r is not None:
                    if r[0] == 'break': return None
                    if r[0] == 'continue': continue
                    return r
                if k > 5000: raise Unsupported('unbounded iteration')
            return self.exec_block(s.orelse, fr)
        vals = models.concrete_elements(self, it)
        if vals is not None:
            return self.for_concrete(s, fr, vals)
        src = models.symbolic_iter(self, it)     # object with n (term), get(i) -> value
        ctx = self.ctx
        env = {'_n': src.n, '_src': src}
        state = {'i': z3.IntVal(0)}
        env['_i'] = state['i']
        base = it
        while isinstance(base, (Inst, models.ReversedV, models.EnumV, ListIter)):
            base = base.base if isinstance(base, Inst) else base.source if isinstance(base, ListIter) else base.src
        def havoc():
            if isinstance(base, (LList, LArray, LBytes)):
                for k, locs in ctx.x.loop_mods.items():
                    if k == (fr.fn_name, id(key_node or s)) and any(oid == base.oid for oid, _ in locs): raise Unsupported('the sequence iterated over is changed by the loop')
            state['i'] = ctx.fresh('_i', I)
            env['_i'] = state['i']
            ctx.pc.append(state['i'] >= 0)
            ctx.pc.append(state['i'] <= src.n)
        def cond():
            return SBool(state['i'] < src.n)
        def body():
            v = src.get(state['i'])
            state['i'] = state['i'] + 1
            env['_i'] = state['i']
            self.assign(s.target, v, fr)
            return self.exec_block(s.body, fr)
        return self.loop(s, fr, cond, body, env, list(s.body) + [s.target], havoc=havoc, key_node=key_node, auto_dec=lambda: src.n - state['i'])

    def s_While(self, s, fr):
        def cond(): return self.eval(s.test, fr)
        def body(): return self.exec_block(s.body, fr)
        return self.loop(s, fr, cond, body, {}, list(s.body) + [s.test])

    def find_spec(self, node, fr):
        ctx = self.ctx
        specs = ctx.loop_specs
        loops = fr.loop_ord
        ordinal = next((k for k, x in enumerate(loops) if x is node), None)
        spec = None
        for (fname, o), sp in specs.items():
            if o == ordinal and (fname == fr.fn_name or fr.fn_name.split('.')[-1] == fname):
                spec = sp; break
        claims = ctx.ghost.setdefault('_loop_claims', {})
        if spec is not None and claims.get(id(spec), node) is node:
            claims[id(spec)] = node
            return [spec]
        for sp in specs.values():
            if claims.get(id(sp)) is node: return [sp]
        out = []
        for (fname, o), sp in specs.items():
            if id(sp) in claims: continue
            reserved = False
            for f in self.stack:
                if (fname == f.fn_name or f.fn_name.split('.')[-1] == fname) and o is not None and o < len(f.loop_ord) and f.loop_ord[o] is not node:
                    reserved = True
            if not reserved: out.append(sp)
        return out

    def loop(self, s, fr, cond, body, env, body_nodes, havoc=None, key_node=None, auto_dec=None, force=False):
        ctx = self.ctx
        node = key_node or s
        specs = self.find_spec(node, fr)
        orelse = getattr(s, 'orelse', [])
        # loops without a contract are unrolled while their condition stays concrete (or the unrolling is complete)
        if not specs:
            limit = ctx.x.options.get('unroll', 40)
            sym = 0
            for k in range(20000):
                c = cond()
                t = self.truth_term(c)
                if not isinstance(t, bool):
                    t = z3.simplify(t)
                    if not is_true(t) and not is_false(t):
                        sym += 1
                        if sym > limit:
                            raise Unsupported(f'loop without contract at {fr.fn_name}:{s.lineno}')
                elif force or k > limit:
                    if k > 2000: raise Unsupported(f'loop without contract at {fr.fn_name}:{s.lineno}')
                if not self.truth(c): break
                r = body()
                if r is not None:
                    if r[0] == 'break': return None
                    if r[0] == 'continue': continue
                    return r
                if k > limit and not ctx.x.options.get('unroll_concrete', True):
                    raise Unsupported('loop without contract')
            else:
                raise Unsupported(f'loop without contract at {fr.fn_name}:{s.lineno}')
            return self.exec_block(orelse, fr)
        claims = ctx.ghost.setdefault('_loop_claims', {})
        key = (fr.fn_name, id(node))
        spec = None
        mapping = None
        last = None
        for sp in specs:
            m = self.match_spec(sp, key, fr, env)
            if m is not None:
                spec, mapping = sp, m
                break
        if spec is None:
            raise Unsupported(f'no loop contract fits the loop at {fr.fn_name}:{s.lineno}')
        claims[id(spec)] = node
        label = spec.name or f'{fr.fn_name.split(".")[-1]}#{fr.loop_ord.index(node) if node in fr.loop_ord else "c"}'
        view = L(self, fr, env, mapping)
        view._test = getattr(node, 'test', None)
        if spec.on_entry is not None: 
            r = spec.on_entry(view)
            if isinstance(r, dict): env.update(r)
        for n, t in named(spec.inv(view)):
            ctx.prove(f'loop {label} invariant {n} holds on entry', t)
        ghost_entry = dict(ctx.ghost)
        # havoc
        mods = ctx.x.loop_mods.setdefault(key, set())
        names = assigned_in(body_nodes)
        inv_map = {v: k for k, v in mapping.items()}
        for nm in names:
            cur = fr.locals.get(nm, UNDEF)
            sn = inv_map.get(nm, nm)
            if nm not in fr.local_names and nm not in fr.locals:
                continue
            fac = spec.shapes.get(sn)
            if isinstance(cur, LazyVar) and fac is None:
                # inherits the possible kinds of the outer havoc
                kinds = ctx.x.loop_shapes.setdefault((key, nm), [])
                for kd in ctx.x.loop_shapes.get((cur.key, cur.name), []):
                    if kd not in kinds: kinds.append(kd)
            elif fac is None and cur is not UNDEF:
                kinds = ctx.x.loop_shapes.setdefault((key, nm), [])
                kd = kind_of(cur)
                if kd not in kinds: kinds.append(kd)
            fr.locals[nm] = LazyVar(key, nm, fac)
        for oid, loc in sorted(mods, key=str):
            o = self.find_oid(oid)
            if o is not None: self.havoc_loc(o, loc, spec, view, key)
        if havoc is not None: havoc()
        log0, ctx.ghost.log = ctx.ghost.log, set()
        if spec.havoc is not None: spec.havoc(view)
        head_sets = ctx.ghost.log; ctx.ghost.log = log0
        if log0 is not None: log0 |= head_sets
        act = ActiveLoop(key, ctx.oid, set(mods))
        # everything created before this point is pre-existing
        for n, t in named(spec.inv(view)):
            ctx.assume(t)
        ghost_head = dict(ctx.ghost); ghost_inside = {k: list(v) for k, v in ctx.ghost.items() if isinstance(v, (list, dict, set)) and not str(k).startswith('_')}
        if spec.on_head is not None: spec.on_head(view)
        head_sets |= {k for k, v in ctx.ghost.items() if ghost_head.get(k, UNDEF) is not v}
        c = cond()
        take = self.truth(c)
        if not take:
            ctx.cover(f'loop {label} exit')
            if spec.at_exit is not None: spec.at_exit(view)
            return self.exec_block(orelse, fr)
        ctx.cover(f'loop {label} body')
        dec0 = None
        if spec.dec is not None:
            dec0 = spec.dec(view)
        elif auto_dec is not None:
            dec0 = None
        ctx.loops.append(act)
        try:
            r = body()
        finally:
            ctx.loops.remove(act)
        if r is not None and r[0] in ('break', 'return'):
            return None if r[0] == 'break' else r
        # end of the arbitrary iteration
        for nm in names:
            v = fr.locals.get(nm, UNDEF)
            sn = inv_map.get(nm, nm)
            if v is UNDEF or isinstance(v, LazyVar) or sn in spec.shapes: continue
            kinds = ctx.x.loop_shapes.setdefault((key, nm), [])
            kd = kind_of(v)
            if kd[0] == 'native' and any(x[0] == kd[0] and x[1] is kd[1] for x in kinds): continue
            if kd not in kinds:
                if kd[0] == 'heap':
                    kd = ('complex', 'heap')
                    if kd in kinds: continue
                kinds.append(kd)
                raise Restart
        for oid, loc in sorted(mods, key=str):
            o = self.find_oid(oid)
            if isinstance(o, Inst) and ('field', loc) not in spec.shapes and f'.{loc}' not in spec.shapes:
                v = o.fields.get(loc, UNDEF)
                if isinstance(v, LazyField) or v is UNDEF: continue
                kinds = ctx.x.loop_shapes.setdefault((key, ('field', o.oid, loc)), [])
                kd = kind_of(v)
                if kd not in kinds:
                    kinds.append(kd)
                    raise Restart
        if spec.on_step is not None: spec.on_step(view)
        self.check_ghost(label, ghost_entry, ghost_head, head_sets, ghost_inside)
        for n, t in named(spec.inv(view)):
            ctx.prove(f'loop {label} invariant {n} preserved', t)
        if dec0 is not None:
            d1 = spec.dec(view)
            if isinstance(dec0, (tuple, list)):
                # lexicographic
                ok = z3.BoolVal(False)
                eq = z3.BoolVal(True)
                nonneg = []
                for a, b in zip(dec0, d1):
                    ok = z3.Or(ok, z3.And(eq, b < a, a >= 0))
                    eq = z3.And(eq, a == b)
                ctx.prove(f'loop {label} terminates (variant decreases)', ok)
            else:
                ctx.prove(f'loop {label} terminates (variant decreases)', z3.And(dec0 >= 0, d1 < dec0))
        raise PathEnd

    def check_ghost(self, label, entry, head, head_sets, inside):
        """A ghost value which an iteration changes has to be made arbitrary at the head of the loop: a mistake of the contract otherwise."""
        for k, v in self.ctx.ghost.items():
            if k in head_sets or isinstance(k, str) and k.startswith('_'): continue
            if k in inside and k not in head_sets and head[k] is v and len(inside[k]) != len(v):
                if os.environ.get('PV_GHOST'): print('GHOST inside', label, k, len(inside[k]), '->', len(v), flush=True)
                else: raise Unsupported(f'loop {label}: the content of ghost {k} changes but is not made arbitrary')
            if k in head and head[k] is not v and k in entry and entry[k] is head[k] and not _same(v, head[k]):
                if os.environ.get('PV_GHOST'): print('GHOST', label, k, str(head[k])[:80], '->', str(v)[:80], flush=True)
                else: raise Unsupported(f'loop {label}: ghost {k} changes but is not made arbitrary')

    def match_spec(self, sp, key, fr, env):
        """-> renaming of the contract's names to locals, or None"""
        ctx = self.ctx
        mapping = {}
        x = ctx.x
        opts = x.options.setdefault('rename_options', {})
        choice = x.options.setdefault('rename_choice', {})
        for _ in range(8):
            saved = len(ctx.pc)
            seen_before = set(ctx._seen_facts)
            ghost_before = dict(ctx.ghost)
            v = L(self, fr, dict(env), mapping)
            try:
                if sp.on_entry is not None:
                    r = sp.on_entry(v)
                    if isinstance(r, dict): v.env.update(r)
                named(sp.inv(v))
                return mapping
            except MissingName as e:
                cands = sorted(n for n, val in fr.locals.items() if val is not UNDEF and n not in mapping.values() and n != 'self' and not isinstance(val, (Closure,)))
                k = (key[0], id(sp), e.name)
                if not cands: return None
                opts[k] = len(cands)
                mapping[e.name] = cands[choice.get(k, 0) % len(cands)]
            except (AttributeError, z3.Z3Exception, TypeError, KeyError, Unsupported):
                if os.environ.get('PV_SPEC'): import traceback; traceback.print_exc()
                return None
            finally:
                if len(ctx.pc) > saved:
                    del ctx.pc[saved:]
                    ctx._seen_facts = seen_before
                    ctx._ids = None
                    ctx._norm = None
                ctx.ghost.clear()
                ctx.ghost.update(ghost_before)
        return None

    def find_oid(self, oid):
        """The heap object with the given id on this path; reachable or not, so that no object which an iteration writes to is left as it was before the loop."""
        return self.ctx.objects.get(oid)

    def havoc_loc(self, o, loc, spec, view, key):
        ctx = self.ctx
        # ids are given per path: a place of another kind of object was written on another path; writes to this one are found on this path
        if loc == 'content': fits = isinstance(o, (LList, LArray, LBytes, LDict, LSet))
        elif loc == 'pos': fits = isinstance(o, ListIter) or isinstance(o, Inst) and 'pos' in o.fields
        else: fits = isinstance(o, Inst)
        if not fits: return
        ctx.touch(o, loc)
        if isinstance(o, Inst):
            fac = spec.shapes.get(('field', loc)) or (o.cls and spec.shapes.get(f'.{loc}'))
            if fac is not None:
                o.fields[loc] = fac(ctx); return
            cur = o.fields.get(loc, UNDEF)
            kinds = ctx.x.loop_shapes.setdefault((key, ('field', o.oid, loc)), [])
            if cur is not UNDEF and not isinstance(cur, LazyField):
                kd = kind_of(cur)
                if kd not in kinds: kinds.append(kd)
            o.fields[loc] = LazyField(key, o.oid, loc)
            return
        if isinstance(o, LList):
            if o.owner is not None:
                return      # content lives in the dict
            if o.concrete:
                codec = None
                for n, c in spec.lists.items():
                    try:
                        if view.get(n) is o: codec = c
                    except MissingName: pass
                if codec is None and isinstance(ctx.ghost.get('list_codecs'), dict):
                    codec = ctx.ghost['list_codecs'].get(o.oid)
                o.symbolize(codec)
            o.seq = ctx.fresh('list', z3.SeqSort(o.codec.sort))
            if o.maxlen is not None: ctx.pc.append(z3.Length(o.seq) <= term(o.maxlen))
            return
        if isinstance(o, LBytes):
            o.t = ctx.fresh('bytearray', SEQ); return
        if isinstance(o, LArray):
            o.arr = ctx.fresh('arr', o.arr.sort()); o.n = ctx.fresh('arr_n', I); ctx.pc.append(o.n >= 0); return
        if isinstance(o, LDict):
            if o.concrete:
                f = spec.shapes.get('dict')
                if f is None: raise Unsupported('dict modified in a loop without a shape')
                f(ctx, o); return
            o.has = ctx.fresh('has', o.has.sort()); o.val = ctx.fresh('val', o.val.sort())
            if o.order is not None: o.order = ctx.fresh('order', o.order.sort())
            return
        if isinstance(o, LSet):
            if o.concrete:
                f = spec.shapes.get('set')
                if f is None: raise Unsupported('set modified in a loop without a shape')
                f(ctx, o); return
            o.has = ctx.fresh('has', o.has.sort()); return
        if isinstance(o, ListIter):
            o.pos = ctx.fresh('pos', I); ctx.pc.append(o.pos >= 0); return
        raise Unsupported(f'havoc of {o!r}.{loc}')


class LazyField:
    """Field havocked at a loop head"""
    def __init__(self, key, oid, loc): self.key = key; self.oid = oid; self.loc = loc
    def make(self, ctx):
        kinds = ctx.x.loop_shapes.get((self.key, ('field', self.oid, self.loc)), [])
        if not kinds: raise Unsupported(f'field {self.loc} modified in a loop has no shape')
        k = ctx.choose(len(kinds), 'field kind')
        return fresh_of_kind(ctx, kinds[k], self.loc)


class BuiltinMethodOf:
    """builtin method found on the class of an instance"""
    def __init__(self, o, name): self.o = o; self.name = name


def named(r):
    if isinstance(r, dict): return list(r.items())
    if isinstance(r, (list, tuple)): return [(str(k), t) for k, t in enumerate(r)]
    return [('0', r)]


def is_native(v):
    if isinstance(v, (SInt, SBool, SSeq, SReal, Heap, Opaque, Closure, Bound, BuiltinMethod, OpaqueMethod, Super, LazyVar, BuiltinMethodOf, models.SliceV)): return False
    if isinstance(v, (tuple, list, frozenset, set)): return all(is_native(e) for e in v)
    if isinstance(v, dict): return all(is_native(e) for e in v.values())
    return True
