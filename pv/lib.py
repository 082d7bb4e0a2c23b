"""What proofs and property modules use."""
import types
import z3
from . import engine, heap, interp, models
from .engine import *
from .engine import I, B, SEQ, OBJ, REAL
from .heap import *
from .interp import *
from .interp import Interp, Loop, PyExc, Frame
from .models import mkint, mkbool, mkseq, sterm, iterm, fresh_opaque, flat_term, SymIter, FLAT


class Outcome:
    """Result of a call: value, or exception"""
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc
    @property
    def ok(self): return self.exc is None
    @property
    def raised(self): return self.exc is not None
    def raised_cls(self):
        """class of the exception, or None"""
        if self.exc is None: return None
        if isinstance(self.exc, Inst): return self.exc.cls
        return self.exc.bound
    def is_a(self, cls):
        if self.exc is None: return False
        if isinstance(self.exc, UnknownExc): return self.exc.matches(cls)
        return issubclass(self.exc.cls, cls)


def setup(ctx):
    ctx.it = Interp(ctx)
    return ctx


def call(ctx, fn, *args, **kwargs):
    v = ctx.it.call(fn, list(args), kwargs)
    return v


def drive(ctx, v):
    """Runs a coroutine / generator value in line."""
    if isinstance(v, Gen): return ctx.it.run_gen(v)
    return v


def attempt(ctx, fn, *args, **kwargs):
    """Calls fn; coroutines are run to completion."""
    try:
        v = ctx.it.call(fn, list(args), kwargs)
        if isinstance(v, Gen) and kwargs.get('_drive', True) and v.kind in ('coroutine', 'generator'):
            v = ctx.it.run_gen(v)
        return Outcome(value=v)
    except PyExc as e:
        return Outcome(exc=e.value)


def inst(ctx, cls, base=None, **fields):
    """An instance of a repository class in a given state. Refuses fields the class cannot have (representation changed)."""
    slots = set()
    has_dict = False
    for k in cls.__mro__:
        s = vars(k).get('__slots__')
        if s is None:
            if k is not object and not k.__module__ == 'builtins': has_dict = has_dict or '__dict__' in vars(k)
        else:
            slots.update((s,) if isinstance(s, str) else s)
    if not has_dict:
        for f in fields:
            if f not in slots:
                raise Unsupported(f'representation of {cls.__name__} changed: no field {f}')
    o = Inst(ctx, cls, fields, base)
    ctx.inputs.append((cls.__name__, o))
    return o


def use(ctx, fn, handler):
    """Calls of fn are answered by its contract (handler) instead of its body."""
    if isinstance(fn, (staticmethod, classmethod)): fn = fn.__func__
    ctx.handlers[fn] = handler


def loop(ctx, fname, ordinal, spec):
    ctx.loop_specs[(fname, ordinal)] = spec


def no_raise(ctx, out, name='does not raise'):
    """The path must not end in an exception."""
    if out.raised:
        cls = out.raised_cls()
        ctx.prove(f'{name} (raises {getattr(cls, "__name__", cls)})', z3.BoolVal(False))
        raise PathEnd


def only_raises(ctx, out, *classes, name='raises only the documented exceptions'):
    if not out.raised: return
    if isinstance(out.exc, UnknownExc):
        ok = any(out.exc.matches(c) for c in classes)
        cls = 'unknown'
    else:
        ok = any(issubclass(out.exc.cls, c) for c in classes)
        cls = out.exc.cls.__name__
    ctx.prove(f'{name} (raises {cls})' if not ok else name, z3.BoolVal(ok))


class Proof:
    def __init__(self, name, body, opts):
        self.name = name
        self.body = body
        self.opts = opts


def proof_registry():
    """-> (list, decorator)"""
    out = []
    def proof(name, **opts):
        def deco(f):
            out.append(Proof(name, f, opts))
            return f
        return deco
    return out, proof


def bv(x): return z3.BoolVal(bool(x))

def eqv(ctx, a, b):
    """equality term of two interpreter values"""
    r = models.eq_term(ctx.it, a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r

def truth(ctx, v):
    r = ctx.it.truth_term(v)
    return z3.BoolVal(r) if isinstance(r, bool) else r

def empty(): return z3.Empty(SEQ)
def ln(t): return z3.Length(t)
def cat(*ts):
    ts = [t for t in ts]
    return z3.Concat(*ts) if len(ts) > 1 else ts[0]
def sub(t, a, n): return z3.Extract(t, a, n)
