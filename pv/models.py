"""
Models of Python's built-in operations on symbolic values, and contracts of library functions.

Everything here is trusted: the models state Python's documented behaviour of the built-in types.
"""
import types, builtins, operator, functools, math
import z3
from .engine import *
from .engine import I, B, SEQ, OBJ
from .heap import *
from . import engine, seqnorm

FUNCTIONS = {}
CLASSES = {}
DESCRIPTORS = {}

def model(*fs):
    def deco(h):
        for f in fs: FUNCTIONS[f] = h
        return h
    return deco


class NativeRef:
    """mutable native object of the repository, referenced but never written"""
    def __init__(self, v): self.v = v


class SliceV:
    __slots__ = ('lo', 'hi', 'step')
    def __init__(self, lo, hi, step): self.lo = lo; self.hi = hi; self.step = step


def fresh_opaque(ctx, name, iface=None):
    return Opaque(ctx.fresh(name, OBJ), iface)


def wrap_native(it, v, owner=None):
    if type(v) is list: return LList(it.ctx, items=[wrap_native(it, e) for e in v]) if owner is None or not isinstance(owner, types.ModuleType) else v
    if type(v) is bytearray: return LBytes(it.ctx, lit(bytes(v)))
    if type(v) is dict and owner is None: return LDict(it.ctx, items=dict(v))
    if type(v) is set and owner is None: return LSet(it.ctx, items=list(v))
    return v


def pytype(v):
    if isinstance(v, SInt): return int
    if isinstance(v, SBool): return bool
    if isinstance(v, SReal): return float
    if isinstance(v, SSeq): return {'str': str, 'bytes': bytes, 'view': memoryview}[v.kind]
    if isinstance(v, LBytes): return bytearray
    if isinstance(v, (LList, LArray)):
        if v.kind == 'deque':
            import collections
            return collections.deque
        return tuple if v.kind == 'tuple' else list
    if isinstance(v, LDict): return dict
    if isinstance(v, LSet): return frozenset if v.frozen else set
    if isinstance(v, Inst): return v.cls
    if isinstance(v, Closure): return types.FunctionType
    if isinstance(v, Bound): return types.MethodType
    if isinstance(v, Gen): return types.CoroutineType if v.kind == 'coroutine' else (types.AsyncGeneratorType if v.kind == 'asyncgen' else types.GeneratorType)
    if isinstance(v, (Opaque, UnknownExc, ListIter, NativeRef)): return None
    return type(v)


# ------------------------------------------------------------------ sequences

def is_str(v): return isinstance(v, str) or (isinstance(v, SSeq) and v.kind == 'str') or (isinstance(v, Inst) and isinstance(v.base, (str, SSeq)) and issubclass(v.cls, str))
def is_bytes(v): return isinstance(v, (bytes, bytearray)) or (isinstance(v, SSeq) and v.kind in ('bytes', 'view')) or isinstance(v, LBytes)
def is_int(v): return isinstance(v, (int, SInt, SBool))
def unbase(v):
    if isinstance(v, Inst) and v.base is not None and not isinstance(v.base, Heap): return v.base
    return v

def sterm(v):
    v = unbase(v)
    if isinstance(v, LBytes): return v.t
    return term(v)

def iterm(v):
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, Inst) and isinstance(v.base, (int, SInt)): return iterm(v.base)
    return term(v)

def to_conc(v):
    """concrete value of a constant term"""
    return v

def const_seq(t):
    """list of ints if the sequence term is a literal"""
    t = z3.simplify(t)
    out = []
    def go(x):
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_SEQ_EMPTY: return True
            if k == z3.Z3_OP_SEQ_UNIT:
                e = x.arg(0)
                if z3.is_int_value(e):
                    out.append(e.as_long()); return True
                return False
            if k == z3.Z3_OP_SEQ_CONCAT:
                return all(go(c) for c in x.children())
        return False
    return out if go(t) else None

def mkseq(t, kind):
    t = z3.simplify(t)
    c = const_seq(t)
    if c is not None:
        if kind == 'str': return ''.join(map(chr, c))
        if kind == 'bytes' and all(0 <= b < 256 for b in c): return bytes(c)
    return SSeq(t, kind)

def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)

def mkbool(t):
    if isinstance(t, bool): return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)

def length(it, v):
    v0 = v
    if isinstance(v, Inst) and v.base is not None: v = v.base
    if isinstance(v, SSeq): return mkint(z3.Length(v.t))
    if isinstance(v, LBytes): return mkint(z3.Length(v.t))
    if isinstance(v, LArray): return mkint(v.n)
    if isinstance(v, LList):
        if v.concrete: return len(v.items)
        return mkint(z3.Length(v.get_seq()))
    if isinstance(v, LDict):
        if v.concrete: return len(v.items)
        return mkint(dict_len(it, v))
    if isinstance(v, LSet):
        if v.concrete: return len(v.items)
        return mkint(set_len(it, v))
    try: return len(v)
    except TypeError: it.raise_(TypeError, 'object has no len()')

_card = {}
def card_fn(sort):
    f = _card.get(sort.sexpr())
    if f is None: f = _card[sort.sexpr()] = z3.Function(f'card_{len(_card)}', z3.ArraySort(sort, B), I)
    return f
def card(ctx, has, sort):
    t = card_fn(sort)(has)
    ctx.fact(t >= 0)
    k = z3.FreshConst(sort, 'k')
    ctx.fact((t == 0) == (has == z3.K(sort, z3.BoolVal(False))))
    return t
def dict_len(it, d): return z3.Length(d.order) if d.order is not None else card(it.ctx, d.has, d.kcodec.sort)
def set_len(it, s): return card(it.ctx, s.has, s.codec.sort)


def norm_index(it, i, n):
    """index term normalised for negative values; raises IndexError out of range"""
    ctx = it.ctx
    i = iterm(i)
    n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
    if ctx.branch(i < 0):
        i = i + n
        if ctx.branch(i < 0): it.raise_(IndexError, 'index out of range')
        return z3.simplify(i)
    if not ctx.branch(i < n): it.raise_(IndexError, 'index out of range')
    return i

def clamp(it, i, n, default):
    """slice bound"""
    ctx = it.ctx
    if i is None: return default
    if isinstance(i, Inst) or not is_int(i): 
        it.raise_(TypeError, 'slice indices must be integers')
    i = iterm(i)
    if ctx.branch(i < 0):
        i = z3.simplify(i + n)
        return i if ctx.branch(i >= 0) else z3.IntVal(0)
    return i if ctx.branch(i <= n) else n

def slice_term(it, t, s):
    if s.step is not None and s.step != 1:
        raise Unsupported('slice step')
    n = z3.Length(t)
    a = clamp(it, s.lo, n, z3.IntVal(0))
    b = clamp(it, s.hi, n, n)
    if it.ctx.branch(a <= b):
        return seqnorm.extract(it.ctx, t, a, z3.simplify(b - a))
    return z3.Empty(t.sort())

def byte_at(ctx, t, i):
    v = seqnorm.nth(ctx, t, i)
    if not z3.is_int_value(v):
        ctx.fact(z3.And(v >= 0, v < 256))
    return mkint(v)

def char_range(ctx, t):
    if not z3.is_int_value(t):
        ctx.fact(z3.And(t >= 0, t < 0x110000))


def getitem(it, o, k):
    ctx = it.ctx
    if isinstance(o, Inst):
        f = it.class_lookup(o.cls, '__getitem__')
        if isinstance(f, types.FunctionType): return it.call(f, [o, k])
        if o.base is not None: return getitem(it, o.base, k)
        it.raise_(TypeError, 'not subscriptable')
    if isinstance(o, (str, bytes, tuple)) and (is_concrete_index(k)):
        try: return o[conc_index(k)]
        except IndexError: it.raise_(IndexError)
        except TypeError: it.raise_(TypeError)
    if isinstance(o, (str, bytes)): o = SSeq(lit(o), 'str' if isinstance(o, str) else 'bytes')
    if isinstance(o, LBytes):
        r = seq_getitem(it, SSeq(o.t, 'bytes'), k)
        if isinstance(k, SliceV): return LBytes(ctx, sterm(r))
        return r
    if isinstance(o, SSeq): return seq_getitem(it, o, k)
    if isinstance(o, tuple):
        if isinstance(k, SliceV): raise Unsupported('tuple slice')
        vals = list(o)
        i = norm_index(it, k, len(vals))
        for j in range(len(vals)):
            if ctx.branch(i == j): return vals[j]
        raise PathEnd
    if isinstance(o, LList):
        if o.concrete:
            if isinstance(k, SliceV):
                if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                    return LList(ctx, items=o.items[slice(k.lo, k.hi, k.step)])
                n = len(o.items)
                a = clamp(it, k.lo, z3.IntVal(n), z3.IntVal(0)); b = clamp(it, k.hi, z3.IntVal(n), z3.IntVal(n))
                a = concretize(it, a, 0, n); b = concretize(it, b, 0, n)
                return LList(ctx, items=o.items[a:b])
            if isinstance(k, int):
                if -len(o.items) <= k < len(o.items): return o.items[k]
                it.raise_(IndexError, 'list index out of range')
            i = norm_index(it, k, len(o.items))
            for j in range(len(o.items)):
                if ctx.branch(i == j): return o.items[j]
            raise PathEnd
        t = o.get_seq()
        if isinstance(k, SliceV):
            if o.kind == 'deque': it.raise_(TypeError, 'deque slice')
            return LList(ctx, seq=slice_term(it, t, k), codec=o.codec)
        i = norm_index(it, k, z3.Length(t))
        return dec_elem(it, o, t, i)
    if isinstance(o, LArray):
        if isinstance(k, SliceV): raise Unsupported('array slice')
        i = norm_index(it, k, o.n)
        return o.codec.dec(ctx, z3.Select(o.arr, i))
    if isinstance(o, LDict): return dict_getitem(it, o, k)
    if isinstance(o, dict):
        if is_nat(k):
            try: return o[k]
            except KeyError: it.raise_(KeyError, k)
        kk = unbase(k)
        for key in o:
            e = compare(it, 'Eq', key, kk)
            if it.truth(e): return o[key]
        it.raise_(KeyError, k)
    if isinstance(o, list):
        if isinstance(k, int): 
            try: return o[k]
            except IndexError: it.raise_(IndexError)
    if isinstance(o, type): return o   # generic alias
    if isinstance(o, Opaque) and hasattr(o.iface, 'getitem'): return o.iface.getitem(ctx, o, k)
    if o is None or is_int(o): it.raise_(TypeError, 'not subscriptable')
    raise Unsupported(f'subscript of {o!r}')

def dec_elem(it, o, t, i):
    v = seqnorm.nth(it.ctx, t, i)
    r = o.codec.dec(it.ctx, v)
    hook = it.ctx.ghost.get('elem_facts')
    if hook is not None: hook(it.ctx, o, v)
    return r

def concretize(it, t, lo, hi):
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    for k in range(lo, hi + 1):
        if it.ctx.branch(t == k): return k
    raise PathEnd

def is_concrete_index(k):
    if isinstance(k, SliceV): return all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step))
    return isinstance(k, int)
def conc_index(k):
    if isinstance(k, SliceV): return slice(k.lo, k.hi, k.step)
    return k

def is_nat(v):
    from .interp import is_native
    return is_native(v)

def seq_getitem(it, o, k):
    ctx = it.ctx
    t = o.t
    if isinstance(k, SliceV):
        if k.step == -1 and k.lo is None and k.hi is None:
            c = const_seq(t)
            return mkseq(reverse_term(ctx, t), 'bytes' if o.kind != 'str' else 'str')
        return mkseq(slice_term(it, t, k), o.kind)
    if not is_int(k): it.raise_(TypeError, 'indices must be integers')
    i = norm_index(it, k, z3.Length(t))
    if o.kind == 'str':
        r = seqnorm.extract(ctx, t, i, 1)
        ctx.fact(z3.Length(r) == 1)
        return mkseq(r, 'str')
    return byte_at(ctx, t, i)

REV = z3.Function('seq_rev', SEQ, SEQ)
def reverse_term(ctx, t):
    c = const_seq(t)
    if c is not None: return lit_seq(c[::-1])
    r = REV(t)
    ctx.fact(z3.Length(r) == z3.Length(t))
    ctx.fact(REV(r) == t)
    return r


def setitem(it, o, k, v):
    ctx = it.ctx
    if isinstance(o, Inst):
        f = it.class_lookup(o.cls, '__setitem__')
        if isinstance(f, types.FunctionType): return it.call(f, [o, k, v])
        if o.base is not None: return setitem(it, o.base, k, v)
        it.raise_(TypeError)
    if isinstance(o, LList):
        if o.concrete:
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items): it.raise_(IndexError)
                items = list(o.items); items[k] = v; o.set_items(items); return
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                items = list(o.items); items[slice(k.lo, k.hi, k.step)] = it.iter_concrete(v); o.set_items(items); return
            if isinstance(k, SliceV): raise Unsupported('slice store')
            i = norm_index(it, k, len(o.items))
            j = concretize(it, i, 0, len(o.items) - 1)
            items = list(o.items); items[j] = v; o.set_items(items)
            return
        t = o.get_seq()
        if isinstance(k, SliceV):
            n = z3.Length(t)
            a = clamp(it, k.lo, n, z3.IntVal(0)); b = clamp(it, k.hi, n, n)
            if not ctx.branch(a <= b): b = a
            o.set_seq(z3.Concat(seqnorm.extract(ctx, t, 0, a), list_seq_term(it, v, o.codec), seqnorm.extract(ctx, t, b, n - b)))
            return
        i = norm_index(it, k, z3.Length(t))
        o.set_seq(z3.simplify(z3.Concat(seqnorm.extract(ctx, t, 0, i), z3.Unit(o.codec.enc(ctx, v)), seqnorm.extract(ctx, t, i + 1, z3.Length(t) - i - 1))))
        return
    if isinstance(o, LArray):
        i = norm_index(it, k, o.n)
        o.set(z3.Store(o.arr, i, o.codec.enc(ctx, v)), o.n)
        return
    if isinstance(o, LBytes):
        if isinstance(k, SliceV):
            n = z3.Length(o.t)
            a = clamp(it, k.lo, n, z3.IntVal(0)); b = clamp(it, k.hi, n, n)
            if not ctx.branch(a <= b): b = a
            o.set(z3.simplify(z3.Concat(seqnorm.extract(ctx, o.t, 0, a), sterm(v), seqnorm.extract(ctx, o.t, b, n - b))))
            return
        i = norm_index(it, k, z3.Length(o.t))
        x = iterm(v)
        if not ctx.branch(z3.And(x >= 0, x < 256)): it.raise_(ValueError)
        o.set(z3.simplify(z3.Concat(seqnorm.extract(ctx, o.t, 0, i), z3.Unit(x), seqnorm.extract(ctx, o.t, i + 1, z3.Length(o.t) - i - 1))))
        return
    if isinstance(o, LDict): return dict_setitem(it, o, k, v)
    if isinstance(o, Opaque) and hasattr(o.iface, 'setitem'): return o.iface.setitem(ctx, o, k, v)
    if isinstance(o, (tuple, str, bytes, SSeq)) or o is None or is_int(o): it.raise_(TypeError)
    raise Unsupported(f'item store on {o!r}')


def delitem(it, o, k):
    ctx = it.ctx
    if isinstance(o, Inst):
        f = it.class_lookup(o.cls, '__delitem__')
        if isinstance(f, types.FunctionType): return it.call(f, [o, k])
        if o.base is not None: return delitem(it, o.base, k)
        it.raise_(TypeError)
    if isinstance(o, LList):
        if o.concrete:
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items): it.raise_(IndexError)
                items = list(o.items); del items[k]; o.set_items(items); return
            if isinstance(k, SliceV):
                n = len(o.items)
                if k.step not in (None, 1): raise Unsupported('del slice step')
                a = concretize(it, clamp(it, k.lo, z3.IntVal(n), z3.IntVal(0)), 0, n)
                b = concretize(it, clamp(it, k.hi, z3.IntVal(n), z3.IntVal(n)), 0, n)
                items = list(o.items); del items[a:b]; o.set_items(items); return
            i = norm_index(it, k, len(o.items))
            j = concretize(it, i, 0, len(o.items) - 1)
            items = list(o.items); del items[j]; o.set_items(items)
            return
        t = o.get_seq()
        n = z3.Length(t)
        if isinstance(k, SliceV):
            a = clamp(it, k.lo, n, z3.IntVal(0)); b = clamp(it, k.hi, n, n)
            if not ctx.branch(a < b): return
            o.set_seq(z3.simplify(z3.Concat(seqnorm.extract(ctx, t, 0, a), seqnorm.extract(ctx, t, b, n - b))))
            return
        i = norm_index(it, k, n)
        if ctx.ghost.get('split_hooks'): remove_at(it, o, t, i); return
        seq_removed(it, o, t, i)
        o.set_seq(z3.simplify(z3.Concat(seqnorm.extract(ctx, t, 0, i), seqnorm.extract(ctx, t, i + 1, n - i - 1))))
        return
    if isinstance(o, LBytes):
        n = z3.Length(o.t)
        if isinstance(k, SliceV):
            a = clamp(it, k.lo, n, z3.IntVal(0)); b = clamp(it, k.hi, n, n)
            if not ctx.branch(a < b): return
            o.set(z3.simplify(z3.Concat(seqnorm.extract(ctx, o.t, 0, a), seqnorm.extract(ctx, o.t, b, n - b))))
            return
        i = norm_index(it, k, n)
        o.set(z3.simplify(z3.Concat(seqnorm.extract(ctx, o.t, 0, i), seqnorm.extract(ctx, o.t, i + 1, n - i - 1))))
        return
    if isinstance(o, LArray):
        if isinstance(k, SliceV): raise Unsupported('array del slice')
        i = norm_index(it, k, o.n)
        array_delete(it, o, i)
        return
    if isinstance(o, LDict): return dict_delitem(it, o, k)
    if isinstance(o, Opaque) and hasattr(o.iface, 'delitem'): return o.iface.delitem(ctx, o, k)
    raise Unsupported(f'del item on {o!r}')

def seq_removed(it, o, t, i):
    hook = it.ctx.ghost.get('on_remove')
    if hook is not None: hook(it.ctx, o, t, i)

def array_delete(it, o, i):
    ctx = it.ctx
    old = o.arr
    new = ctx.fresh('arr', old.sort())
    j = z3.Int('j')
    ctx.pc.append(z3.ForAll([j], z3.Select(new, j) == z3.If(j < i, z3.Select(old, j), z3.Select(old, j + 1)), patterns=[z3.Select(new, j)]))
    o.set(new, z3.simplify(o.n - 1))

def array_insert(it, o, i, x):
    ctx = it.ctx
    old = o.arr
    new = ctx.fresh('arr', old.sort())
    j = z3.Int('j')
    ctx.pc.append(z3.ForAll([j], z3.Select(new, j) == z3.If(j < i, z3.Select(old, j), z3.If(j == i, x, z3.Select(old, j - 1))), patterns=[z3.Select(new, j)]))
    o.set(new, z3.simplify(o.n + 1))


def list_seq_term(it, v, codec):
    """sequence term of an iterable value, elements encoded by codec"""
    if isinstance(v, Inst) and isinstance(v.base, Heap): v = v.base
    if isinstance(v, LList):
        if not v.concrete: return v.get_seq()
        return seq_of_terms([codec.enc(it.ctx, e) for e in v.items], codec.sort)
    els = concrete_elements(it, v)
    if els is None: raise Unsupported('symbolic iterable')
    return seq_of_terms([codec.enc(it.ctx, e) for e in els], codec.sort)


# ------------------------------------------------------------------ dict

def key_enc(it, d, k):
    return d.kcodec.enc(it.ctx, k if getattr(d.kcodec, "raw", False) else unbase(k))

def hashable_key(k):
    return unbase(k)

def find_key(it, items, k):
    """key of a concrete-shape mapping equal to k on this path, or None"""
    if is_nat(k):
        if k in items: 
            for kk in items:
                if kk is k or kk == k: return (kk,)
        sym = [kk for kk in items if not is_nat(kk)]
        for kk in sym:
            if it.truth(compare(it, 'Eq', kk, k)): return (kk,)
        return None
    for kk in items:
        if kk is k: return (kk,)
        if isinstance(kk, Heap) and isinstance(k, Heap) and not isinstance(k, Inst): continue
        if it.truth(compare(it, 'Eq', kk, k)): return (kk,)
    return None

def dict_has(it, d, k):
    """bool or term"""
    if d.concrete: return find_key(it, d.items, k) is not None
    return z3.Select(d.has, key_enc(it, d, k))

def dict_view(it, d, k):
    kt = key_enc(it, d, k)
    return dict_value_at(it, d, kt)

def dict_value_at(it, d, kt):
    if d.listval is not None:
        for v in d.views:
            if v.owner is not None and v.owner[1].eq(kt): return v
        v = LList(it.ctx, seq=None, codec=d.listval)
        v.owner = (d, kt)
        d.views.append(v)
        return v
    return d.vcodec.dec(it.ctx, z3.Select(d.val, kt))

def dict_getitem(it, d, k):
    if d.concrete:
        f = find_key(it, d.items, k)
        if f is None: it.raise_(KeyError, k)
        return d.items[f[0]]
    if not it.ctx.branch(dict_has(it, d, k)): it.raise_(KeyError, k)
    return dict_view(it, d, k)

def detach_views(it, d, kt):
    for v in list(d.views):
        if v.owner is None: continue
        if it.ctx.branch(v.owner[1] == kt):
            v.seq = z3.Select(d.val, kt)
            v.owner = None
            d.views.remove(v)

def dict_setitem(it, d, k, v):
    ctx = it.ctx
    ctx.touch(d, 'content')
    if d.concrete:
        f = find_key(it, d.items, k)
        if f is None: d.items[k] = v
        else: d.items[f[0]] = v
        return
    kt = key_enc(it, d, k)
    if d.listval is not None:
        if isinstance(v, Inst) and isinstance(v.base, LList): v = v.base
        if not isinstance(v, LList): raise Unsupported('list value expected')
        ctx.prove('stored value list is not shared with another holder', z3.BoolVal(v.owner is None and not getattr(v, 'shared', False)))
        detach_views(it, d, kt)
        t = list_seq_term(it, v, d.listval)
        order_insert(it, d, kt)
        d.has = z3.Store(d.has, kt, z3.BoolVal(True))
        d.val = z3.Store(d.val, kt, t)
        v.items = None; v.seq = None; v.codec = d.listval
        v.owner = (d, kt)
        d.views.append(v)
        return
    order_insert(it, d, kt)
    d.has = z3.Store(d.has, kt, z3.BoolVal(True))
    d.val = z3.Store(d.val, kt, d.vcodec.enc(ctx, v))

def order_insert(it, d, kt):
    if d.order is None: return
    if not it.ctx.branch(z3.Select(d.has, kt)):
        d.order = z3.Concat(d.order, z3.Unit(kt))

def dict_remove(it, d, kt):
    ctx = it.ctx
    ctx.touch(d, 'content')
    detach_views(it, d, kt)
    d.has = z3.Store(d.has, kt, z3.BoolVal(False))
    if d.order is not None:
        # a key of the dict stands once in the order
        a = ctx.fresh('before', d.order.sort()); b = ctx.fresh('after', d.order.sort())
        u = z3.Unit(kt)
        ctx.fact(z3.And(d.order == z3.Concat(a, u, b), z3.Not(z3.Contains(a, u)), z3.Not(z3.Contains(b, u))))
        d.order = z3.Concat(a, b)

def dict_delitem(it, d, k):
    if d.concrete:
        f = find_key(it, d.items, k)
        if f is None: it.raise_(KeyError, k)
        it.ctx.touch(d, 'content')
        del d.items[f[0]]
        return
    kt = key_enc(it, d, k)
    if not it.ctx.branch(z3.Select(d.has, kt)): it.raise_(KeyError, k)
    dict_remove(it, d, kt)


# ------------------------------------------------------------------ operators

INT_POW2 = {1 << k: k for k in range(0, 130)}

def linear(t):
    """t as (list of (coefficient, atom), constant)"""
    t = z3.simplify(t, som=True)
    terms, const = [], 0
    def go(e, k):
        nonlocal const
        if z3.is_int_value(e): const += k * e.as_long()
        elif z3.is_add(e):
            for a in e.children(): go(a, k)
        elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)): go(e.arg(1), k * e.arg(0).as_long())
        else: terms.append((k, e))
    go(t, 1)
    return terms, const

def split_pow2(ctx, t, s):
    """(q, r) with t == q * 2^s + r and 0 <= r < 2^s when that can be read off the linear form, else None"""
    if s == 0: return t, z3.IntVal(0)
    m = 1 << s
    terms, const = linear(t)
    if len(terms) > 64: return None
    q = z3.IntVal(const // m); r = z3.IntVal(const % m)
    lows = []
    for k, a in terms:
        if k % m == 0: q = q + a * (k // m)
        else: r = r + a * k; lows.append((k, a))
    r = z3.simplify(r)
    if lows and not in_range(ctx, lows, const % m, m, r): return None
    return z3.simplify(q), r

def in_range(ctx, terms, const, m, t):
    """0 <= sum < m, by intervals or else by the solver"""
    bnd = ctx.known()[1]
    lo = hi = const
    for k, a in terms:
        l, h = bnd.get(a.get_id(), (None, None))
        if l is None or h is None: break
        lo += min(k * l, k * h); hi += max(k * l, k * h)
    else:
        if lo >= 0 and hi < m: return True
    return ctx.implied(z3.And(t >= 0, t < m))

def low_zeros(t):
    """number of low bits of t that are certainly zero"""
    terms, const = linear(t)
    g = const
    for k, _ in terms: g = math.gcd(g, k)
    return 4096 if g == 0 else (g & -g).bit_length() - 1

def shift_right(ctx, x, s):
    r = split_pow2(ctx, x, s)
    return r[0] if r is not None else x / z3.IntVal(1 << s)

def low_bits(ctx, x, w):
    r = split_pow2(ctx, x, w)
    return r[1] if r is not None else x % z3.IntVal(1 << w)

def bit_and_const(x, c, ctx=None):
    """x & c for a non negative constant c, as a linear combination of div/mod terms (x any integer)"""
    out = []
    k = 0
    while c >> k:
        if (c >> k) & 1:
            j = k
            while (c >> j) & 1: j += 1
            # bits k .. j-1
            q = (shift_right(ctx, x, k) if ctx is not None else x / z3.IntVal(1 << k)) if k else x
            out.append((low_bits(ctx, q, j - k) if ctx is not None else q % z3.IntVal(1 << (j - k))) * z3.IntVal(1 << k))
            k = j
        else: k += 1
    if not out: return z3.IntVal(0)
    r = out[0]
    for t in out[1:]: r = r + t
    return r

BITAND = z3.Function('bit_and', I, I, I)

def int_and(ctx, a, b):
    a = z3.simplify(a); b = z3.simplify(b)
    if z3.is_int_value(a): a, b = b, a
    if z3.is_int_value(b):
        c = b.as_long()
        if c >= 0: return z3.simplify(bit_and_const(a, c, ctx))
        return a - bit_and_const(a, ~c, ctx)
    for x, y in ((a, b), (b, a)):
        z = low_zeros(x)
        if z and in_range(ctx, *linear(y), 1 << z, y): return z3.IntVal(0)
    t = BITAND(a, b)
    ctx.fact(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(t >= 0, t <= a, t <= b)))
    ctx.fact(BITAND(b, a) == t)
    # low-bits disjointness: a multiple of 2^k and b < 2^k
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32, 64, 96):
        ctx.fact(z3.Implies(z3.And(a % (1 << k) == 0, b >= 0, b < (1 << k)), t == 0))
        ctx.fact(z3.Implies(z3.And(b % (1 << k) == 0, a >= 0, a < (1 << k)), t == 0))
    return t

def shift_amount(it, b):
    b = z3.simplify(b)
    if z3.is_int_value(b): return b.as_long()
    return None

POW2 = z3.Function('pow2', I, I)
def pow2(ctx, n):
    n = z3.simplify(n)
    if z3.is_int_value(n): return z3.IntVal(1 << n.as_long())
    t = POW2(n)
    ctx.fact(z3.Implies(n >= 0, t >= 1))
    ctx.fact(POW2(n + 1) == 2 * t)
    return t

def binop(it, op, a, b):
    ctx = it.ctx
    # user classes
    if isinstance(a, Inst) or isinstance(b, Inst):
        nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Mod': 'mod', 'FloorDiv': 'floordiv', 'Div': 'truediv', 'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}.get(op)
        if isinstance(a, Inst) and nm:
            f = it.class_lookup(a.cls, f'__{nm}__')
            if isinstance(f, types.FunctionType):
                r = it.call(f, [a, b])
                if r is not NotImplemented: return r
        if isinstance(b, Inst) and nm:
            f = it.class_lookup(b.cls, f'__r{nm}__')
            if isinstance(f, types.FunctionType):
                r = it.call(f, [b, a])
                if r is not NotImplemented: return r
        if isinstance(a, Inst) and a.base is not None: a = a.base
        if isinstance(b, Inst) and b.base is not None: b = b.base
        if isinstance(a, Inst) or isinstance(b, Inst): it.raise_(TypeError, f'unsupported operand {op}')
    if is_nat(a) and is_nat(b) and not isinstance(a, (list, dict)):
        try:
            return OPS[op](a, b)
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            it.raise_(type(e), *e.args)
    if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
        if (is_int(a) or isinstance(a, (SReal, float))) and (is_int(b) or isinstance(b, (SReal, float))):
            x = z3.ToReal(iterm(a)) if is_int(a) else term(a)
            y = z3.ToReal(iterm(b)) if is_int(b) else term(b)
            if op == 'Add': return SReal(x + y)
            if op == 'Sub': return SReal(x - y)
            if op == 'Mult': return SReal(x * y)
            if op == 'Div': return SReal(x / y)
            raise Unsupported(f'float {op}')
        it.raise_(TypeError)
    if is_int(a) and is_int(b):
        return int_binop(it, op, a, b)
    if op == 'Add':
        if is_str(a) and is_str(b): return mkseq(z3.Concat(sterm(a), sterm(b)), 'str')
        if is_bytes(a) and is_bytes(b):
            t = z3.Concat(sterm(a), sterm(b))
            if isinstance(a, (LBytes, bytearray)): return LBytes(ctx, z3.simplify(t))
            if isinstance(a, SSeq) and a.kind == 'view': it.raise_(TypeError)
            return mkseq(t, 'bytes')
        if isinstance(a, LList) and isinstance(b, LList):
            if a.concrete and b.concrete: return LList(ctx, items=a.items + b.items)
            c = a.codec or b.codec
            return LList(ctx, seq=z3.Concat(list_seq_term(it, a, c), list_seq_term(it, b, c)), codec=c)
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if op == 'Mult':
        if (is_str(a) or is_bytes(a)) and is_int(b): return repeat(it, a, b)
        if (is_str(b) or is_bytes(b)) and is_int(a): return repeat(it, b, a)
        if isinstance(a, LList) and a.concrete and isinstance(b, int): return LList(ctx, items=a.items * b)
    if op == 'Mod' and is_str(a):
        return SSeq(ctx.fresh('formatted', SEQ), 'str')
    if isinstance(a, LSet) and isinstance(b, LSet): return set_binop(it, op, a, b)
    if op == 'BitOr' and isinstance(a, (type, types.UnionType)): return a
    if isinstance(a, Opaque) and hasattr(a.iface, 'binop'): return a.iface.binop(ctx, op, a, b)
    if isinstance(b, Opaque) and hasattr(b.iface, 'rbinop'): return b.iface.rbinop(ctx, op, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported(f'{op} on opaque')
    it.raise_(TypeError, f'unsupported operand types for {op}')

def repeat(it, a, n):
    k = iterm(n)
    ctx = it.ctx
    c = const_seq(sterm(a))
    kk = z3.simplify(k)
    kind = 'str' if is_str(a) else 'bytes'
    if z3.is_int_value(kk):
        n = max(kk.as_long(), 0)
        if n > 64 and c is None: raise Unsupported('repeat')
        if c is not None: return mkseq(lit_seq(c * n), kind)
        return mkseq(z3.Concat(*([sterm(a)] * n)) if n > 1 else (sterm(a) if n else z3.Empty(SEQ)), kind)
    f = z3.Function('seq_repeat', SEQ, I, SEQ)
    t = f(sterm(a), k)
    ctx.fact(z3.Length(t) == z3.If(k > 0, k * z3.Length(sterm(a)), 0))
    return SSeq(t, kind)

OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv, 'Mod': operator.mod,
    'Pow': operator.pow, 'LShift': operator.lshift, 'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor, 'MatMult': operator.matmul}

def int_binop(it, op, a, b):
    ctx = it.ctx
    boolish = isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool))
    if boolish and op in ('BitAnd', 'BitOr', 'BitXor'):
        x, y = term(a), term(b)
        return mkbool({'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](x, y))
    x, y = iterm(a), iterm(b)
    if op == 'Add': return mkint(x + y)
    if op == 'Sub': return mkint(x - y)
    if op == 'Mult': return mkint(x * y)
    if op in ('FloorDiv', 'Mod'):
        if ctx.branch(y == 0): it.raise_(ZeroDivisionError)
        if ctx.branch(y > 0):
            return mkint(x / y) if op == 'FloorDiv' else mkint(x % y)
        # Python floors; z3 division is Euclidean
        if op == 'FloorDiv': return mkint(z3.If((-x) % (-y) == 0, (-x) / (-y), (-x) / (-y)))
        return mkint(-((-x) % (-y)))
    if op == 'BitAnd': return mkint(int_and(ctx, x, y))
    if op == 'BitOr': return mkint(x + y - int_and(ctx, x, y))
    if op == 'BitXor': return mkint(x + y - 2 * int_and(ctx, x, y))
    if op in ('LShift', 'RShift'):
        if ctx.branch(y < 0): it.raise_(ValueError, 'negative shift count')
        p = pow2(ctx, y)
        ys = z3.simplify(y)
        if op == 'RShift' and z3.is_int_value(ys): return mkint(shift_right(ctx, x, ys.as_long()))
        return mkint(x * p) if op == 'LShift' else mkint(x / p)
    if op == 'Div': return SReal(z3.ToReal(x) / z3.ToReal(y))
    if op == 'Pow':
        yy = z3.simplify(y)
        if z3.is_int_value(yy) and 0 <= yy.as_long() <= 8:
            r = z3.IntVal(1)
            for _ in range(yy.as_long()): r = r * x
            return mkint(r)
        xx = z3.simplify(x)
        if z3.is_int_value(xx) and xx.as_long() == 2: return mkint(pow2(ctx, y))
    raise Unsupported(f'int {op}')

def inplace(it, op, a, b):
    ctx = it.ctx
    if isinstance(a, LList) and op == 'Add':
        call_method(it, a, 'extend', [b], {}); return a
    if isinstance(a, LBytes) and op == 'Add':
        call_method(it, a, 'extend', [b], {}); return a
    if isinstance(a, LSet) and op in ('BitOr', 'BitAnd', 'Sub'):
        r = set_binop(it, op, a, b)
        ctx.touch(a, 'content')
        a.items, a.has = r.items, r.has
        return a
    if isinstance(a, Inst):
        nm = {'Add': 'iadd', 'Sub': 'isub', 'BitOr': 'ior', 'BitAnd': 'iand'}.get(op)
        f = it.class_lookup(a.cls, f'__{nm}__') if nm else None
        if isinstance(f, types.FunctionType): return it.call(f, [a, b])
    return binop(it, op, a, b)

def unary(it, op, v):
    if isinstance(v, Inst) and v.base is not None: v = v.base
    if is_nat(v):
        try: return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op](v)
        except TypeError as e: it.raise_(TypeError)
    if isinstance(v, SReal): return SReal(-v.t)
    if is_int(v):
        x = iterm(v)
        if op == 'USub': return mkint(-x)
        if op == 'UAdd': return mkint(x)
        if op == 'Invert': return mkint(-x - 1)
    it.raise_(TypeError)

SEQ_LT = z3.Function('seq_lt', SEQ, SEQ, B)

def eq_term(it, a, b):
    """equality as bool or term (==)"""
    ctx = it.ctx
    if isinstance(a, Inst) or isinstance(b, Inst):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                f = it.class_lookup(x.cls, '__eq__')
                if isinstance(f, types.FunctionType):
                    r = it.call(f, [x, y])
                    if r is not NotImplemented:
                        return it.truth_term(r)
        if isinstance(a, Inst) and a.base is not None and not isinstance(b, Inst): return eq_term(it, a.base, b)
        if isinstance(b, Inst) and b.base is not None and not isinstance(a, Inst): return eq_term(it, a, b.base)
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a is b: return True
            if a.base is not None and b.base is not None: return eq_term(it, a.base, b.base)
        return a is b
    if a is b and not isinstance(a, float): return True
    if is_nat(a) and is_nat(b):
        try: return bool(a == b)
        except Exception as e: it.raise_(type(e), *e.args)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and hasattr(a.iface, 'eq'): return a.iface.eq(ctx, a, b)
        if isinstance(b, Opaque) and hasattr(b.iface, 'eq'): return b.iface.eq(ctx, b, a)
        if isinstance(a, Opaque) and isinstance(b, Opaque): return a.t == b.t
        return False
    if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
        if (is_int(a) or isinstance(a, (SReal, float))) and (is_int(b) or isinstance(b, (SReal, float))):
            x = z3.ToReal(iterm(a)) if is_int(a) else term(a)
            y = z3.ToReal(iterm(b)) if is_int(b) else term(b)
            return x == y
        return False
    if is_int(a) and is_int(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return term(a) == term(b)
        return iterm(a) == iterm(b)
    if is_str(a) and is_str(b): return sterm(a) == sterm(b)
    if is_bytes(a) and is_bytes(b): return sterm(a) == sterm(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        ts = []
        for x, y in zip(a, b):
            r = eq_term(it, x, y)
            if r is False: return False
            if r is not True: ts.append(r)
        return z3.And(*ts) if ts else True
    if isinstance(a, list): a = LList(ctx, items=list(a))
    if isinstance(b, list): b = LList(ctx, items=list(b))
    if isinstance(a, LList) and isinstance(b, LList):
        if a.concrete and b.concrete: return eq_term(it, tuple(a.items), tuple(b.items))
        c = a.codec or b.codec
        return list_seq_term(it, a, c) == list_seq_term(it, b, c)
    if isinstance(a, LDict) and isinstance(b, LDict):
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items): return False
            ts = []
            for k, v in a.items.items():
                f = find_key(it, b.items, k)
                if f is None: return False
                r = eq_term(it, v, b.items[f[0]])
                if r is False: return False
                if r is not True: ts.append(r)
            return z3.And(*ts) if ts else True
        if a.concrete or b.concrete: raise Unsupported('dict equality')
        k = z3.Const('k', a.kcodec.sort)
        return z3.And(a.has == b.has, z3.ForAll([k], z3.Implies(z3.Select(a.has, k), z3.Select(a.val, k) == z3.Select(b.val, k))))
    if isinstance(a, LSet) and isinstance(b, LSet):
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items): return False
            for x in a.items:
                if not any(it.truth(compare(it, 'Eq', x, y)) for y in b.items): return False
            return True
        if a.has is not None and b.has is not None: return a.has == b.has
        raise Unsupported('set equality')
    return False

IS_NONE = z3.Function('is_none', OBJ, B)
def identical(it, a, b):
    if a is b: return True
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, Opaque) and getattr(o.iface, 'maybe_none', False): return IS_NONE(o.t)
        return False
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a.t == b.t
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return term(a) == term(b)
    if isinstance(a, Bound) and isinstance(b, Bound): return False
    if is_nat(a) and is_nat(b): return a is b
    if is_int(a) and is_int(b): return eq_term(it, a, b)
    if isinstance(a, SSeq) and isinstance(b, SSeq): return a.t.eq(b.t) or z3.BoolVal(False)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 0: return True
    return False

def compare(it, op, a, b):
    ctx = it.ctx
    if op == 'Is': return mkbool(identical(it, a, b))
    if op == 'IsNot':
        r = identical(it, a, b)
        return mkbool((not r) if isinstance(r, bool) else z3.Not(r))
    if op == 'Eq':
        return mkbool(eq_term(it, a, b))
    if op == 'NotEq':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                f = it.class_lookup(x.cls, '__ne__')
                if isinstance(f, types.FunctionType):
                    r = it.call(f, [x, y])
                    if r is not NotImplemented: return r
                elif x.base is not None and issubclass(x.cls, (str, int, bytes, list, dict)):
                    # builtin __ne__ of the base wins over the derived __eq__
                    yb = y.base if isinstance(y, Inst) and y.base is not None else y
                    if not isinstance(x.base, Heap):
                        r = eq_term(it, x.base, yb)
                        return mkbool((not r) if isinstance(r, bool) else z3.Not(r))
        r = eq_term(it, a, b)
        return mkbool((not r) if isinstance(r, bool) else z3.Not(r))
    if op in ('In', 'NotIn'):
        r = contains(it, b, a)
        if op == 'NotIn': r = (not r) if isinstance(r, bool) else z3.Not(r)
        return mkbool(r)
    # orderings
    for x, y, nm in ((a, b, {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op]), (b, a, {'Lt': 'gt', 'LtE': 'ge', 'Gt': 'lt', 'GtE': 'le'}[op])):
        if isinstance(x, Inst):
            f = it.class_lookup(x.cls, f'__{nm}__')
            if isinstance(f, types.FunctionType):
                r = it.call(f, [x, y])
                if r is not NotImplemented: return r
    a = unbase(a); b = unbase(b)
    if is_nat(a) and is_nat(b):
        try: return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
        except TypeError as e: it.raise_(TypeError)
    if isinstance(a, Opaque) and hasattr(a.iface, 'order'): return mkbool(a.iface.order(ctx, op, a, b))
    if isinstance(b, Opaque) and hasattr(b.iface, 'rorder'): return mkbool(b.iface.rorder(ctx, op, a, b))
    num = lambda v: is_int(v) or isinstance(v, (SReal, float))
    if num(a) and num(b):
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            x = z3.ToReal(iterm(a)) if is_int(a) else term(a)
            y = z3.ToReal(iterm(b)) if is_int(b) else term(b)
        else: x, y = iterm(a), iterm(b)
        return mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if (is_str(a) and is_str(b)) or (is_bytes(a) and is_bytes(b)):
        x, y = sterm(a), sterm(b)
        if op in ('Gt', 'LtE'): x, y = y, x
        t = seq_lt(it, x, y)
        if op in ('LtE', 'GtE'): t = z3.Not(t)
        return mkbool(t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        # lexicographic
        for u, v in zip(a, b):
            e = eq_term(it, u, v)
            if not ctx.branch(e if isinstance(e, bool) else z3.simplify(e)): return compare(it, op, u, v)
        n, m = len(a), len(b)
        return {'Lt': n < m, 'LtE': n <= m, 'Gt': n > m, 'GtE': n >= m}[op]
    if isinstance(a, LSet) and isinstance(b, LSet): raise Unsupported('set order')
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('order of opaque')
    it.raise_(TypeError, 'unorderable')

def seq_lt(it, x, y):
    """lexicographic order, exact for single characters / single character ranges"""
    ctx = it.ctx
    cy, cx = const_seq(y), const_seq(x)
    if cy is not None and len(cy) == 1:
        # x < c  <=> x == '' or x[0] < c
        c = cy[0]
        if ctx.branch(z3.Length(x) == 0): return z3.BoolVal(True)
        return x[0] < c
    if cx is not None and len(cx) == 1:
        c = cx[0]
        # c < y <=> y != '' and (y[0] > c or (y[0] == c and len(y) > 1))
        if ctx.branch(z3.Length(y) == 0): return z3.BoolVal(False)
        return z3.Or(y[0] > c, z3.And(y[0] == c, z3.Length(y) > 1))
    if ctx.branch(z3.And(z3.Length(x) == 1, z3.Length(y) == 1)): return x[0] < y[0]
    t = SEQ_LT(x, y)
    ctx.fact(z3.Not(z3.And(t, SEQ_LT(y, x))))
    ctx.fact(z3.Or(t, SEQ_LT(y, x), x == y))
    ctx.fact(z3.Not(SEQ_LT(x, x)))
    return t

def in_charset(x, codes):
    """x: int term, codes: set of ints -> range disjunction"""
    codes = sorted(codes)
    out = []
    k = 0
    while k < len(codes):
        j = k
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1: j += 1
        if j == k: out.append(x == codes[k])
        else: out.append(z3.And(x >= codes[k], x <= codes[j]))
        k = j + 1
    return z3.Or(*out) if out else z3.BoolVal(False)

def contains(it, c, x):
    """x in c -> bool or term"""
    ctx = it.ctx
    if isinstance(c, Inst):
        f = it.class_lookup(c.cls, '__contains__')
        if isinstance(f, types.FunctionType): return it.truth_term(it.call(f, [c, x]))
        if c.base is not None: return contains(it, c.base, x)
        f = it.class_lookup(c.cls, '__iter__')
        if isinstance(f, types.FunctionType):
            return contains(it, LList(ctx, items=it.iter_concrete(it.call(f, [c]))), x)
        it.raise_(TypeError)
    if is_nat(c) and is_nat(x):
        try: return x in c
        except TypeError as e: it.raise_(TypeError)
    if is_str(c):
        if not is_str(x): it.raise_(TypeError)
        cc = const_seq(sterm(c))
        xt = sterm(x)
        if cc is not None:
            # single characters: exact range test
            n = z3.simplify(z3.Length(xt))
            if ctx.branch(n == 1): return in_charset(xt[0], set(cc))
            if ctx.branch(n == 0): return True
        return z3.Contains(sterm(c), xt)
    if is_bytes(c):
        if is_int(x):
            cc = const_seq(sterm(c))
            if cc is not None: return in_charset(iterm(x), set(cc))
            return z3.Contains(sterm(c), z3.Unit(iterm(x)))
        if is_bytes(x): return z3.Contains(sterm(c), sterm(x))
        it.raise_(TypeError)
    if isinstance(c, (frozenset, set, tuple, list, dict, types.MappingProxyType)):
        els = list(c)
        x = unbase(x)
        if isinstance(x, SSeq):
            kind = str if x.kind == 'str' else bytes
            els = [e for e in els if isinstance(e, (kind, SSeq))]
            if all(isinstance(e, kind) for e in els):
                single = {ord(e) if kind is str else e[0] for e in els if len(e) == 1}
                multi = [e for e in els if len(e) != 1]
                parts = [x.t == lit(e) for e in multi]
                if single: parts.append(z3.And(z3.Length(x.t) == 1, in_charset(x.t[0], single)))
                return z3.Or(*parts) if parts else False
        if isinstance(x, SInt) and all(isinstance(e, int) for e in els):
            return in_charset(x.t, set(int(e) for e in els))
        out = []
        for e in els:
            if e is x: return True
            r = eq_term(it, e, x)
            if r is True: return True
            if r is not False: out.append(r)
        return z3.Or(*out) if out else False
    if isinstance(c, LList):
        if c.concrete:
            out = []
            for e in c.items:
                if e is x: return True
                r = eq_term(it, e, x)
                if r is True: return True
                if r is not False: out.append(r)
            return z3.Or(*out) if out else False
        return z3.Contains(c.get_seq(), z3.Unit(c.codec.enc(ctx, x)))
    if isinstance(c, LArray):
        j = z3.Int('j')
        return z3.Exists([j], z3.And(0 <= j, j < c.n, z3.Select(c.arr, j) == c.codec.enc(ctx, x)))
    if isinstance(c, LDict):
        r = dict_has(it, c, x)
        return r
    if isinstance(c, LSet):
        if c.concrete:
            out = []
            for e in c.items:
                if e is x: return True
                r = eq_term(it, e, x)
                if r is True: return True
                if r is not False: out.append(r)
            return z3.Or(*out) if out else False
        return z3.Select(c.has, c.codec.enc(ctx, x))
    if isinstance(c, range):
        if is_int(x):
            t = iterm(x)
            if c.step == 1: return z3.And(t >= c.start, t < c.stop)
    if isinstance(c, Opaque) and hasattr(c.iface, 'contains'): return c.iface.contains(ctx, c, x)
    if c is None or is_int(c): it.raise_(TypeError, 'not iterable')
    raise Unsupported(f'in {c!r}')

def set_binop(it, op, a, b):
    ctx = it.ctx
    if a.concrete and b.concrete:
        inb = lambda x: it.truth(mkbool(contains(it, b, x)))
        if op == 'BitOr': 
            out = list(a.items)
            for x in b.items:
                if not it.truth(mkbool(contains(it, LSet(ctx, items=out), x))): out.append(x)
        elif op == 'BitAnd': out = [x for x in a.items if inb(x)]
        elif op == 'Sub': out = [x for x in a.items if not inb(x)]
        else: raise Unsupported(f'set {op}')
        return LSet(ctx, items=out)
    if a.has is not None and b.has is not None:
        k = z3.FreshConst(a.codec.sort, 'k')
        if op == 'BitOr': t = z3.SetUnion(a.has, b.has)
        elif op == 'BitAnd': t = z3.SetIntersect(a.has, b.has)
        elif op == 'Sub': t = z3.SetDifference(a.has, b.has)
        else: raise Unsupported(f'set {op}')
        return LSet(ctx, has=t, codec=a.codec)
    raise Unsupported('set operation')


# ------------------------------------------------------------------ iteration

def concrete_elements(it, v):
    """elements of an iterable whose length is known, or None"""
    ctx = it.ctx
    if isinstance(v, Inst):
        f = it.class_lookup(v.cls, '__iter__')
        if isinstance(f, types.FunctionType):
            return concrete_elements(it, it.call(f, [v]))
        if v.base is not None: return concrete_elements(it, v.base)
        it.raise_(TypeError, 'not iterable')
    if isinstance(v, (tuple,)): return list(v)
    if isinstance(v, (str, bytes, list, range, frozenset, set)): return list(v) if len(v) <= 4096 else None
    if isinstance(v, dict): return list(v)
    if isinstance(v, (types.MappingProxyType,)): return list(v)
    if type(v).__name__ in ('dict_keys', 'dict_values', 'dict_items'): return list(v)
    if isinstance(v, LList): return list(v.items) if v.concrete else None
    if isinstance(v, LDict): return list(v.items) if v.concrete else None
    if isinstance(v, LSet): return list(v.items) if v.concrete else None
    if isinstance(v, DictIter):
        d = v.d
        if not d.concrete: return None
        if v.what == 'keys': return list(d.items)
        if v.what == 'values': return list(d.items.values())
        return list(d.items.items())
    if isinstance(v, SSeq):
        c = const_seq(v.t)
        if c is not None: return [chr(x) if v.kind == 'str' else x for x in c]
        return None
    if isinstance(v, Gen):
        return it.collect(v)
    if isinstance(v, ZipV):
        cols = [concrete_elements(it, x) for x in v.parts]
        if any(c is None for c in cols): return None
        return [tuple(r) for r in zip(*cols)]
    if isinstance(v, EnumV):
        c = concrete_elements(it, v.src)
        if c is None: return None
        return [((binop(it, 'Add', v.start, k)), x) for k, x in enumerate(c)]
    if isinstance(v, RangeV):
        a, b, s = v.a, v.b, v.s
        a, b = z3.simplify(iterm(a)), z3.simplify(iterm(b))
        if z3.is_int_value(a) and z3.is_int_value(b) and isinstance(s, int):
            r = range(a.as_long(), b.as_long(), s)
            return list(r) if len(r) <= 4096 else None
        return None
    if isinstance(v, ListIter):
        els = concrete_elements(it, v.source)
        if els is None or not isinstance(v.pos, int): return None
        p = v.pos
        v.pos = len(els)
        return els[p:]
    if v is None or is_int(v): it.raise_(TypeError, 'not iterable')
    return None


class SymIter:
    def __init__(self, n, get, seq=None): self.n = n; self.get = get; self.seq = seq

class RangeV:
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s
class EnumV:
    def __init__(self, src, start): self.src = src; self.start = start
class ZipV:
    def __init__(self, parts): self.parts = parts
class ReversedV:
    def __init__(self, src): self.src = src
class DictIter:
    def __init__(self, d, what): self.d = d; self.what = what

def symbolic_iter(it, v):
    ctx = it.ctx
    if isinstance(v, Inst) and v.base is not None: v = v.base
    if isinstance(v, SSeq):
        t = v.t
        if v.kind == 'str':
            def get(i):
                r = z3.simplify(z3.Extract(t, i, 1))
                ctx.fact(z3.Length(r) == 1)
                return SSeq(r, 'str')
        else:
            def get(i): return byte_at(ctx, t, i)
        return SymIter(z3.Length(t), get, t)
    if isinstance(v, LBytes): return symbolic_iter(it, SSeq(v.t, 'bytes'))
    if isinstance(v, LList):
        t = v.get_seq()
        return SymIter(z3.Length(t), lambda i: dec_elem(it, v, t, i), t)
    if isinstance(v, LArray):
        return SymIter(v.n, lambda i: v.codec.dec(ctx, z3.Select(v.arr, i)))
    if isinstance(v, RangeV):
        a, b = iterm(v.a), iterm(v.b)
        if v.s == 1:
            n = z3.If(b > a, b - a, z3.IntVal(0))
            return SymIter(n, lambda i: mkint(a + i))
        if v.s == -1:
            n = z3.If(a > b, a - b, z3.IntVal(0))
            return SymIter(n, lambda i: mkint(a - i))
        if isinstance(v.s, int) and v.s > 0:
            n = z3.If(b > a, (b - a + v.s - 1) / v.s, z3.IntVal(0))
            return SymIter(n, lambda i: mkint(a + i * v.s))
        raise Unsupported('range step')
    if isinstance(v, EnumV):
        s = symbolic_iter(it, v.src)
        return SymIter(s.n, lambda i: (binop(it, 'Add', v.start, mkint(i)), s.get(i)), s.seq)
    if isinstance(v, ReversedV):
        s = symbolic_iter(it, v.src)
        return SymIter(s.n, lambda i: s.get(z3.simplify(s.n - 1 - i)), s.seq)
    if isinstance(v, ZipV):
        ss = [symbolic_iter(it, x) for x in v.parts]
        n = ss[0].n
        for s in ss[1:]: n = z3.If(s.n < n, s.n, n)
        return SymIter(n, lambda i: tuple(s.get(i) for s in ss))
    if isinstance(v, DictIter) or isinstance(v, LDict):
        d = v if isinstance(v, LDict) else v.d
        what = 'keys' if isinstance(v, LDict) else v.what
        if d.order is None: raise Unsupported('iteration over an unordered symbolic dict')
        order = d.order
        n = z3.Length(order)
        def get(i):
            kt = z3.simplify(order[i])
            ctx.fact(z3.Implies(z3.And(0 <= i, i < n), z3.Select(d.has, kt)))
            kv = d.kcodec.dec(ctx, kt)
            if what == 'keys': return kv
            vv = dict_value_at(it, d, kt)
            return vv if what == 'values' else (kv, vv)
        return SymIter(n, get, order)
    if isinstance(v, ListIter) and v.pos is not None:
        s = symbolic_iter(it, v.source); p = v.pos
        ctx.touch(v, 'pos')
        v.pos = None        # not used again: where a loop leaves it is not tracked
        if isinstance(p, int) and p == 0: return s
        return SymIter(z3.If(s.n > p, s.n - p, z3.IntVal(0)), lambda i: s.get(z3.simplify(i + p)), s.seq)
    if isinstance(v, Opaque) and hasattr(v.iface, 'symiter'): return v.iface.symiter(ctx, v)
    raise Unsupported(f'iteration over {v!r}')

def unpack(it, v, n, star):
    els = concrete_elements(it, v)
    if els is not None: return els
    ctx = it.ctx
    if isinstance(v, (SSeq, LBytes, LList)) and not star:
        t = sterm(v) if not isinstance(v, LList) else v.get_seq()
        if not ctx.branch(z3.Length(t) == n): it.raise_(ValueError, 'unpack length')
        s = symbolic_iter(it, v)
        return [s.get(z3.IntVal(k)) for k in range(n)]
    if isinstance(v, Opaque) and hasattr(v.iface, 'unpack'): return v.iface.unpack(ctx, v, n)
    raise Unsupported(f'unpacking {v!r}')


# ------------------------------------------------------------------ strings

IDNA = z3.Function('idna', SEQ, SEQ); IDNA_OK = z3.Function('idna_ok', SEQ, B); UNIDNA = z3.Function('unidna', SEQ, SEQ); UNIDNA_OK = z3.Function('unidna_ok', SEQ, B)
INT_STR = z3.Function('int_to_str', I, SEQ)
HEX_STR = z3.Function('int_to_hex', I, SEQ)
PY_INT = z3.Function('str_to_int', SEQ, I, I)
PY_INT_OK = z3.Function('str_is_int', SEQ, I, B)
LOWER = z3.Function('str_lower', SEQ, SEQ)
UPPER = z3.Function('str_upper', SEQ, SEQ)
CASEFOLD = z3.Function('str_casefold', SEQ, SEQ)
UTF8 = z3.Function('utf8', SEQ, SEQ)
UTF8_OK = z3.Function('utf8_encodable', SEQ, B)
UNUTF8 = z3.Function('utf8_decode', SEQ, SEQ)
UNUTF8_OK = z3.Function('utf8_valid', SEQ, B)
ENC = z3.Function('encode_with', SEQ, SEQ, SEQ)
ENC_OK = z3.Function('encodable_with', SEQ, SEQ, B)
DEC = z3.Function('decode_with', SEQ, SEQ, SEQ)
DEC_OK = z3.Function('decodable_with', SEQ, SEQ, B)

def int_str(it, t, base=10):
    ctx = it.ctx
    f = INT_STR if base == 10 else HEX_STR
    t = z3.simplify(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return lit(str(v) if base == 10 else format(v, 'x'))
    r = f(t)
    ctx.fact(z3.Length(r) >= 1)
    ctx.fact(PY_INT(r, z3.IntVal(base)) == t)
    ctx.fact(PY_INT_OK(r, z3.IntVal(base)))
    ctx.fact(z3.And(UTF8_OK(r), UTF8(r) == r, below(r, 128)))
    if base == 10 and ctx.ghost.get('small ints'):
        d = lambda k: z3.Unit(48 + k)
        ctx.fact(z3.Implies(z3.And(0 <= t, t < 10), r == d(t)))
        ctx.fact(z3.Implies(z3.And(10 <= t, t < 100), r == z3.Concat(d(t / 10), d(t % 10))))
        ctx.fact(z3.Implies(z3.And(100 <= t, t < 1000), r == z3.Concat(d(t / 100), d(t / 10 % 10), d(t % 10))))
    ctx.ghost.setdefault('int_strs', []).append((r, t, base))
    return r

def to_str(it, v, repr_=False):
    """str(v)"""
    ctx = it.ctx
    if isinstance(v, str) and not repr_: return v
    if isinstance(v, SSeq) and v.kind == 'str' and not repr_: return v
    if isinstance(v, Inst):
        if not repr_:
            f = it.class_lookup(v.cls, '__str__')
            if isinstance(f, types.FunctionType): return it.call(f, [v])
            if isinstance(v.base, (str, SSeq)): return v.base
            f = it.class_lookup(v.cls, '__repr__')
            if isinstance(v.base, (int, SInt)) and not isinstance(f, types.FunctionType): return to_str(it, v.base)
        return SSeq(ctx.fresh('repr', SEQ), 'str')
    if isinstance(v, (SInt,)) : return mkseq(int_str(it, v.t), 'str')
    if isinstance(v, SBool): return 'True' if ctx.branch(v.t) else 'False'
    if is_nat(v):
        return repr(v) if repr_ else str(v)
    return SSeq(ctx.fresh('repr', SEQ), 'str')

def format_value(it, v, conversion, spec):
    if spec == '' or spec is None:
        return to_str(it, v, repr_=conversion == 114)
    if is_nat(v) and isinstance(spec, str): return format(v, spec)
    if isinstance(v, SInt) and spec in ('x', 'd'):
        return mkseq(int_str(it, v.t, 16 if spec == 'x' else 10), 'str')
    if isinstance(v, SInt) and spec in ('02X', '02x') and it.ctx.implied(z3.And(v.t >= 0, v.t < 256)):
        a = 55 if spec == '02X' else 87
        dig = lambda d: z3.If(d < 10, 48 + d, a + d)
        return SSeq(z3.Concat(z3.Unit(dig(v.t / 16)), z3.Unit(dig(v.t % 16))), 'str')
    if is_int(v) and isinstance(spec, str) and spec and spec[-1] in 'xXd0123456789s':
        f = z3.Function('format_' + spec.encode().hex(), I, SEQ)
        return SSeq(f(iterm(v)), 'str')
    return SSeq(it.ctx.fresh('formatted', SEQ), 'str')

def concat_str(it, parts):
    ts = []
    for p in parts:
        if isinstance(p, str) and not p: continue
        ts.append(sterm(p))
    if not ts: return ''
    if len(ts) == 1: return mkseq(ts[0], 'str')
    return mkseq(z3.Concat(*ts), 'str')

def find_first(it, t, sub):
    """-> None when absent, else (pre, post) with t == pre + sub + post, first occurrence. Splits the path."""
    ctx = it.ctx
    if not ctx.branch(z3.Contains(t, sub)): return None
    pre = ctx.fresh('pre', SEQ); post = ctx.fresh('post', SEQ)
    ctx.pc.append(t == z3.Concat(pre, sub, post))
    n = z3.simplify(z3.Length(sub))
    if z3.is_int_value(n) and n.as_long() == 1:
        ctx.pc.append(z3.Not(z3.Contains(pre, sub)))
    elif ctx.branch(n == 0):
        ctx.pc.append(z3.Length(pre) == 0)
    else:
        ctx.pc.append(z3.Not(z3.Contains(z3.Concat(pre, z3.Extract(sub, 0, n - 1)), sub)))
        ctx.pc.append(z3.IndexOf(t, sub, 0) == z3.Length(pre))
    return pre, post

def find_last(it, t, sub):
    ctx = it.ctx
    if not ctx.branch(z3.Contains(t, sub)): return None
    pre = ctx.fresh('pre', SEQ); post = ctx.fresh('post', SEQ)
    ctx.pc.append(t == z3.Concat(pre, sub, post))
    n = z3.simplify(z3.Length(sub))
    if z3.is_int_value(n) and n.as_long() == 1:
        ctx.pc.append(z3.Not(z3.Contains(post, sub)))
    elif ctx.branch(n == 0):
        ctx.pc.append(z3.Length(post) == 0)
    else:
        ctx.pc.append(z3.Not(z3.Contains(z3.Concat(z3.Extract(sub, 1, n - 1), post), sub)))
    return pre, post

STRIP_WS = {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000}
STRIP_WS_B = {9, 10, 11, 12, 13, 32}

_allin = {}
def all_in(codes):
    key = frozenset(codes)
    f = _allin.get(key)
    if f is None: f = _allin[key] = z3.Function(f'all_in_{len(_allin)}', SEQ, B)
    return f

def strip(it, v, chars, left, right):
    ctx = it.ctx
    t = sterm(v)
    kind = 'str' if is_str(v) else 'bytes'
    if chars is None: codes = STRIP_WS if kind == 'str' else STRIP_WS_B
    else:
        c = const_seq(sterm(chars))
        if c is None: raise Unsupported('strip of symbolic characters')
        codes = set(c)
    f = all_in(codes)
    l = ctx.fresh('lpad', SEQ) if left else z3.Empty(SEQ)
    r = ctx.fresh('rpad', SEQ) if right else z3.Empty(SEQ)
    mid = ctx.fresh('stripped', SEQ)
    ctx.pc.append(t == z3.Concat(l, mid, r))
    n = z3.Length(mid)
    ctx.pc.append(z3.Implies(f(t), n == 0))
    h = ctx.ghost.get('stripped')
    if h is not None and left and right: h(ctx, t, codes, mid)
    if left:
        ctx.pc.append(f(l))
        ctx.pc.append(z3.Implies(n > 0, z3.Not(in_charset(mid[0], codes))))
        ctx.pc.append(z3.Implies(z3.Length(l) > 0, z3.And(in_charset(l[0], codes), in_charset(l[z3.Length(l) - 1], codes))))
        if right: ctx.pc.append(z3.Implies(n == 0, z3.Length(r) == 0))
    if right:
        ctx.pc.append(f(r))
        ctx.pc.append(z3.Implies(n > 0, z3.Not(in_charset(mid[n - 1], codes))))
        ctx.pc.append(z3.Implies(z3.Length(r) > 0, z3.And(in_charset(r[0], codes), in_charset(r[z3.Length(r) - 1], codes))))
    return mkseq(mid, kind)

def case_map(it, fn, name, t):
    ctx = it.ctx
    c = const_seq(t)
    if c is not None: return lit(getattr(''.join(map(chr, c)), name)())
    r = fn(t)
    ctx.fact(fn(r) == r)
    ctx.fact((z3.Length(t) == 0) == (z3.Length(r) == 0))
    return r

def below(t, lim):
    """all codes are below lim; structural"""
    t = z3.simplify(t)
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY: return z3.BoolVal(True)
        if k == z3.Z3_OP_SEQ_UNIT: return t.arg(0) < lim
        if k == z3.Z3_OP_SEQ_CONCAT: return z3.And(*[below(x, lim) for x in t.children()])
        if k == z3.Z3_OP_ITE: return z3.If(t.arg(0), below(t.arg(1), lim), below(t.arg(2), lim))
    return z3.Function('all_below_%d' % lim, SEQ, B)(t)

def encode(it, s, encoding='utf-8', errors='strict'):
    ctx = it.ctx
    t = sterm(s)
    if isinstance(encoding, str):
        e = encoding.lower().replace('_', '-')
        if e in ('utf8', 'utf-8'):
            c = const_seq(t)
            if c is not None:
                try: return ''.join(map(chr, c)).encode(encoding, errors if isinstance(errors, str) else 'strict')
                except UnicodeEncodeError: it.raise_(UnicodeEncodeError)
            if errors == 'strict':
                if not ctx.branch(UTF8_OK(t)): it.raise_(UnicodeEncodeError)
            else:
                f = z3.Function('utf8_enc_' + str(errors), SEQ, SEQ)
                r = f(t)
                return mkseq(r, 'bytes')
            r = UTF8(t)
            ctx.fact(UNUTF8(r) == t); ctx.fact(UNUTF8_OK(r))
            ctx.fact((z3.Length(t) == 0) == (z3.Length(r) == 0))
            return mkseq(r, 'bytes')
        if e in ('ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            lim = 128 if e == 'ascii' else 256
            c = const_seq(t)
            if c is not None:
                if all(x < lim for x in c): return bytes(c)
                it.raise_(UnicodeEncodeError)
            if errors != 'strict':
                raise Unsupported('encode errors')
            if not ctx.branch(below(t, lim)): it.raise_(UnicodeEncodeError)
            return SSeq(t, 'bytes')
        if e == 'idna':
            # not invertible: it maps characters; nothing is known but whether and what
            if not ctx.branch(IDNA_OK(t)): it.raise_(UnicodeError)
            return SSeq(IDNA(t), 'bytes')
    et = sterm(encoding)
    if not ctx.branch(ENC_OK(t, et)): it.raise_(UnicodeEncodeError)
    r = ENC(t, et)
    ctx.fact(z3.And(DEC_OK(r, et), DEC(r, et) == t))
    return mkseq(r, 'bytes')

def decode_(it, s, encoding='utf-8', errors='strict'):
    ctx = it.ctx
    t = sterm(s)
    if isinstance(encoding, str):
        e = encoding.lower().replace('_', '-')
        if e in ('utf8', 'utf-8'):
            c = const_seq(t)
            if c is not None:
                try: return bytes(c).decode(encoding, errors)
                except UnicodeDecodeError: it.raise_(UnicodeDecodeError)
            if errors == 'strict':
                if not ctx.branch(UNUTF8_OK(t)): it.raise_(UnicodeDecodeError)
                r = UNUTF8(t)
                ctx.fact(z3.And(UTF8_OK(r), UTF8(r) == t))
            else:
                f = z3.Function('utf8_dec_' + str(errors), SEQ, SEQ)
                r = f(t)
            return mkseq(r, 'str')
        if e in ('latin-1', 'latin1', 'iso-8859-1'): return mkseq(t, 'str')
        if e == 'ascii':
            if not ctx.branch(below(t, 128)): it.raise_(UnicodeDecodeError)
            return mkseq(t, 'str')
        if e == 'idna':
            if ctx.branch(z3.And(below(t, 128), z3.Not(z3.Contains(t, lit('xn--'))))): return mkseq(t, 'str')
            if not ctx.branch(UNIDNA_OK(t)): it.raise_(UnicodeDecodeError)
            return mkseq(UNIDNA(t), 'str')
    et = sterm(encoding)
    if not ctx.branch(DEC_OK(t, et)): it.raise_(UnicodeDecodeError)
    return mkseq(DEC(t, et), 'str')

CHARCLASS = {n: z3.Function('is_' + n, SEQ, B) for n in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isascii', 'isdecimal', 'isidentifier', 'isprintable', 'isnumeric')}

def runs(xs):
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1: out[-1][1] = x
        else: out.append([x, x])
    return out

def str_method(it, v, name, args, kwargs):
    ctx = it.ctx
    kind = 'str' if is_str(v) else 'bytes'
    v = unbase(v)
    if is_nat(v) and all(is_nat(a) for a in args) and all(is_nat(a) for a in kwargs.values()):
        try: r = getattr(v, name)(*args, **kwargs)
        except Exception as e: it.raise_(type(e), *e.args)
        return wrap_native(it, r)
    t = sterm(v)
    same = is_str if kind == 'str' else is_bytes
    def need(x):
        if not same(x): it.raise_(TypeError, f'{name}: wrong argument type')
        return sterm(x)
    if name in ('find', 'index', 'rfind', 'rindex'):
        sub = args[0]
        st = z3.Unit(iterm(sub)) if kind == 'bytes' and is_int(sub) else need(sub)
        n = z3.Length(t)
        lo, hi = (list(args[1:]) + [None, None])[:2]
        a = clamp_find(it, lo, n, z3.IntVal(0))
        b = clamp(it, hi, n, n)
        h = ctx.ghost.get('find') if name == 'find' else None
        if h is not None:
            r = h(ctx, t, st, a, b)
            if r is not None: return mkint(r)
        if ctx.branch(z3.Or(a > n, a > b)):
            r = None
        else:
            seg = t if (z3.is_int_value(a) and a.as_long() == 0 and b.eq(n)) else seqnorm.extract(ctx, t, a, z3.simplify(b - a))
            r = (find_first if name in ('find', 'index') else find_last)(it, seg, st)
        if r is None:
            if name.endswith('find'): return -1
            it.raise_(ValueError, 'substring not found')
        return mkint(a + z3.Length(r[0]))
    if name in ('startswith', 'endswith'):
        p = args[0]
        ps = p if isinstance(p, tuple) else (p,)
        tt = t
        if len(args) > 1 and args[1] is not None:
            n = z3.Length(t)
            if ctx.branch(iterm(args[1]) > n): 
                return False
            tt = slice_term(it, t, SliceV(args[1], args[2] if len(args) > 2 else None, None))
        out = [(z3.PrefixOf if name == 'startswith' else z3.SuffixOf)(need(x), tt) for x in ps]
        return mkbool(z3.Or(*out) if len(out) != 1 else out[0]) if out else False
    if name in ('partition', 'rpartition'):
        sep = args[0]
        st = need(sep)
        r = (find_first if name == 'partition' else find_last)(it, t, st)
        e = '' if kind == 'str' else b''
        if r is None: return (v, e, e) if name == 'partition' else (e, e, v)
        return (mkseq(r[0], kind), sep, mkseq(r[1], kind))
    if name in ('strip', 'lstrip', 'rstrip'):
        return strip(it, v, args[0] if args else None, name != 'rstrip', name != 'lstrip')
    if name in ('lower', 'upper', 'casefold') and kind == 'str':
        return mkseq(case_map(it, {'lower': LOWER, 'upper': UPPER, 'casefold': CASEFOLD}[name], name, t), 'str')
    if name == 'encode': return encode(it, v, *args, **kwargs)
    if name == 'decode':
        return decode_(it, v, *args, **kwargs)
    if name == 'join':
        return join(it, v, args[0], kind)
    if name == 'split':
        sep = args[0] if args else kwargs.get('sep')
        maxsplit = args[1] if len(args) > 1 else kwargs.get('maxsplit', -1)
        return split(it, v, sep, maxsplit, kind)
    if name == 'replace' and len(args) == 2:
        f = z3.Function('seq_replace_all', SEQ, SEQ, SEQ, SEQ)
        return SSeq(f(t, need(args[0]), need(args[1])), kind)
    if name in CHARCLASS:
        ts = z3.simplify(t)
        if kind == 'str' and z3.is_app_of(ts, z3.Z3_OP_SEQ_UNIT):
            # one character: what is known of the ASCII ones
            x = ts.arg(0); yes = [k for k in range(128) if getattr(chr(k), name)()]
            ctx.fact(z3.Implies(z3.And(0 <= x, x < 128), CHARCLASS[name](t) == z3.Or(*[z3.And(a <= x, x <= b) for a, b in runs(yes)])))
        return mkbool(CHARCLASS[name](t))
    if name == '__len__': return length(it, v)
    if name == '__getitem__': return getitem(it, v, args[0])
    if name == '__contains__': return mkbool(contains(it, v, args[0]))
    if name == '__eq__':
        if not same(args[0]): return NotImplemented
        return mkbool(eq_term(it, v, unbase(args[0])))
    if name == '__ne__':
        if not same(args[0]): return NotImplemented
        return mkbool(z3.Not(term(mkbool(eq_term(it, v, unbase(args[0]))))))
    if name in ('__lt__', '__le__', '__gt__', '__ge__'):
        return compare(it, {'__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}[name], v, unbase(args[0]))
    if name == '__hash__': return hash_value(it, v)
    if name == '__add__': return binop(it, 'Add', v, args[0])
    if name == '__str__': return v
    if name == '__iter__': return ListIter(ctx, v)
    if name in ('__init__',): return None
    if name == 'count' and len(args) == 1:
        f = z3.Function('seq_count', SEQ, SEQ, I)
        st = z3.Unit(iterm(args[0])) if kind == 'bytes' and is_int(args[0]) else need(args[0])
        r = f(t, st)
        ctx.fact(r >= 0)
        ctx.fact((r > 0) == z3.Contains(t, st))
        return SInt(r)
    if name == 'removeprefix':
        p = need(args[0])
        if ctx.branch(z3.PrefixOf(p, t)): return mkseq(seqnorm.extract(ctx, t, z3.Length(p), z3.Length(t) - z3.Length(p)), kind)
        return v
    if name == 'removesuffix':
        p = need(args[0])
        if ctx.branch(z3.And(z3.SuffixOf(p, t), z3.Length(p) > 0)): return mkseq(seqnorm.extract(ctx, t, 0, z3.Length(t) - z3.Length(p)), kind)
        return v
    if name == 'tobytes': return SSeq(t, 'bytes')
    if name == 'release': return None
    if name == 'hex':
        f = z3.Function('bytes_hex', SEQ, SEQ)
        return SSeq(f(t), 'str')
    if name == 'translate':
        f = ctx.ghost.get('translate')
        if f is not None: return f(it, v, *args)
    if name in ('format', 'zfill', 'ljust', 'rjust', 'title', 'capitalize', 'center', '__format__', '__mod__', '__repr__', 'expandtabs'):
        return SSeq(ctx.fresh(name, SEQ), kind)
    if name == 'splitlines' or name == 'rsplit': raise Unsupported(name)
    raise Unsupported(f'{kind}.{name}')

def clamp_find(it, i, n, default):
    ctx = it.ctx
    if i is None: return default
    i = iterm(i)
    if ctx.branch(i < 0):
        i = z3.simplify(i + n)
        return i if ctx.branch(i >= 0) else z3.IntVal(0)
    return i

FLAT = z3.Function('flat', SEQ2, SEQ)

def flat_term(ctx, t):
    """concatenation of a sequence of byte strings, with its unfolding on the structure of t"""
    t = z3.simplify(t)
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_SEQ_EMPTY: return z3.Empty(SEQ)
    if k == z3.Z3_OP_SEQ_UNIT: return t.arg(0)
    if k == z3.Z3_OP_SEQ_CONCAT:
        return z3.Concat(*[flat_term(ctx, c) for c in t.children()])
    if k == z3.Z3_OP_ITE: return z3.If(t.arg(0), flat_term(ctx, t.arg(1)), flat_term(ctx, t.arg(2)))
    r = FLAT(t)
    ctx.fact(z3.Implies(z3.Length(t) == 0, r == z3.Empty(SEQ)))
    return r

def join(it, sep, lst, kind):
    ctx = it.ctx
    if isinstance(lst, Inst) and lst.base is not None: lst = lst.base
    els = concrete_elements(it, lst) if not (isinstance(lst, LList) and not lst.concrete) else None
    if els is not None:
        ts = []
        for k, e in enumerate(els):
            if kind == 'str' and not is_str(e) or kind == 'bytes' and not is_bytes(e):
                if isinstance(e, Opaque): raise Unsupported('join of opaque')
                it.raise_(TypeError, 'join: wrong item type')
            if k: ts.append(sterm(sep))
            ts.append(sterm(e))
        if not ts: return '' if kind == 'str' else b''
        return mkseq(z3.Concat(*ts) if len(ts) > 1 else ts[0], kind)
    if isinstance(lst, LList):
        t = lst.get_seq()
        c = const_seq(sterm(sep))
        if c == []: return mkseq(flat_term(ctx, t), kind)
        f = z3.Function('join', SEQ, SEQ2, SEQ)
        return SSeq(f(sterm(sep), t), kind)
    raise Unsupported('join')

def split(it, v, sep, maxsplit, kind):
    ctx = it.ctx
    if sep is None: raise Unsupported('split on white space')
    st = sterm(sep)
    if not isinstance(maxsplit, int): raise Unsupported('split count')
    if 0 <= maxsplit <= 4:
        out = []
        cur = sterm(v)
        for _ in range(maxsplit):
            r = find_first(it, cur, st)
            if r is None: break
            out.append(mkseq(r[0], kind)); cur = r[1]
        out.append(mkseq(cur, kind))
        return LList(ctx, items=out)
    # full split: a non-empty list of pieces without separator whose join is the text
    f = z3.Function('split', SEQ, SEQ, SEQ2)
    t = f(sterm(v), st)
    ctx.fact(z3.Length(t) >= 1)
    return LList(ctx, seq=t, codec=StrC if kind == 'str' else BytesC)

HASH = z3.Function('hash_seq', SEQ, I)
HASHO = z3.Function('hash_obj', OBJ, I)
def hash_value(it, v):
    ctx = it.ctx
    if isinstance(v, Inst):
        f = it.class_lookup(v.cls, '__hash__')
        if isinstance(f, types.FunctionType): return it.call(f, [v])
        if f is None: it.raise_(TypeError, 'unhashable')
        if v.base is not None: return hash_value(it, v.base)
        return SInt(ctx.fresh('hash', I))
    if is_nat(v):
        if isinstance(v, (str, bytes)): return SInt(HASH(lit(v)))
        if isinstance(v, int): return hash(v)
        try: return hash(v)
        except TypeError: it.raise_(TypeError, 'unhashable')
    if isinstance(v, SSeq): return SInt(HASH(v.t))
    if isinstance(v, SInt):
        f = z3.Function('hash_int', I, I)
        return SInt(f(v.t))
    if isinstance(v, SBool): return mkint(iterm(v))
    if isinstance(v, Opaque): return SInt(HASHO(v.t))
    if isinstance(v, tuple):
        hs = [iterm(hash_value(it, e)) for e in v]
        f = z3.Function(f'hash_tuple{len(hs)}', *([I] * len(hs)), I)
        return SInt(f(*hs))
    if isinstance(v, (LList, LDict, LSet, LBytes)) and not (isinstance(v, LSet) and v.frozen): it.raise_(TypeError, 'unhashable')
    return SInt(ctx.fresh('hash', I))


# ------------------------------------------------------------------ method dispatch

def call_method(it, o, name, args, kwargs, owner=None):
    ctx = it.ctx
    if isinstance(o, Inst):
        if o.base is not None: return call_method(it, o.base, name, args, kwargs, owner=o)
        return object_method(it, o, name, args, kwargs)
    if isinstance(o, (SSeq, str, bytes)):
        return str_method(it, o, name, args, kwargs)
    if isinstance(o, (LList, LArray)): return list_method(it, o, name, args, kwargs, owner)
    if isinstance(o, LDict): return dict_method(it, o, name, args, kwargs, owner)
    if isinstance(o, LSet): return set_method(it, o, name, args, kwargs)
    if isinstance(o, LBytes): return bytearray_method(it, o, name, args, kwargs)
    if isinstance(o, (SInt, SBool, int)) and not isinstance(o, type): return int_method(it, o, name, args, kwargs)
    if isinstance(o, tuple): return tuple_method(it, o, name, args, kwargs)
    if isinstance(o, Gen):
        if name == 'close': 
            return None
        if name == '__await__' or name == '__iter__': return o
        raise Unsupported(f'generator.{name}')
    if isinstance(o, UnknownExc):
        return o if name == 'with_traceback' else None
    if isinstance(o, ListIter): return iter_method(it, o, name, args)
    if isinstance(o, dict) or isinstance(o, types.MappingProxyType):
        return dict_method(it, LDict(ctx, items=dict(o)), name, args, kwargs) if name in ('get', 'items', 'keys', 'values', '__getitem__', '__contains__', 'copy') else _no(o, name)
    h = METHODS.get((type(o), name))
    if h is not None: return h(it, o, *args, **kwargs)
    import re
    if isinstance(o, re.Pattern):
        from . import regex
        return regex.pattern_method(it, o, name, args, kwargs)
    import struct
    if isinstance(o, struct.Struct):
        return struct_method(it, o, name, args, kwargs)
    if isinstance(o, (frozenset, set)) :
        if name in ('__contains__',): return mkbool(contains(it, o, args[0]))
    if is_nat(o):
        f = getattr(o, name, None)
        if f is None: it.raise_(AttributeError, name)
        if isinstance(f, types.MethodType): return it.call(f, args, kwargs)
        if all(is_nat(a) for a in args) and all(is_nat(a) for a in kwargs.values()):
            try: return wrap_native(it, f(*args, **kwargs))
            except Exception as e: it.raise_(type(e), *e.args)
    raise Unsupported(f'{type(o).__name__}.{name} on {o!r}')

METHODS = {}

def _no(o, name): raise Unsupported(f'{type(o).__name__}.{name}')

def object_method(it, o, name, args, kwargs):
    if name == '__init__': return None
    if name == '__setattr__':
        it.ctx.touch(o, args[0]); o.fields[args[0]] = args[1]; return None
    if name == '__eq__': return NotImplemented
    if name == '__ne__':
        f = it.class_lookup(o.cls, '__eq__')
        if isinstance(f, types.FunctionType):
            r = it.call(f, [o] + list(args))
            if r is NotImplemented: return r
            t = it.truth_term(r)
            return mkbool((not t) if isinstance(t, bool) else z3.Not(t))
        return NotImplemented
    if name == '__hash__': return SInt(z3.IntVal(o.oid))
    if name in ('__repr__', '__str__'): return SSeq(it.ctx.fresh('repr', SEQ), 'str')
    if name == '__init_subclass__': return None
    if name == 'with_traceback': return o
    if name == '__del__': return None
    if name == '__exit__': return None
    raise Unsupported(f'object.{name} on {o!r}')

def class_method(it, cls, name, args, kwargs):
    ctx = it.ctx
    if name == '__new__':
        c = args[0]
        if cls is object or cls is None: return it.new_instance(c)
        return it.new_instance(c, args[1:], kwargs)
    if cls is int and name == 'from_bytes':
        return int_from_bytes(it, args[0], args[1] if len(args) > 1 else kwargs.get('byteorder', 'big'), kwargs.get('signed', False))
    if cls is dict and name == 'fromkeys': raise Unsupported('dict.fromkeys')
    if cls is str and name == 'maketrans': return it.native_call(str.maketrans, args, kwargs)
    if cls is bytes and name == 'fromhex': return it.native_call(bytes.fromhex, args, kwargs)
    return it.native_call(getattr(cls, name), args, kwargs)

def bytes_to_int_term(ctx, t, n, order):
    r = z3.IntVal(0)
    for k in range(n):
        b = byte_at(ctx, t, z3.IntVal(k))
        r = r + iterm(b) * z3.IntVal(256 ** ((n - 1 - k) if order == 'big' else k))
    return z3.simplify(r)

INT_FROM = z3.Function('int_from_bytes', SEQ, I)
def int_from_bytes(it, v, order, signed=False):
    ctx = it.ctx
    if is_nat(v) and not isinstance(v, LBytes): return int.from_bytes(v, order, signed=signed)
    t = sterm(v)
    n = z3.simplify(z3.Length(t))
    if not z3.is_int_value(n) and z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT):
        k = z3.simplify(t.arg(2))
        if z3.is_int_value(k) and 0 <= k.as_long() <= 64 and ctx.implied(z3.And(t.arg(1) >= 0, t.arg(1) + k <= z3.Length(t.arg(0)))):
            if signed: raise Unsupported('signed from_bytes')
            k = k.as_long(); r = z3.IntVal(0)
            for j in range(k): r = r + iterm(byte_at(ctx, t.arg(0), z3.simplify(t.arg(1) + j))) * z3.IntVal(256 ** ((k - 1 - j) if order == 'big' else j))
            return mkint(z3.simplify(r))
    if not z3.is_int_value(n):
        for k in range(0, 33):
            if ctx.implied(n == k):
                n = z3.IntVal(k); break
    if z3.is_int_value(n):
        r = bytes_to_int_term(ctx, t, n.as_long(), order)
        if signed: raise Unsupported('signed from_bytes')
        return mkint(r)
    r = INT_FROM(t) if order == 'big' else z3.Function('int_from_bytes_little', SEQ, I)(t)
    ctx.fact(r >= 0)
    return SInt(r)

TOB = z3.Function('int_to_bytes', I, I, I, SEQ)       # value, length, order (0 big, 1 little)
def int_to_bytes_term(ctx, x, n, order):
    if ctx.ghost.get('abstract_to_bytes') and n > 1:
        x = z3.simplify(x)
        if z3.is_int_value(x): return lit((x.as_long() % 256 ** n).to_bytes(n, order))
        o = z3.IntVal(0 if order == 'big' else 1)
        r = TOB(x, z3.IntVal(n), o); ctx.fact(z3.Length(r) == n); ctx.fact(TOB(z3.IntVal(0), z3.IntVal(n), o) == lit(bytes(n)))
        return r
    parts = []
    for k in range(n):
        p = 256 ** ((n - 1 - k) if order == 'big' else k)
        parts.append(z3.Unit((x / z3.IntVal(p)) % 256 if p > 1 else x % 256))
    if not parts: return z3.Empty(SEQ)
    return z3.Concat(*parts) if len(parts) > 1 else parts[0]

def int_method(it, o, name, args, kwargs):
    ctx = it.ctx
    if isinstance(o, int) and all(is_nat(a) for a in args) and all(is_nat(a) for a in kwargs.values()):
        try: return getattr(o, name)(*args, **kwargs)
        except Exception as e: it.raise_(type(e), *e.args)
    x = iterm(o)
    if name == 'to_bytes':
        n = args[0] if args else kwargs.get('length', 1)
        order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
        if not isinstance(n, int): raise Unsupported('to_bytes length')
        if not ctx.branch(z3.And(x >= 0, x < z3.IntVal(256 ** n))): it.raise_(OverflowError)
        return mkseq(int_to_bytes_term(ctx, x, n, order), 'bytes')
    if name == '__index__' or name == '__int__': return mkint(x)
    if name == '__hash__': return hash_value(it, o)
    if name == '__eq__': return mkbool(eq_term(it, o, args[0]))
    raise Unsupported(f'int.{name}')

def tuple_method(it, o, name, args, kwargs):
    if name == '__len__': return len(o)
    if name == '__iter__': return ListIter(it.ctx, o)
    if name == 'count' or name == 'index':
        for k, e in enumerate(o):
            if it.truth(compare(it, 'Eq', e, args[0])): return k
        it.raise_(ValueError)
    if name == '__getitem__': return getitem(it, o, args[0])
    if name == '__contains__': return mkbool(contains(it, o, args[0]))
    if name == '__eq__': return mkbool(eq_term(it, o, args[0]))
    if name == '__hash__': return hash_value(it, o)
    raise Unsupported(f'tuple.{name}')

def iter_method(it, o, name, args):
    if name == '__iter__': return o
    if name == '__next__': return iter_next(it, o, None)
    if name == '__length_hint__': raise Unsupported('length hint')
    raise Unsupported(f'iterator.{name}')

def iter_next(it, o, default):
    """default: None or (value,)"""
    ctx = it.ctx
    if isinstance(o, Inst):
        f = it.class_lookup(o.cls, '__next__')
        try: return it.call(f, [o])
        except it.PyExc as e:
            if default is not None and it.exc_match(e.value, StopIteration): return default[0]
            raise
    if isinstance(o, ListIter):
        if o.pos is None: raise Unsupported('an iterator used again after a loop over it')
        els = concrete_elements(it, o.source) if not (isinstance(o.source, LList) and not o.source.concrete) else None
        if els is not None and isinstance(o.pos, int):
            if o.pos < len(els):
                ctx.touch(o, 'pos')
                o.pos += 1
                return els[o.pos - 1]
        else:
            s = symbolic_iter(it, o.source)
            p = o.pos if isinstance(o.pos, z3.ExprRef) else z3.IntVal(o.pos)
            if ctx.branch(p < s.n):
                ctx.touch(o, 'pos')
                o.pos = z3.simplify(p + 1)
                return s.get(p)
        if default is not None: return default[0]
        it.raise_(StopIteration)
    if isinstance(o, Gen):
        els = it.collect(o)
        raise Unsupported('next() of a generator')
    if isinstance(o, Opaque) and hasattr(o.iface, 'next_'):
        return o.iface.next_(ctx, o, default)
    raise Unsupported(f'next of {o!r}')

# ---- list / deque

def list_method(it, o, name, args, kwargs, owner=None):
    ctx = it.ctx
    if o.kind == 'tuple' and not hasattr(tuple, name): it.raise_(AttributeError, name)
    if name == '__init__':
        if args:
            list_method(it, o, 'clear', [], {})
            list_method(it, o, 'extend', args, {})
        return None
    if name == '__len__': return length(it, o)
    if name == '__getitem__': return getitem(it, o, args[0])
    if name == '__setitem__': return setitem(it, o, *args)
    if name == '__delitem__': return delitem(it, o, *args)
    if name == '__contains__': return mkbool(contains(it, o, args[0]))
    if name == '__iter__': return ListIter(ctx, o)
    if name == '__reversed__': return ReversedV(o)
    if name == '__eq__':
        x = args[0]
        if isinstance(x, Inst) and x.base is not None: x = x.base
        if not isinstance(x, (LList, list)): return NotImplemented
        return mkbool(eq_term(it, o, x))
    if name == '__ne__':
        r = list_method(it, o, '__eq__', args, kwargs)
        return r if r is NotImplemented else mkbool(z3.Not(term(r)))
    if name == '__repr__': return SSeq(ctx.fresh('repr', SEQ), 'str')
    if isinstance(o, LArray): return array_method(it, o, name, args, kwargs)
    if name == 'append':
        if o.maxlen is not None: return deque_append(it, o, args[0])
        if o.concrete:
            if o.codec is not None and ctx.loops and False: pass
            o.set_items(o.items + [args[0]])
        else:
            o.set_seq(z3.Concat(o.get_seq(), z3.Unit(o.codec.enc(ctx, args[0]))))
        return None
    if name == 'appendleft':
        if o.maxlen is not None: raise Unsupported('appendleft with maxlen')
        if o.concrete: o.set_items([args[0]] + o.items)
        else: o.set_seq(z3.Concat(z3.Unit(o.codec.enc(ctx, args[0])), o.get_seq()))
        return None
    if name == 'extend':
        src = args[0]
        if isinstance(src, Inst) and isinstance(src.base, Heap) and not isinstance(it.class_lookup(src.cls, '__iter__'), types.FunctionType): src = src.base
        els = None
        if not (isinstance(src, LList) and not src.concrete): els = concrete_elements(it, src)
        if els is not None:
            for e in els: list_method(it, o, 'append', [e], {})
            return None
        if isinstance(src, LList):
            if o.concrete: o.symbolize(o.codec or src.codec)
            new = z3.Concat(o.get_seq(), src.get_seq())
            if o.maxlen is not None and not ctx.branch(z3.Length(new) <= iterm(o.maxlen)): raise Unsupported('extend beyond maxlen')
            o.set_seq(new)
            return None
        raise Unsupported('extend')
    if name in ('pop', 'popleft'):
        left = name == 'popleft'
        idx = args[0] if args else (0 if left else -1)
        if o.concrete:
            if not o.items: it.raise_(IndexError, 'pop from empty list')
            if isinstance(idx, int):
                if not -len(o.items) <= idx < len(o.items): it.raise_(IndexError, 'pop index out of range')
                v = o.items[idx]
                items = list(o.items); del items[idx]
                o.set_items(items)
                return v
            v = getitem(it, o, idx)
            j = concretize(it, norm_index(it, idx, len(o.items)), 0, len(o.items))
            items = list(o.items); del items[j]; o.set_items(items)
            return v
        t = o.get_seq()
        n = z3.Length(t)
        if isinstance(idx, int) and idx in (0, -1):
            if not ctx.branch(n > 0): it.raise_(IndexError, 'pop from empty')
            # decomposition, so that the solver sees the structure
            e = ctx.fresh('popped', o.codec.sort)
            rest = ctx.fresh('rest', t.sort())
            if idx == 0: ctx.pc.append(t == z3.Concat(z3.Unit(e), rest))
            else: ctx.pc.append(t == z3.Concat(rest, z3.Unit(e)))
            on_split(it, o, t, z3.Empty(t.sort()) if idx == 0 else rest, e, rest if idx == 0 else z3.Empty(t.sort()))
            hook = ctx.ghost.get('elem_facts')
            if hook is not None: hook(ctx, o, e)
            o.set_seq(rest)
            return o.codec.dec(ctx, e)
        i = norm_index(it, idx, n)
        return remove_at(it, o, t, i)
    if name == 'insert':
        if o.concrete and isinstance(args[0], int):
            items = list(o.items); items.insert(args[0], args[1]); o.set_items(items); return None
        if o.concrete:
            n = len(o.items)
            j = concretize(it, clamp(it, args[0], z3.IntVal(n), z3.IntVal(n)), 0, n)
            items = list(o.items); items.insert(j, args[1]); o.set_items(items); return None
        t = o.get_seq()
        i = clamp(it, args[0], z3.Length(t), z3.Length(t))
        o.set_seq(z3.Concat(seqnorm.extract(ctx, t, 0, i), z3.Unit(o.codec.enc(ctx, args[1])), seqnorm.extract(ctx, t, i, z3.Length(t) - i)))
        return None
    if name == 'clear':
        if o.concrete: o.set_items([])
        else: o.set_seq(z3.Empty(o.get_seq().sort()))
        return None
    if name == 'copy':
        if o.concrete: return LList(ctx, items=list(o.items), codec=o.codec, kind=o.kind, maxlen=o.maxlen)
        return LList(ctx, seq=o.get_seq(), codec=o.codec, kind=o.kind, maxlen=o.maxlen)
    if name in ('index', 'remove'):
        x = args[0]
        if len(args) > 1: raise Unsupported('list.index with bounds')
        if o.concrete:
            for k, e in enumerate(o.items):
                if e is x or it.truth(compare(it, 'Eq', e, x)):
                    if name == 'index': return k
                    items = list(o.items); del items[k]; o.set_items(items)
                    return None
            it.raise_(ValueError, 'not in list')
        t = o.get_seq()
        e = o.codec.enc(ctx, x)
        known = split_at_unit(ctx, t, e)
        if known is not None:
            if name == 'index': return mkint(z3.Length(known[0]))
            on_split(it, o, t, known[0], e, known[1])
            o.set_seq(z3.Concat(*known))
            return None
        if not ctx.branch(z3.Contains(t, z3.Unit(e))): it.raise_(ValueError, 'not in list')
        pre = ctx.fresh('pre', t.sort()); post = ctx.fresh('post', t.sort())
        ctx.pc.append(t == z3.Concat(pre, z3.Unit(e), post))
        ctx.pc.append(z3.Not(z3.Contains(pre, z3.Unit(e))))
        if name == 'index': return mkint(z3.Length(pre))
        on_split(it, o, t, pre, e, post)
        o.set_seq(z3.Concat(pre, post))
        return None
    if name == 'reverse':
        if o.concrete: o.set_items(o.items[::-1]); return None
        f = z3.Function('rev_' + str(o.codec.key), o.get_seq().sort(), o.get_seq().sort())
        t = f(o.get_seq())
        ctx.fact(z3.Length(t) == z3.Length(o.get_seq()))
        o.set_seq(t); return None
    if name == 'sort':
        if o.concrete and is_nat(tuple(o.items)):
            o.set_items(sorted(o.items, **{k: v for k, v in kwargs.items()})); return None
        raise Unsupported('list.sort')
    if name == 'count' and o.concrete:
        return sum(1 for e in o.items if it.truth(compare(it, 'Eq', e, args[0])))
    if name == '__iadd__':
        list_method(it, o, 'extend', args, {})
        return owner or o
    if name == '__add__': return binop(it, 'Add', o, args[0])
    if name == 'rotate': raise Unsupported('rotate')
    if name == '__hash__': it.raise_(TypeError, 'unhashable')
    raise Unsupported(f'list.{name}')

def on_split(it, o, t, pre, e, post):
    """t == pre + [e] + post is known; instantiates the unfolding of the element-wise functions in use"""
    ctx = it.ctx
    if o.codec in (StrC, BytesC):
        ctx.pc.append(flat_term(ctx, t) == z3.Concat(flat_term(ctx, pre), e, flat_term(ctx, post)))
    for h in ctx.ghost.get('split_hooks', ()): h(ctx, o, t, pre, e, post)

def split_at_unit(ctx, t, e):
    """(pre, post) when t is written as pre + [e] + post and e is known not to be in pre"""
    def parts(x): return [z for y in x.children() for z in parts(y)] if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT) else [x]
    ch = parts(t)
    if len(ch) < 2: return None
    for k, x in enumerate(ch):
        if z3.is_app_of(x, z3.Z3_OP_SEQ_UNIT) and x.arg(0).eq(e):
            cat = lambda l: z3.Empty(t.sort()) if not l else l[0] if len(l) == 1 else z3.Concat(*l)
            pre, post = cat(ch[:k]), cat(ch[k + 1:])
            if k == 0 or ctx.implied(z3.Not(z3.Contains(pre, z3.Unit(e)))): return pre, post
            return None
    return None

def remove_at(it, o, t, i):
    ctx = it.ctx
    e = ctx.fresh('elem', o.codec.sort)
    pre = ctx.fresh('pre', t.sort()); post = ctx.fresh('post', t.sort())
    ctx.pc.append(t == z3.Concat(pre, z3.Unit(e), post))
    ctx.pc.append(z3.Length(pre) == i)
    on_split(it, o, t, pre, e, post)
    o.set_seq(z3.Concat(pre, post))
    return o.codec.dec(ctx, e)

def deque_append(it, o, v):
    ctx = it.ctx
    m = iterm(o.maxlen)
    if o.concrete:
        n = len(o.items)
        items = o.items + [v]
        if not ctx.branch(m > n): items = items[len(items) - concretize(it, m, 0, n):]
        o.set_items(items)
        return None
    t = o.get_seq()
    new = z3.Concat(t, z3.Unit(o.codec.enc(ctx, v)))
    if ctx.branch(z3.Length(t) < m): o.set_seq(new)
    else:
        ctx.ghost['deque_dropped'] = True
        o.set_seq(z3.Extract(new, z3.Length(new) - m, m))
    return None

def array_method(it, o, name, args, kwargs):
    ctx = it.ctx
    if name == 'insert':
        i = clamp(it, args[0], o.n, o.n)
        array_insert(it, o, i, o.codec.enc(ctx, args[1])); return None
    if name == 'append':
        o.set(z3.Store(o.arr, o.n, o.codec.enc(ctx, args[0])), z3.simplify(o.n + 1)); return None
    if name == 'pop':
        idx = args[0] if args else -1
        i = norm_index(it, idx, o.n)
        v = o.codec.dec(ctx, z3.Select(o.arr, i))
        array_delete(it, o, i)
        return v
    if name == 'clear':
        o.set(o.arr, z3.IntVal(0)); return None
    if name == 'copy': return LArray(ctx, o.arr, o.n, o.codec, o.kind)
    if name == 'reverse':
        new = ctx.fresh('arr', o.arr.sort())
        j = z3.Int('j'); n = o.n
        ctx.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(new, j) == z3.Select(o.arr, n - 1 - j)), patterns=[z3.Select(new, j)]))
        o.set(new, o.n); return None
    if name in ('sort', 'extend'):
        h = ctx.ghost.get('array_' + name)
        if h is not None: return h(it, o, *args, **kwargs)
    if name == '__hash__': it.raise_(TypeError)
    raise Unsupported(f'array list.{name}')

# ---- dict

def dict_method(it, d, name, args, kwargs, owner=None):
    ctx = it.ctx
    if name == '__len__': return length(it, d)
    if name == '__getitem__': return dict_getitem(it, d, args[0])
    if name == '__setitem__': return dict_setitem(it, d, *args)
    if name == '__delitem__': return dict_delitem(it, d, *args)
    if name == '__contains__': return mkbool(dict_has(it, d, args[0]))
    if name == '__init__':
        if args or kwargs: dict_method(it, d, 'update', args, kwargs)
        return None
    if name == 'get':
        default = args[1] if len(args) > 1 else kwargs.get('default')
        if d.concrete:
            f = find_key(it, d.items, args[0])
            return default if f is None else d.items[f[0]]
        if ctx.branch(dict_has(it, d, args[0])): return dict_view(it, d, args[0])
        return default
    if name == 'pop':
        if d.concrete:
            f = find_key(it, d.items, args[0])
            if f is None:
                if len(args) > 1: return args[1]
                it.raise_(KeyError, args[0])
            ctx.touch(d, 'content')
            return d.items.pop(f[0])
        if not ctx.branch(dict_has(it, d, args[0])):
            if len(args) > 1: return args[1]
            it.raise_(KeyError, args[0])
        kt = key_enc(it, d, args[0])
        if d.listval is not None:
            v = dict_view(it, d, args[0])
            dict_remove(it, d, kt)
            return v
        v = d.vcodec.dec(ctx, z3.Select(d.val, kt))
        dict_remove(it, d, kt)
        return v
    if name == 'setdefault':
        default = args[1] if len(args) > 1 else None
        if d.concrete:
            f = find_key(it, d.items, args[0])
            if f is not None: return d.items[f[0]]
            dict_setitem(it, d, args[0], default)
            return default
        if ctx.branch(dict_has(it, d, args[0])): return dict_view(it, d, args[0])
        dict_setitem(it, d, args[0], default)
        return default if d.listval is None else dict_view(it, d, args[0])
    if name in ('keys', 'values', 'items'): return DictIter(d, name)
    if name == '__iter__': return DictIter(d, 'keys')
    if name == 'clear':
        ctx.touch(d, 'content')
        if d.concrete: d.items.clear()
        else:
            for v in d.views:
                if v.owner is not None:
                    v.seq = z3.Select(d.val, v.owner[1]); v.owner = None
            d.views = []
            d.has = z3.K(d.kcodec.sort, z3.BoolVal(False))
            if d.order is not None: d.order = z3.Empty(d.order.sort())
        return None
    if name == 'copy':
        if d.concrete: return LDict(ctx, items=dict(d.items))
        raise Unsupported('copy of a symbolic dict')
    if name == 'update':
        if args:
            src = args[0]
            if isinstance(src, Inst) and src.base is not None: src = src.base
            if isinstance(src, dict): src = LDict(ctx, items=dict(src))
            if isinstance(src, LDict):
                if not src.concrete: raise Unsupported('update from a symbolic dict')
                for k, v in list(src.items.items()): dict_setitem(it, d, k, v)
            else:
                els = concrete_elements(it, src)
                if els is None: raise Unsupported('update from a symbolic iterable')
                for e in els:
                    k, v = unpack(it, e, 2, False)
                    dict_setitem(it, d, k, v)
        for k, v in kwargs.items(): dict_setitem(it, d, k, v)
        return None
    if name == 'popitem' and not d.concrete and d.order is not None:
        if ctx.branch(z3.Length(d.order) == 0): it.raise_(KeyError, 'empty')
        a = ctx.fresh('before', d.order.sort()); kt = ctx.fresh('last', d.kcodec.sort)
        u = z3.Unit(kt)
        ctx.fact(z3.And(d.order == z3.Concat(a, u), z3.Not(z3.Contains(a, u)), z3.Select(d.has, kt)))
        v = dict_value_at(it, d, kt)
        ctx.touch(d, 'content')
        detach_views(it, d, kt)
        d.has = z3.Store(d.has, kt, z3.BoolVal(False))
        d.order = a
        return (d.kcodec.dec(ctx, kt), v)
    if name == 'popitem' and d.concrete:
        if not d.items: it.raise_(KeyError, 'empty')
        ctx.touch(d, 'content')
        return d.items.popitem()
    if name == '__eq__':
        x = args[0]
        if isinstance(x, Inst) and x.base is not None: x = x.base
        if not isinstance(x, (LDict, dict)): return NotImplemented
        if isinstance(x, dict): x = LDict(ctx, items=dict(x))
        return mkbool(eq_term(it, d, x))
    if name == '__ne__':
        r = dict_method(it, d, '__eq__', args, kwargs)
        return r if r is NotImplemented else mkbool(z3.Not(term(r)))
    if name == '__repr__': return SSeq(ctx.fresh('repr', SEQ), 'str')
    raise Unsupported(f'dict.{name}')

# ---- set

def set_method(it, s, name, args, kwargs):
    ctx = it.ctx
    if name == '__len__': return length(it, s)
    if name == '__contains__': return mkbool(contains(it, s, args[0]))
    if name == '__iter__':
        return ListIter(ctx, tuple(s.items)) if s.concrete else _no(s, name)
    if name == 'add':
        if s.concrete:
            if not it.truth(mkbool(contains(it, s, args[0]))):
                ctx.touch(s, 'content'); s.items = s.items + [args[0]]
        else: s.set_has(z3.Store(s.has, s.codec.enc(ctx, args[0]), z3.BoolVal(True)))
        return None
    if name in ('remove', 'discard'):
        if s.concrete:
            for k, e in enumerate(s.items):
                if e is args[0] or it.truth(compare(it, 'Eq', e, args[0])):
                    ctx.touch(s, 'content'); s.items = s.items[:k] + s.items[k + 1:]
                    return None
            if name == 'remove': it.raise_(KeyError, args[0])
            return None
        e = s.codec.enc(ctx, args[0])
        if name == 'remove' and not ctx.branch(z3.Select(s.has, e)): it.raise_(KeyError, args[0])
        s.set_has(z3.Store(s.has, e, z3.BoolVal(False)))
        return None
    if name == 'clear':
        ctx.touch(s, 'content')
        if s.concrete: s.items = []
        else: s.has = z3.K(s.codec.sort, z3.BoolVal(False))
        return None
    if name == 'copy': return LSet(ctx, items=list(s.items) if s.concrete else None, has=s.has, codec=s.codec)
    if name == 'pop':
        if s.concrete:
            if not s.items: it.raise_(KeyError, 'pop from an empty set')
            k = ctx.choose(len(s.items), 'set.pop')
            v = s.items[k]
            ctx.touch(s, 'content')
            s.items = s.items[:k] + s.items[k + 1:]
            return v
        e = ctx.fresh('popped', s.codec.sort)
        if ctx.branch(s.has == z3.K(s.codec.sort, z3.BoolVal(False))): it.raise_(KeyError, 'pop from an empty set')
        ctx.pc.append(z3.Select(s.has, e))
        s.set_has(z3.Store(s.has, e, z3.BoolVal(False)))
        return s.codec.dec(ctx, e)
    if name in ('update', 'union', 'intersection', 'difference', 'difference_update', 'intersection_update'):
        o = args[0] if args else LSet(ctx, items=[])
        if isinstance(o, Inst) and o.base is not None: o = o.base
        if not isinstance(o, LSet):
            els = concrete_elements(it, o)
            if els is None: raise Unsupported(f'set.{name}')
            o2 = LSet(ctx, items=[])
            for e in els: set_method(it, o2, 'add', [e], {})
            o = o2
        if not s.concrete and o.concrete:
            t = z3.K(s.codec.sort, z3.BoolVal(False))
            for e in o.items: t = z3.Store(t, s.codec.enc(ctx, e), z3.BoolVal(True))
            o = LSet(ctx, has=t, codec=s.codec)
        r = set_binop(it, {'update': 'BitOr', 'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub', 'difference_update': 'Sub', 'intersection_update': 'BitAnd'}[name], s, o)
        if name.endswith('update'):
            ctx.touch(s, 'content'); s.items = r.items; s.has = r.has
            return None
        return r
    if name == '__init__': return None
    if name == '__eq__': return mkbool(eq_term(it, s, args[0]))
    raise Unsupported(f'set.{name}')

# ---- bytearray

def bytearray_method(it, o, name, args, kwargs):
    ctx = it.ctx
    if name in ('extend', '__iadd__'):
        x = args[0]
        if is_bytes(x): o.set(z3.simplify(z3.Concat(o.t, sterm(x))))
        else:
            els = concrete_elements(it, x)
            if els is None: raise Unsupported('bytearray.extend')
            for e in els: bytearray_method(it, o, 'append', [e], {})
        return o if name == '__iadd__' else None
    if name == 'append':
        x = iterm(args[0])
        if not ctx.branch(z3.And(x >= 0, x < 256)): it.raise_(ValueError, 'byte must be in range(0, 256)')
        o.set(z3.simplify(z3.Concat(o.t, z3.Unit(x))))
        return None
    if name == 'clear':
        o.set(z3.Empty(SEQ)); return None
    if name == 'pop' and not args:
        n = z3.Length(o.t)
        if not ctx.branch(n > 0): it.raise_(IndexError)
        e = ctx.fresh('popped', I); rest = ctx.fresh('rest', SEQ)
        ctx.pc.append(o.t == z3.Concat(rest, z3.Unit(e)))
        ctx.pc.append(z3.And(e >= 0, e < 256))
        o.set(rest)
        return SInt(e)
    if name == 'copy': return LBytes(ctx, o.t)
    if name == '__len__': return length(it, o)
    if name == '__getitem__': return getitem(it, o, args[0])
    if name == '__setitem__': return setitem(it, o, *args)
    if name == '__delitem__': return delitem(it, o, *args)
    r = str_method(it, SSeq(o.t, 'bytes'), name, args, kwargs)
    return r

# ------------------------------------------------------------------ struct

def struct_fields(fmt):
    order = 'big' if fmt[0] in '!>' else ('little' if fmt[0] in '<' else None)
    if order is None: raise Unsupported('native struct order')
    out = []
    num = ''
    for c in fmt[1:]:
        if c.isdigit(): num += c; continue
        if c == 's': out.append(('s', int(num) if num else 1)); num = ''; continue
        size = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}.get(c)
        if size is None: raise Unsupported(f'struct {fmt}')
        out.extend([size] * (int(num) if num else 1)); num = ''
    return order, out

def struct_method(it, s, name, args, kwargs):
    import struct
    ctx = it.ctx
    order, fields = struct_fields(s.format)
    total = sum(f[1] if isinstance(f, tuple) else f for f in fields)
    if name == 'pack':
        if len(args) != len(fields): it.raise_(struct.error)
        parts = []
        for f, a in zip(fields, args):
            if isinstance(f, tuple):
                if not isinstance(a, bytes): raise Unsupported('packing an abstract text')
                parts.append(sterm(a[:f[1]].ljust(f[1], b'\0'))); continue
            if not is_int(a): it.raise_(struct.error)
            x = iterm(a)
            if not ctx.branch(z3.And(x >= 0, x < z3.IntVal(256 ** f))): it.raise_(struct.error, 'out of range')
            parts.append(int_to_bytes_term(ctx, x, f, order))
        return mkseq(z3.Concat(*parts) if len(parts) > 1 else parts[0], 'bytes')
    if name in ('unpack', 'unpack_from'):
        t = sterm(args[0])
        off = z3.IntVal(0)
        n = z3.Length(t)
        if name == 'unpack':
            if not ctx.branch(n == total): it.raise_(struct.error, 'size')
        else:
            o = args[1] if len(args) > 1 else kwargs.get('offset', 0)
            off = iterm(o)
            if ctx.branch(off < 0):
                off = off + n
                if ctx.branch(off < 0): it.raise_(struct.error, 'offset')
            if not ctx.branch(off + total <= n): it.raise_(struct.error, 'unpack_from requires a buffer')
        out = []
        pos = 0
        for f in fields:
            if isinstance(f, tuple):
                out.append(mkseq(z3.SubSeq(t, z3.simplify(off + pos), z3.IntVal(f[1])), 'bytes')); pos += f[1]; continue
            r = z3.IntVal(0)
            for k in range(f):
                b = byte_at(ctx, t, z3.simplify(off + (pos + k)))
                r = r + iterm(b) * z3.IntVal(256 ** ((f - 1 - k) if order == 'big' else k))
            out.append(mkint(r))
            pos += f
        return tuple(out)
    raise Unsupported(f'Struct.{name}')


# ------------------------------------------------------------------ builtin functions

def exc_class_value(it, exc):
    return ExcClassValue(exc)

class ExcClassValue:
    """type(exc) of an exception of unknown class"""
    def __init__(self, exc): self.exc = exc

def isinstance_(it, v, cls):
    ctx = it.ctx
    if isinstance(cls, tuple):
        return any(isinstance_(it, v, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(isinstance_(it, v, c) for c in cls.__args__)
    if isinstance(v, UnknownExc):
        if cls is object: return True
        if not issubclass(cls, BaseException): return False
        return v.matches(cls)
    if isinstance(v, Opaque):
        f = getattr(v.iface, 'isinstance_', None)
        if f is not None: return f(ctx, v, cls)
        if v.iface.types is not None: return any(issubclass(t, cls) for t in v.iface.types)
        if cls is object: return True
        raise Unsupported(f'isinstance of opaque {v.iface.name}, {cls}')
    if isinstance(v, Inst):
        mc = type(cls)
        ic = it.class_lookup(mc, '__instancecheck__')
        if isinstance(ic, types.FunctionType): return it.truth(it.call(ic, [cls, v]))
        return issubclass(v.cls, cls)
    if isinstance(v, (Closure, Bound)):
        return cls in (object, types.FunctionType if isinstance(v, Closure) else types.MethodType)
    t = pytype(v)
    if t is None: raise Unsupported(f'isinstance of {v!r}')
    if isinstance(cls, type): 
        ic = it.class_lookup(type(cls), '__instancecheck__')
        if isinstance(ic, types.FunctionType) and is_nat(v): return isinstance(v, cls)
        try: return issubclass(t, cls)
        except TypeError: it.raise_(TypeError)
    it.raise_(TypeError, 'isinstance() arg 2 must be a type')

@model(isinstance)
def _(it, args, kwargs): return isinstance_(it, *args)

@model(issubclass)
def _(it, args, kwargs):
    a, b = args
    if isinstance(a, ExcClassValue):
        if isinstance(b, tuple): return any(a.exc.matches(c) for c in b)
        return a.exc.matches(b)
    if not isinstance(a, type): it.raise_(TypeError, 'issubclass() arg 1 must be a class')
    return issubclass(a, b)

@model(len)
def _(it, args, kwargs):
    v = args[0]
    if isinstance(v, Inst):
        f = it.class_lookup(v.cls, '__len__')
        if isinstance(f, types.FunctionType): return it.call(f, [v])
        if v.base is None: it.raise_(TypeError, 'no len()')
    if isinstance(v, DictIter): return length(it, v.d)
    if isinstance(v, Opaque) and hasattr(v.iface, 'len_'): return v.iface.len_(it.ctx, v)
    return length(it, v)

@model(ord)
def _(it, args, kwargs):
    v = unbase(args[0])
    if is_nat(v):
        try: return ord(v)
        except TypeError: it.raise_(TypeError)
    t = sterm(v)
    if not it.ctx.branch(z3.Length(t) == 1): it.raise_(TypeError, 'ord() expected a character')
    r = z3.simplify(t[0])
    # Extract(s, i, 1)[0] == s[i]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        it.ctx.fact(z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) < z3.Length(t.arg(0))), r == t.arg(0)[t.arg(1)]))
    if is_str(v): char_range(it.ctx, r)
    else: it.ctx.fact(z3.And(r >= 0, r < 256))
    return mkint(r)

@model(chr)
def _(it, args, kwargs):
    x = iterm(args[0])
    if not it.ctx.branch(z3.And(x >= 0, x < 0x110000)): it.raise_(ValueError)
    return mkseq(z3.Unit(x), 'str')

@model(hash)
def _(it, args, kwargs): return hash_value(it, args[0])

@model(id)
def _(it, args, kwargs):
    v = args[0]
    if isinstance(v, Heap): return v.oid
    return SInt(it.ctx.fresh('id', I))

@model(callable)
def _(it, args, kwargs):
    v = args[0]
    if isinstance(v, (Closure, Bound, BuiltinMethod, OpaqueMethod)): return True
    if isinstance(v, Inst): return it.class_lookup(v.cls, '__call__') is not None
    if isinstance(v, Opaque): return True
    return is_nat(v) and callable(v)

@model(getattr)
def _(it, args, kwargs):
    o, name = args[0], args[1]
    if not isinstance(name, str): raise Unsupported('getattr with a symbolic name')
    if len(args) > 2:
        try: return it.getattr(o, name)
        except it.PyExc as e:
            if it.exc_match(e.value, AttributeError): return args[2]
            raise
    return it.getattr(o, name)

@model(hasattr)
def _(it, args, kwargs):
    try: it.getattr(args[0], args[1])
    except it.PyExc as e:
        if it.exc_match(e.value, AttributeError): return False
        raise
    return True

@model(setattr)
def _(it, args, kwargs): it.setattr(*args)

@model(repr)
def _(it, args, kwargs): return to_str(it, args[0], repr_=True)

@model(abs)
def _(it, args, kwargs):
    x = iterm(args[0])
    return mkint(z3.If(x < 0, -x, x))

@model(min, max)
def _minmax(it, args, kwargs): raise Unsupported('min/max')
def _mm(op):
    def h(it, args, kwargs):
        if kwargs and 'key' in kwargs: raise Unsupported('min/max key')
        els = list(args) if len(args) > 1 else concrete_elements(it, args[0])
        if els is None: raise Unsupported('min/max')
        if not els:
            if 'default' in kwargs: return kwargs['default']
            it.raise_(ValueError)
        best = els[0]
        for e in els[1:]:
            if it.truth(compare(it, op, e, best)): best = e
        return best
    return h
FUNCTIONS[min] = _mm('Lt')
FUNCTIONS[max] = _mm('Gt')

SUM = z3.Function('sum_of_ints', z3.SeqSort(I), I)
def sum_term(ctx, t):
    """sum of a sequence of numbers, with its unfolding on the structure of t"""
    t = z3.simplify(t)
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_SEQ_EMPTY: return z3.IntVal(0)
    if k == z3.Z3_OP_SEQ_UNIT: return t.arg(0)
    if k == z3.Z3_OP_SEQ_CONCAT:
        r = z3.Sum([sum_term(ctx, x) for x in t.children()]); ctx.fact(SUM(t) == r); return r
    if k == z3.Z3_OP_ITE: return z3.If(t.arg(0), sum_term(ctx, t.arg(1)), sum_term(ctx, t.arg(2)))
    return SUM(t)

@model(sum)
def _(it, args, kwargs):
    els = concrete_elements(it, args[0])
    if els is None:
        v = args[0]
        if isinstance(v, LList) and not v.concrete and isinstance(v.codec, type(IntC)) and len(args) == 1: return mkint(sum_term(it.ctx, v.get_seq()))
        raise Unsupported('sum')
    r = args[1] if len(args) > 1 else 0
    for e in els: r = binop(it, 'Add', r, e)
    return r

@model(any)
def _(it, args, kwargs):
    els = concrete_elements(it, args[0])
    if els is None: raise Unsupported('any')
    for e in els:
        if it.truth(e): return True
    return False

@model(all)
def _(it, args, kwargs):
    els = concrete_elements(it, args[0])
    if els is None: raise Unsupported('all')
    for e in els:
        if not it.truth(e): return False
    return True

@model(sorted)
def _(it, args, kwargs):
    if isinstance(args[0], Opaque) and hasattr(args[0].iface, 'sorted_'): return args[0].iface.sorted_(it.ctx, args[0], **kwargs)
    els = concrete_elements(it, args[0])
    if els is None or not is_nat(tuple(els)): raise Unsupported('sorted')
    return LList(it.ctx, items=sorted(els, **kwargs))

@model(next)
def _(it, args, kwargs): return iter_next(it, args[0], (args[1],) if len(args) > 1 else None)

@model(iter)
def _(it, args, kwargs):
    v = args[0]
    if isinstance(v, Inst):
        f = it.class_lookup(v.cls, '__iter__')
        if isinstance(f, types.FunctionType): return it.call(f, [v])
        if v.base is None: it.raise_(TypeError, 'not iterable')
        v = v.base
    if isinstance(v, (ListIter, Gen)): return v
    if v is None or is_int(v) or isinstance(v, Closure): it.raise_(TypeError, 'not iterable')
    if isinstance(v, Opaque) and hasattr(v.iface, 'iter_'): return v.iface.iter_(it.ctx, v)
    if isinstance(v, Opaque) and not hasattr(v.iface, 'symiter'): raise Unsupported('iter of opaque')
    return ListIter(it.ctx, v)

@model(print)
def _(it, args, kwargs): return None

@model(round)
def _(it, args, kwargs): raise Unsupported('round')

@model(divmod)
def _(it, args, kwargs): return (binop(it, 'FloorDiv', *args), binop(it, 'Mod', *args))

def cls_model(*cs):
    def deco(h):
        for c in cs: CLASSES[c] = h
        return h
    return deco

@cls_model(range)
def _(it, args, kwargs):
    if len(args) == 1: a, b, s = 0, args[0], 1
    elif len(args) == 2: a, b, s = args[0], args[1], 1
    else: a, b, s = args
    if all(isinstance(x, int) for x in (a, b, s)): return range(a, b, s)
    return RangeV(a, b, s)

@cls_model(enumerate)
def _(it, args, kwargs): return EnumV(args[0], args[1] if len(args) > 1 else kwargs.get('start', 0))

@cls_model(zip)
def _(it, args, kwargs): return ZipV(list(args))

@cls_model(reversed)
def _(it, args, kwargs):
    v = args[0]
    if isinstance(v, Inst):
        f = it.class_lookup(v.cls, '__reversed__')
        if isinstance(f, types.FunctionType): return it.call(f, [v])
        v = v.base
    if isinstance(v, LArray): return ReversedV(v)
    els = concrete_elements(it, v)
    if els is not None: return tuple(els[::-1])
    return ReversedV(v)

@cls_model(type)
def _(it, args, kwargs):
    if len(args) != 1: raise Unsupported('type()')
    v = args[0]
    if isinstance(v, UnknownExc): return ExcClassValue(v)
    if isinstance(v, Opaque):
        if v.iface.types and len(v.iface.types) == 1: return v.iface.types[0]
        return Opaque(z3.Function('type_of', OBJ, OBJ)(v.t), TYPE_IFACE)
    t = pytype(v)
    if t is None: raise Unsupported('type()')
    return t

class _TypeIface(Iface):
    name = 'type'
TYPE_IFACE = _TypeIface()

@cls_model(bool)
def _(it, args, kwargs):
    if not args: return False
    return mkbool(it.truth_term(args[0]))

@cls_model(int)
def _(it, args, kwargs):
    ctx = it.ctx
    if not args: return 0
    v = unbase(args[0])
    base = args[1] if len(args) > 1 else kwargs.get('base', 10)
    h = ctx.ghost.get('int_parse')
    if (is_str(v) or is_bytes(v)):
        if is_nat(v) and not isinstance(v, LBytes):
            try: return int(v, base)
            except ValueError as e: it.raise_(ValueError)
        if h is not None: return h(it, v, base)
        t = sterm(v)
        bt = z3.IntVal(base)
        if not ctx.branch(PY_INT_OK(t, bt)): it.raise_(ValueError, 'invalid literal for int()')
        return SInt(PY_INT(t, bt))
    if is_int(v): return mkint(iterm(v))
    if isinstance(v, SReal): return mkint(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if isinstance(v, float): return int(v)
    if v is None: it.raise_(TypeError)
    if isinstance(v, Inst):
        f = it.class_lookup(v.cls, '__int__')
        if isinstance(f, types.FunctionType): return it.call(f, [v])
    raise Unsupported(f'int({v!r})')

@cls_model(float)
def _(it, args, kwargs):
    v = args[0]
    if is_nat(v):
        try: return float(v)
        except (ValueError, TypeError) as e: it.raise_(type(e))
    if is_int(v): return SReal(z3.ToReal(iterm(v)))
    if isinstance(v, SReal): return v
    if is_str(v):
        ok = z3.Function('str_is_float', SEQ, B)
        if not it.ctx.branch(ok(sterm(v))): it.raise_(ValueError)
        return SReal(z3.Function('str_to_float', SEQ, REAL)(sterm(v)))
    raise Unsupported('float()')

@cls_model(str)
def _(it, args, kwargs):
    if not args: return ''
    if len(args) > 1 or kwargs: return decode_(it, args[0], *args[1:], **kwargs)
    if isinstance(args[0], (bytes, LBytes)) or isinstance(args[0], SSeq) and args[0].kind != 'str': return SSeq(it.ctx.fresh('repr', SEQ), 'str')
    return to_str(it, args[0])

@cls_model(bytes)
def _(it, args, kwargs):
    if not args: return b''
    v = args[0]
    if is_str(v): return encode(it, v, *args[1:], **kwargs)
    if is_bytes(v): return mkseq(sterm(v), 'bytes')
    if is_int(v): raise Unsupported('bytes(int)')
    els = concrete_elements(it, v)
    if els is None:
        if isinstance(v, LList) and v.codec is IntC: return SSeq(v.get_seq(), 'bytes')
        raise Unsupported('bytes()')
    ts = []
    for e in els:
        x = iterm(e)
        if not it.ctx.branch(z3.And(x >= 0, x < 256)): it.raise_(ValueError)
        ts.append(x)
    return mkseq(seq_of_terms(ts, I), 'bytes')

@cls_model(bytearray)
def _(it, args, kwargs):
    if not args: return LBytes(it.ctx, z3.Empty(SEQ))
    if is_int(args[0]):
        n = iterm(args[0])
        f = z3.Function('zeros', I, SEQ)
        t = f(n)
        it.ctx.fact(z3.Length(t) == n)
        return LBytes(it.ctx, t)
    return LBytes(it.ctx, sterm(CLASSES[bytes](it, args, kwargs)))

@cls_model(memoryview)
def _(it, args, kwargs):
    v = args[0]
    if not is_bytes(v): it.raise_(TypeError)
    return SSeq(sterm(v), 'view')

@cls_model(list)
def _(it, args, kwargs):
    ctx = it.ctx
    if not args: return LList(ctx, items=[])
    v = args[0]
    if isinstance(v, Inst) and isinstance(v.base, Heap) and not isinstance(it.class_lookup(v.cls, '__iter__'), types.FunctionType): v = v.base
    if isinstance(v, LList) and not v.concrete: return LList(ctx, seq=v.get_seq(), codec=v.codec)
    if isinstance(v, LArray): return LArray(ctx, v.arr, v.n, v.codec)
    els = concrete_elements(it, v)
    if els is not None: return LList(ctx, items=els)
    if isinstance(v, (DictIter, LDict)):
        d = v if isinstance(v, LDict) else v.d
        if (isinstance(v, LDict) or v.what == 'keys') and d.order is not None:
            return LList(ctx, seq=d.order, codec=d.kcodec)
    raise Unsupported('list()')

@cls_model(tuple)
def _(it, args, kwargs):
    if not args: return ()
    v = args[0]
    if isinstance(v, Inst) and isinstance(v.base, LList) and not isinstance(it.class_lookup(v.cls, '__iter__'), types.FunctionType): v = v.base
    if isinstance(v, LList) and not v.concrete: return LList(it.ctx, seq=v.get_seq(), codec=v.codec, kind='tuple')
    els = concrete_elements(it, v)
    if els is None: raise Unsupported('tuple()')
    return tuple(els)

def _set(frozen):
    def h(it, args, kwargs):
        ctx = it.ctx
        s = LSet(ctx, items=[])
        if args:
            v = args[0]
            if isinstance(v, LSet):
                s.items = list(v.items) if v.concrete else None
                s.has = v.has; s.codec = v.codec
            else:
                els = concrete_elements(it, v)
                if els is None: raise Unsupported('set()')
                for e in els: set_method(it, s, 'add', [e], {})
        if frozen and s.concrete and is_nat(tuple(s.items)): return frozenset(s.items)
        s.frozen = frozen
        return s
    return h
CLASSES[set] = _set(False)
CLASSES[frozenset] = _set(True)

@cls_model(dict)
def _(it, args, kwargs):
    d = LDict(it.ctx, items={})
    dict_method(it, d, 'update', args, kwargs)
    return d

@cls_model(object)
def _(it, args, kwargs): return Inst(it.ctx, object)

import collections
@cls_model(collections.deque)
def _(it, args, kwargs):
    maxlen = args[1] if len(args) > 1 else kwargs.get('maxlen')
    d = LList(it.ctx, items=[], kind='deque', maxlen=maxlen)
    if args and args[0] is not None and args[0] != (): list_method(it, d, 'extend', [args[0]], {})
    return d

@cls_model(property, staticmethod, classmethod)
def _(it, args, kwargs): raise Unsupported('decorator object')

@cls_model(slice)
def _(it, args, kwargs):
    if len(args) == 1: return SliceV(None, args[0], None)
    return SliceV(*(list(args) + [None] * (3 - len(args))))

def native_attr(it, o, name):
    return wrap_native(it, getattr(o.v, name), owner=o.v)

@model(format)
def _(it, args, kwargs):
    return format_value(it, args[0], None, args[1] if len(args) > 1 else '')

import itertools
@cls_model(itertools.chain)
def _(it, args, kwargs):
    out = []
    for a in args:
        els = concrete_elements(it, a)
        if els is None: raise Unsupported('chain of symbolic length')
        out.extend(els)
    return LList(it.ctx, items=out)

import functools
class PartialV:
    """functools.partial of interpreter values"""
    def __init__(self, func, args, keywords): self.func, self.args, self.keywords = func, args, keywords
@cls_model(functools.partial)
def _(it, args, kwargs): return PartialV(args[0], list(args[1:]), dict(kwargs))

import types as _types
@cls_model(_types.MethodType)
def _(it, args, kwargs): return Bound(args[0], args[1])
