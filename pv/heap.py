"""Heap objects and element codecs of the symbolic interpreter."""
import z3
from .engine import *
from .engine import I, B, SEQ, OBJ

SEQ2 = z3.SeqSort(SEQ)
SEQO = z3.SeqSort(OBJ)


class Iface:
    """Interface contract of an opaque object. Subclasses define  get_<attr>(ctx, o), set_<attr>, m_<method>(ctx, o, *args)."""
    name = 'object'
    types = None        # real classes the object is an instance of (tuple), None: unknown
    truthy = True
    def getattr(self, ctx, o, name):
        f = getattr(self, 'get_' + name, None)
        if f is not None:
            return f(ctx, o)
        if getattr(self, 'm_' + name, None) is not None:
            return OpaqueMethod(o, name)
        raise Unsupported(f'{self.name}.{name} has no contract')
    def setattr(self, ctx, o, name, value):
        f = getattr(self, 'set_' + name, None)
        if f is None:
            raise Unsupported(f'store to {self.name}.{name} has no contract')
        f(ctx, o, value)
    def call(self, ctx, o, args, kwargs):
        raise Unsupported(f'call of {self.name} has no contract')


class Opaque:
    """A value known only through its identity and an interface contract."""
    __slots__ = ('t', 'iface', 'extra')
    def __init__(self, t, iface=None):
        self.t = t
        self.iface = iface or ANY
        self.extra = {}
    def __repr__(self): return f'Opaque({self.t})'

ANY = Iface()

TRUTHY = z3.Function('is_truthy', OBJ, B)
class AnyI(Iface):
    """Any object whatever: may be None, may be falsy."""
    name = 'anything'
    maybe_none = True
    def truthy(self, ctx, o): return TRUTHY(o.t)


class OpaqueMethod:
    __slots__ = ('o', 'name')
    def __init__(self, o, name): self.o = o; self.name = name


class Codec:
    sort = None
    key = None
    def enc(self, ctx, v): raise NotImplementedError
    def dec(self, ctx, t): raise NotImplementedError
    def __repr__(self): return f'Codec({self.key})'

class _IntC(Codec):
    sort = I; key = 'int'
    def enc(self, ctx, v):
        if isinstance(v, SInt): return v.t
        if isinstance(v, int) and not isinstance(v, bool): return z3.IntVal(v)
        raise Unsupported(f'int expected, got {v!r}')
    def dec(self, ctx, t): return SInt(t)
class _BoolC(Codec):
    sort = B; key = 'bool'
    def enc(self, ctx, v):
        if isinstance(v, SBool): return v.t
        if isinstance(v, bool): return z3.BoolVal(v)
        raise Unsupported(f'bool expected, got {v!r}')
    def dec(self, ctx, t): return SBool(t)
class _StrC(Codec):
    sort = SEQ
    def __init__(self, kind): self.kind = kind; self.key = kind
    def enc(self, ctx, v):
        if isinstance(v, SSeq) and v.kind == self.kind: return v.t
        if self.kind == 'str' and isinstance(v, str): return lit(v)
        if self.kind == 'bytes' and isinstance(v, bytes): return lit(v)
        if self.kind == 'bytes' and isinstance(v, SSeq) and v.kind == 'view': return v.t
        raise Unsupported(f'{self.kind} expected, got {v!r}')
    def dec(self, ctx, t): return SSeq(t, self.kind)
class ObjC(Codec):
    sort = OBJ
    def __init__(self, iface=None): self.iface = iface or ANY; self.key = ('obj', id(self.iface))
    def enc(self, ctx, v):
        if isinstance(v, Opaque): return v.t
        raise Unsupported(f'opaque expected, got {v!r}')
    def dec(self, ctx, t): return Opaque(t, self.iface)

_tuple_sorts = {}
class TupleC(Codec):
    def __init__(self, codecs):
        self.codecs = tuple(codecs)
        self.key = ('tuple',) + tuple(c.key for c in self.codecs)
        d = _tuple_sorts.get(self.key)
        if d is None:
            name = f'T{len(_tuple_sorts)}'
            dt = z3.Datatype(name)
            dt.declare('mk' + name, *[(f'{name}_{k}', c.sort) for k, c in enumerate(self.codecs)])
            d = _tuple_sorts[self.key] = dt.create()
        self.sort = d
    def enc(self, ctx, v):
        if not isinstance(v, tuple) or len(v) != len(self.codecs): raise Unsupported(f'tuple expected, got {v!r}')
        return self.sort.constructor(0)(*[c.enc(ctx, e) for c, e in zip(self.codecs, v)])
    def dec(self, ctx, t):
        return tuple(c.dec(ctx, self.sort.accessor(0, k)(t)) for k, c in enumerate(self.codecs))

_opt_sorts = {}
class OptC(Codec):
    """None or a value of the inner codec"""
    def __init__(self, inner):
        self.inner = inner
        self.key = ('opt', inner.key)
        d = _opt_sorts.get(self.key)
        if d is None:
            name = f'O{len(_opt_sorts)}'
            dt = z3.Datatype(name)
            dt.declare('none' + name)
            dt.declare('some' + name, ('v' + name, inner.sort))
            d = _opt_sorts[self.key] = dt.create()
        self.sort = d
    def enc(self, ctx, v):
        if v is None: return self.sort.constructor(0)()
        return self.sort.constructor(1)(self.inner.enc(ctx, v))
    def dec(self, ctx, t):
        if ctx.branch(self.sort.recognizer(0)(t)): return None
        return self.inner.dec(ctx, self.sort.accessor(1, 0)(t))

IntC = _IntC(); BoolC = _BoolC(); StrC = _StrC('str'); BytesC = _StrC('bytes')


def codec_of(ctx, v):
    if isinstance(v, (SBool, bool)): return BoolC
    if isinstance(v, (SInt, int)): return IntC
    if isinstance(v, str): return StrC
    if isinstance(v, bytes): return BytesC
    if isinstance(v, SSeq): return StrC if v.kind == 'str' else BytesC
    if isinstance(v, Opaque): return ObjC(v.iface)
    if isinstance(v, tuple): return TupleC([codec_of(ctx, e) for e in v])
    raise Unsupported(f'no element codec for {v!r}')


class Heap:
    """base of mutable objects"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.oid = ctx.new_oid(self)


class LList(Heap):
    """list / deque: concrete shape (items) or symbolic (seq of encoded elements)"""
    def __init__(self, ctx, items=None, seq=None, codec=None, kind='list', maxlen=None):
        Heap.__init__(self, ctx)
        self.items = items
        self.seq = seq
        self.codec = codec
        self.kind = kind
        self.maxlen = maxlen
        self.owner = None       # (LDict, key term) when the list lives inside a symbolic dict
        self.hooks = ()         # called as hook(event, list, info) after ghost-relevant operations
    # state access; lists living in a dict read and write through to it
    def get_seq(self):
        if self.owner is not None:
            d, k = self.owner
            return z3.Select(d.val, k)
        return self.seq
    def set_seq(self, t):
        self.ctx.touch(self, 'content')
        if self.owner is not None:
            d, k = self.owner
            self.ctx.touch(d, 'content')
            d.val = z3.Store(d.val, k, t)
        else:
            self.seq = t
            self.items = None
    def set_items(self, items):
        self.ctx.touch(self, 'content')
        self.items = items
    @property
    def concrete(self): return self.items is not None and self.owner is None
    def symbolize(self, codec=None):
        """Switches a concrete-shape list to a sequence term."""
        if not self.concrete: return
        ctx = self.ctx
        codec = codec or self.codec
        if codec is None:
            if not self.items: raise Unsupported('element type of an empty list unknown')
            codec = codec_of(ctx, self.items[0])
        terms = [codec.enc(ctx, v) for v in self.items]
        self.codec = codec
        self.seq = seq_of_terms(terms, codec.sort)
        self.items = None
    def snapshot(self):
        return ('items', list(self.items)) if self.concrete else ('seq', self.get_seq())
    def as_term(self, codec=None):
        if self.concrete:
            c = codec or self.codec or (codec_of(self.ctx, self.items[0]) if self.items else None)
            if c is None: raise Unsupported('empty list of unknown element type')
            return seq_of_terms([c.enc(self.ctx, v) for v in self.items], c.sort)
        return self.get_seq()
    def decode_model(self, m):
        if self.concrete: return [decode(m, v) for v in self.items]
        return '<seq>'


def seq_of_terms(terms, sort):
    if not terms: return z3.Empty(z3.SeqSort(sort))
    if len(terms) == 1: return z3.Unit(terms[0])
    return z3.Concat(*[z3.Unit(t) for t in terms])


class LBytes(Heap):
    """bytearray"""
    def __init__(self, ctx, t):
        Heap.__init__(self, ctx)
        self.t = t
    def set(self, t):
        self.ctx.touch(self, 'content')
        self.t = t
    def as_term(self): return self.t


class LArray(Heap):
    """list with symbolic length as array + length (for quantified invariants)"""
    def __init__(self, ctx, arr, n, codec, kind='list'):
        Heap.__init__(self, ctx)
        self.arr = arr
        self.n = n
        self.codec = codec
        self.kind = kind
    def set(self, arr, n):
        self.ctx.touch(self, 'content')
        self.arr = arr
        self.n = n


class LDict(Heap):
    """concrete: dict of native keys -> values (insertion ordered, `items`);
    symbolic: has: Array(K, Bool), val: Array(K, V)"""
    def __init__(self, ctx, items=None, has=None, val=None, kcodec=None, vcodec=None, listval=None):
        Heap.__init__(self, ctx)
        self.items = items
        self.has = has
        self.val = val
        self.kcodec = kcodec
        self.vcodec = vcodec
        self.listval = listval      # element codec when the values are lists (stored as sequences)
        self.views = []             # live LList views (write through)
        self.order = None
        self.n = None
    @property
    def concrete(self): return self.items is not None
    def decode_model(self, m):
        if self.concrete: return {k: decode(m, v) for k, v in self.items.items()}
        return '<dict>'


class LSet(Heap):
    """set: concrete list of distinct values (items) or Array(K, Bool)"""
    def __init__(self, ctx, items=None, has=None, codec=None, frozen=False):
        Heap.__init__(self, ctx)
        self.items = items
        self.has = has
        self.codec = codec
        self.frozen = frozen
        self.n = None
    @property
    def concrete(self): return self.items is not None
    def set_has(self, t):
        self.ctx.touch(self, 'content')
        self.has = t


class Inst(Heap):
    """Instance of a repository class (or of a built-in exception)."""
    def __init__(self, ctx, cls, fields=None, base=None):
        Heap.__init__(self, ctx)
        self.cls = cls
        self.fields = dict(fields or {})
        self.base = base        # LList / LDict / LSet / SSeq data for subclasses of builtins
        self.sub = {}           # for exceptions of unknown class: decided relations
    def __repr__(self): return f'<Inst {getattr(self.cls, "__name__", self.cls)} #{self.oid}>'
    def decode_model(self, m):
        out = {k: decode(m, v) for k, v in self.fields.items() if not isinstance(v, Inst)}
        out['__class__'] = getattr(self.cls, '__name__', None)
        if self.base is not None and hasattr(self.base, 'decode_model'): out['__base__'] = self.base.decode_model(m)
        elif isinstance(self.base, SSeq): out['__base__'] = decode(m, self.base)
        return out


class UnknownExc(Heap):
    """An exception of which only an upper bound (a class) is known; except clauses split on it."""
    def __init__(self, ctx, bound=BaseException, label='exc', exclude=()):
        Heap.__init__(self, ctx)
        self.bound = bound
        self.label = label
        self.yes = [bound]
        self.no = list(exclude)
    def matches(self, cls):
        """decides whether the exception is an instance of cls on this path"""
        for y in self.yes:
            if issubclass(y, cls): return True
        for n in self.no:
            if issubclass(cls, n): return False
        for y in self.yes:
            # unrelated single-inheritance branches below BaseException are taken as disjoint only when layouts conflict
            if not issubclass(cls, y) and not issubclass(y, cls) and {y, cls} & {StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit}:
                return False
        if self.ctx.choose(2, 'exc') == 0:
            self.no.append(cls)
            return False
        self.yes.append(cls)
        return True


class Closure:
    def __init__(self, node, frame_globals, cells, name, defaults, kwdefaults, qualname):
        self.node = node
        self.globals = frame_globals
        self.cells = cells
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qualname = qualname
        self.attrs = {}


class Bound:
    __slots__ = ('fn', 'self')
    def __init__(self, fn, self_): self.fn = fn; self.self = self_

class BuiltinMethod:
    __slots__ = ('obj', 'name')
    def __init__(self, obj, name): self.obj = obj; self.name = name

class Super:
    __slots__ = ('cls', 'self')
    def __init__(self, cls, self_): self.cls = cls; self.self = self_

class Gen(Heap):
    """generator or coroutine object not started yet (thunk run in line when awaited / iterated)"""
    def __init__(self, ctx, thunk, kind, name):
        Heap.__init__(self, ctx)
        self.thunk = thunk
        self.kind = kind
        self.name = name
        self.used = False

class ListIter(Heap):
    """iterator over a sequence value, with a concrete or symbolic position"""
    def __init__(self, ctx, source, pos=0):
        Heap.__init__(self, ctx)
        self.source = source
        self.pos = pos
