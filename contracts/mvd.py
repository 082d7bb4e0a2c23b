"""Shared contracts of the multi value dictionaries (C01: any hashable keys, C02: case-insensitive keys)."""
from pv.lib import *
from scarletio.utils.multi_value_dictionary import MultiValueDictionary, _MultiValueDictionaryItemIterator, _MultiValueDictionaryValueIterator
from scarletio.utils.ignore_case_multi_value_dictionary import IgnoreCaseMultiValueDictionary
from scarletio.utils.ignore_case_string import IgnoreCaseString
import scarletio.utils.multi_value_dictionary as M
from scarletio.utils.utils import is_iterable

class ValueI(AnyI): name = 'value'
class KeyI(AnyI): name = 'key'
VALUE = ValueI(); KEY = KeyI()
VC = ObjC(VALUE)
SEQO = z3.SeqSort(OBJ)
NODUP = z3.Function('no_duplicates', SEQO, B)
CASEFOLD = models.CASEFOLD

class PlainKeys:
    cls = MultiValueDictionary
    codec = ObjC(KEY)
    sort = OBJ
    def key(self, c, name): return Opaque(c.fresh(name, OBJ), KEY)
    def norm(self, c, k): return k.t
    def setup(self, c): pass

class FoldC(Codec):
    """dict keys as the hash table sees them: a case-insensitive string by its folded text, a plain string by its text"""
    sort = SEQ; key = 'fold'; raw = True
    def enc(self, ctx, v):
        if isinstance(v, Inst) and v.cls is IgnoreCaseString: return sterm(v.fields['_case_fold'])
        if isinstance(v, (str, SSeq)): return sterm(v)
        raise Unsupported(f'key {v!r}')
    def dec(self, ctx, t):
        orig = ctx.fresh('key_text', SEQ)
        ctx.fact(CASEFOLD(orig) == t); ctx.fact(CASEFOLD(t) == t)
        return ics(ctx, SSeq(orig, 'str'), t)
def ics(ctx, text, folded):
    o = Inst(ctx, IgnoreCaseString, {'_case_fold': SSeq(folded, 'str')}, text)
    return o
def ics_contract(ctx, cls, value='', *args):
    """proved in 'creating a case-insensitive string' """
    if isinstance(value, Inst) and value.cls is IgnoreCaseString: return value
    if not isinstance(value, (str, SSeq)): raise Unsupported('key type')
    return ics(ctx, value, models.case_map(ctx.it, CASEFOLD, 'casefold', sterm(value)))
class FoldKeys:
    cls = IgnoreCaseMultiValueDictionary
    codec = FoldC()
    sort = SEQ
    def key(self, c, name):
        s = c.str(name)
        if c.choose(2): return ics(c, s, models.case_map(c.it, CASEFOLD, 'casefold', sterm(s)))
        return s
    def norm(self, c, k):
        if isinstance(k, Inst): return sterm(k.fields['_case_fold'])
        return models.case_map(c.it, CASEFOLD, 'casefold', sterm(k))
    def setup(self, c): use(c, IgnoreCaseString.__new__, ics_contract)

def wf(c, d, kt):
    """representation invariant at one key"""
    v = z3.Select(d.val, kt)
    return z3.Implies(z3.Select(d.has, kt), z3.And(z3.Length(v) >= 1, NODUP(v)))
def nodup_lemmas(c, seq, v=None):
    """facts about lists without duplicates (definition unfolded at the operations)"""
    if v is not None:
        c.fact(NODUP(z3.Unit(v)))
        c.fact(z3.Implies(z3.And(NODUP(seq), z3.Not(z3.Contains(seq, z3.Unit(v)))), NODUP(z3.Concat(seq, z3.Unit(v)))))
    c.fact(z3.Implies(z3.And(NODUP(seq), z3.Length(seq) >= 1), NODUP(z3.Extract(seq, z3.IntVal(1), z3.Length(seq) - 1))))

def state(c, K, name='d'):
    has = c.fresh(name + '_has', z3.ArraySort(K.sort, B)); val = c.fresh(name + '_val', z3.ArraySort(K.sort, SEQO))
    d = LDict(c, has=has, val=val, kcodec=K.codec, listval=VC)
    d.order = c.fresh(name + '_order', z3.SeqSort(K.sort))
    return d
def order_facts(c, d, k):
    c.fact(z3.Select(d.has, k) == z3.Contains(d.order, z3.Unit(k)))
def mvd(c, K, name='d'): return inst(c, K.cls, base=state(c, K, name))
def blank(K):
    def new_base(ctx, cls):
        if not issubclass(cls, MultiValueDictionary): return None
        d = LDict(ctx, has=z3.K(K.sort, z3.BoolVal(False)), val=ctx.fresh('val', z3.ArraySort(K.sort, SEQO)), kcodec=K.codec, listval=VC)
        d.order = z3.Empty(z3.SeqSort(K.sort))
        return d
    return new_base
def value(c, name='value'): return Opaque(c.fresh(name, OBJ), VALUE)

class Op:
    """A state, a key, and what is there before"""
    def __init__(self, c, K):
        K.setup(c)
        self.c = c; self.K = K
        self.o = mvd(c, K); self.d = self.o.base
        self.key = K.key(c, 'key'); self.kt = K.norm(c, self.key)
        self.H0, self.V0, self.O0 = self.d.has, self.d.val, self.d.order
        self.other = c.fresh('other_key', K.sort)
        for k in (self.kt, self.other): c.assume(wf(c, self.d, k)); order_facts(c, self.d, k)
        self.h = z3.Select(self.H0, self.kt); self.L = z3.Select(self.V0, self.kt)
        nodup_lemmas(c, self.L)
    def after(self, h=None, v=None, invariant=True):
        """afterwards the key maps to list v (absent when h is False); every other key is as it was"""
        c, d = self.c, self.o.base
        h = self.h if h is None else (z3.BoolVal(h) if isinstance(h, bool) else h)
        v = self.L if v is None else v
        k = self.other
        c.prove('the key is there exactly when it should be', z3.Select(d.has, self.kt) == h)
        c.prove('it has the values it should have', z3.Implies(h, z3.Select(d.val, self.kt) == v))
        c.prove('no other key is touched', z3.Implies(k != self.kt, z3.And(z3.Select(d.has, k) == z3.Select(self.H0, k), z3.Implies(z3.Select(d.has, k), z3.Select(d.val, k) == z3.Select(self.V0, k)))))
        c.prove('value lists are non-empty and without duplicates', wf(c, d, self.kt))
        c.prove('iteration order lists exactly the keys', z3.And(z3.Contains(d.order, z3.Unit(self.kt)) == h, z3.Implies(k != self.kt, z3.Contains(d.order, z3.Unit(k)) == z3.Select(self.H0, k))))
    def unchanged(self): self.after()

def unshared(c, name, v, d):
    c.prove(name, bv(isinstance(v, LList) and v.owner is None and v is not d))

def added(L, h, v):
    return z3.If(h, z3.If(z3.Contains(L, z3.Unit(v)), L, z3.Concat(L, z3.Unit(v))), z3.Unit(v))

def ops(proof, K, prefix):
    cls = K.cls
    first = z3.IntVal(0)
    def rest(L): return z3.Extract(L, z3.IntVal(1), z3.Length(L) - 1)

    @proof(prefix + 'reading one value')
    def _(c):
        s = Op(c, K)
        which = c.choose(5)
        default = Opaque(c.fresh('default', OBJ))
        if which == 0: r = attempt(c, cls.__getitem__, s.o, s.key); only_raises(c, r, KeyError)
        elif which == 1: r = attempt(c, cls.get_one, s.o, s.key, default); no_raise(c, r)
        elif which == 2: r = attempt(c, cls.get, s.o, s.key, default); no_raise(c, r)
        elif which == 3: r = attempt(c, cls.get, s.o, s.key); no_raise(c, r); default = None
        else:
            try: v = models.contains(c.it, s.o, s.key)
            except PyExc as e: no_raise(c, Outcome(exc=e.value))
            c.prove('membership', as_term(v) == s.h)
            s.unchanged(); return
        absent = r.raised if which == 0 else r.value is default
        c.prove('absent exactly when no value is there', bv(absent) == z3.Not(s.h))
        if not absent: c.prove('the first value', r.value.t == s.L[0])
        s.unchanged()

    @proof(prefix + 'reading all values gives a list of its own')
    def _(c):
        s = Op(c, K)
        default = Opaque(c.fresh('default', OBJ)) if c.choose(2) else None
        r = attempt(c, cls.get_all, s.o, s.key, *([] if default is None else [default]))
        no_raise(c, r)
        c.prove('absent exactly when no value is there', bv(r.value is default) == z3.Not(s.h))
        if r.value is not default:
            c.prove('all values in order', r.value.as_term(VC) == s.L)
            unshared(c, 'the list is not the stored one', r.value, s.o)
        s.unchanged()

    @proof(prefix + 'setting and setdefault')
    def _(c):
        s = Op(c, K); v = value(c)
        nodup_lemmas(c, s.L, v.t)
        if c.choose(2):
            r = attempt(c, cls.__setitem__, s.o, s.key, v); no_raise(c, r)
            s.after(True, added(s.L, s.h, v.t))
        else:
            r = attempt(c, cls.setdefault, s.o, s.key, v); no_raise(c, r)
            c.prove('gives the first value', r.value.t == z3.If(s.h, s.L[0], v.t))
            s.after(True, z3.If(s.h, s.L, z3.Unit(v.t)))

    @proof(prefix + 'deleting and popping')
    def _(c):
        s = Op(c, K); which = c.choose(3)
        more = z3.Length(s.L) > 1
        default = Opaque(c.fresh('default', OBJ))
        has_default = which and c.choose(2) == 1
        fn = [cls.__delitem__, cls.pop_one, cls.pop][which]
        r = attempt(c, fn, s.o, s.key, *([default] if has_default else []))
        only_raises(c, r, KeyError)
        absent = r.value is default if has_default else r.raised
        c.prove('absent exactly when no value is there', bv(absent) == z3.Not(s.h))
        if absent: s.unchanged(); return
        if which: c.prove('the first value', r.value.t == s.L[0])
        s.after(z3.And(s.h, more), rest(s.L))

    @proof(prefix + 'popping all values')
    def _(c):
        s = Op(c, K)
        default = Opaque(c.fresh('default', OBJ)); has_default = c.choose(2) == 1
        r = attempt(c, cls.pop_all, s.o, s.key, *([default] if has_default else []))
        only_raises(c, r, KeyError)
        absent = r.value is default if has_default else r.raised
        c.prove('absent exactly when no value is there', bv(absent) == z3.Not(s.h))
        if absent: s.unchanged(); return
        c.prove('all values in order', r.value.as_term(VC) == s.L)
        unshared(c, 'the list is not stored any more', r.value, s.o)
        s.after(False)

    def source(c, kind, name='src'):
        """-> (value to give, n, get(i) -> (key value, key term, value term or list term))"""
        if kind == 'mvd' or kind == 'plain mvd':
            o = mvd(c, K, name) if kind == 'mvd' else inst(c, MultiValueDictionary, base=state(c, PK, name))
            return o
        if kind == 'dict':
            d = LDict(c, has=c.fresh('src_has', z3.ArraySort(SRC.sort, B)), val=c.fresh('src_val', z3.ArraySort(SRC.sort, OBJ)), kcodec=SRC.codec, vcodec=VC)
            d.order = c.fresh('src_order', z3.SeqSort(SRC.sort))
            return d

    class PlainStr:
        """keys of a source: any strings"""
        sort = SEQ; codec = StrC
        def norm(self, c, k): return K.norm(c, k)
    SRC = PlainStr() if K.sort == SEQ else K

    ISPAIR = z3.Function('is_pair', I, B); PK_ = z3.Function('pair_key', I, SRC.sort); PV = z3.Function('pair_value', I, OBJ); TUPLE = z3.Function('is_tuple', I, B); TLEN = z3.Function('tuple_len', I, I)
    class PairsI(Iface):
        name = 'iterable of items'
        types = (object,)
        def symiter(self, ctx, o):
            def get(i):
                ctx.ghost['last_item'] = i
                if ctx.branch(ISPAIR(i)): return (SRC.codec.dec(ctx, PK_(i)), Opaque(PV(i), VALUE))
                if ctx.branch(TUPLE(i)): return (None,) if ctx.branch(TLEN(i) == 1) else (None, None, None)
                return Opaque(ctx.fresh('item', OBJ), OTHER)
            return SymIter(o.extra['n'], get)
        def m_items(self, ctx, o): return o        # as the argument of extend: a mapping whose items are these pairs
        def len_(self, ctx, o): return SInt(o.extra['n'])
    class OtherI(Iface):
        name = 'not a tuple'; types = (list,)
    OTHER = OtherI(); PAIRS = PairsI()

    def fold_spec(c, d, kt, src_key, h0, v0, name='f'):
        """loop contract: what the pairs read so far make of one arbitrary key"""
        def entry(L): return {'h': h0, 'v': v0}
        def havoc(L): L.env['h'] = L.ctx.fresh('h', B); L.env['v'] = L.ctx.fresh('v', SEQO)
        def step(L):
            i = L._i - 1
            k = src_key(i); v = PV(i); h, l = L.env['h'], L.env['v']
            nodup_lemmas(L.ctx, l, v)
            L.env['v'] = z3.If(k == kt, added(l, h, v), l)
            L.env['h'] = z3.Or(h, k == kt)
        def inv(L):
            dd = d()
            return {'key there': z3.Select(dd.has, kt) == L.env['h'], 'its values': z3.Implies(L.env['h'], z3.Select(dd.val, kt) == L.env['v']), 'kept well formed': wf(L.ctx, dd, kt),
                'order': z3.Select(dd.has, kt) == z3.Contains(dd.order, z3.Unit(kt)), 'range': z3.And(L._i >= 0, L._i <= L._n)}
        return entry, havoc, step, inv

    def key_at(c):
        def f(i):
            t = PK_(i)
            return t if SRC is K else models.case_map(c.it, CASEFOLD, 'casefold', t)
        return f

    def fold_loop(c, fname, ordinals, d, kt, h0, v0):
        out = {}
        entry, havoc, step, inv = fold_spec(c, d, kt, key_at(c), h0, v0)
        def at_exit(L): out.update(L.env)
        for o in ordinals: loop(c, fname, o, Loop(inv=inv, on_entry=entry, havoc=havoc, on_step=step, at_exit=at_exit))
        return out

    @proof(prefix + 'extend adds the given values, key by key')
    def _(c):
        s = Op(c, K)
        m = Opaque(c.fresh('mapping', OBJ), PAIRS); n = c.fresh('n', I); c.assume(n >= 0); m.extra['n'] = n
        i = z3.Int('i'); c.assume(z3.ForAll([i], ISPAIR(i), patterns=[ISPAIR(i)]))
        nodup_lemmas(c, s.L)
        d = s.d
        out = fold_loop(c, cls.extend.__qualname__, [0], lambda: s.o.base, s.kt, s.h, s.L)
        r = attempt(c, cls.extend, s.o, m)
        no_raise(c, r)
        c.prove('as the pairs say', bv('h' in out))
        c.prove('value lists are non-empty and without duplicates', wf(c, s.o.base, s.kt))

    @proof(prefix + 'creating from pairs')
    def _(c):
        K.setup(c)
        c.ghost['new_base'] = blank(K)
        m = Opaque(c.fresh('iterable', OBJ), PAIRS); n = c.fresh('n', I); c.assume(n >= 0); m.extra['n'] = n
        kt = c.fresh('key', K.sort)
        made = []
        o = inst(c, cls, base=blank(K)(c, cls))
        out = fold_loop(c, cls.__init__.__qualname__, [LOOPS[cls]], lambda: o.base, kt, z3.BoolVal(False), z3.Empty(SEQO))
        given = None if c.choose(4) == 0 else m
        r = attempt(c, cls.__init__, o, given)
        only_raises(c, r, ValueError)
        if r.raised: 
            c.prove('refused only for an item which is no pair', bv(given is not None))
            c.prove('some item is no pair', z3.Not(ISPAIR(c.ghost['last_item'])) if 'last_item' in c.ghost else z3.BoolVal(True))
            return
        c.prove('value lists are non-empty and without duplicates', wf(c, o.base, kt))
        if given is None: c.prove('empty', z3.Not(z3.Select(o.base.has, kt)))

    @proof(prefix + 'creating from an other one of its kind, and copying, share no value list')
    def _(c):
        K.setup(c)
        c.ghost['new_base'] = blank(K)
        src = mvd(c, K, 'src'); d = src.base
        kt = c.fresh('key', K.sort)
        H0, V0, O0 = d.has, d.val, d.order
        c.assume(wf(c, d, kt)); order_facts(c, d, kt)
        copy = c.choose(2) == 1
        made = []
        if not copy:
            o = inst(c, cls, base=blank(K)(c, cls)); made.append(o)
        def new_base(ctx, k):
            b = blank(K)(ctx, k)
            if b is not None: made.append(b)
            return b
        if copy: c.ghost['new_base'] = new_base
        target = lambda: made[-1].base if isinstance(made[-1], Inst) else made[-1]
        SEEN = z3.Function('seen', I, B)      # the key is among the first i of the source (unfolded step by step)
        c.fact(z3.Not(SEEN(z3.IntVal(0)))); c.fact(SEEN(z3.Length(O0)) == z3.Select(H0, kt))
        def step(L): L.ctx.fact(SEEN(L._i) == z3.Or(SEEN(L._i - 1), O0[L._i - 1] == kt))
        def inv(L):
            t = target()
            return {'range': z3.And(L._i >= 0, L._i <= L._n), 'keys so far': z3.Select(t.has, kt) == SEEN(L._i), 'their values': z3.Implies(z3.Select(t.has, kt), z3.Select(t.val, kt) == z3.Select(V0, kt)),
                'source untouched': z3.And(d.has == H0, d.val == V0), 'only keys of the source': z3.Implies(z3.Select(t.has, kt), z3.Select(H0, kt))}
        for q in (cls.__init__.__qualname__, MultiValueDictionary.__init__.__qualname__, MultiValueDictionary.copy.__qualname__): loop(c, q, 0, Loop(inv=inv, on_step=step))
        if copy: r = attempt(c, cls.copy, src)
        else: r = attempt(c, cls.__init__, o, src)
        no_raise(c, r)
        t = r.value.base if copy else o.base
        c.prove('an other object', bv(t is not d and (not copy or r.value.cls is cls)))
        c.prove('same keys', z3.Select(t.has, kt) == z3.Select(H0, kt))
        c.prove('same values', z3.Implies(z3.Select(H0, kt), z3.Select(t.val, kt) == z3.Select(V0, kt)))
        c.prove('the source stays', z3.And(z3.Select(d.has, kt) == z3.Select(H0, kt), z3.Implies(z3.Select(H0, kt), z3.Select(d.val, kt) == z3.Select(V0, kt))))

    @proof(prefix + 'creating from a plain dictionary')
    def _(c):
        K.setup(c)
        c.ghost['new_base'] = blank(K)
        kt = c.fresh('key', K.sort)
        o = inst(c, cls, base=blank(K)(c, cls))
        src = source(c, 'dict'); H0, V0, O0 = src.has, src.val, src.order
        if K.sort == SEQ:
            # keys may collide after folding: the same as extending the empty dictionary
            given = []
            use(c, cls.extend, lambda ctx, o_, m: given.append((o_, m)))
            if c.choose(2): src = inst(c, MultiValueDictionary, base=state(c, PK, 'other'))
            r = attempt(c, cls.__init__, o, src)
            no_raise(c, r)
            if given: c.prove('extends itself with the dictionary, once', bv(len(given) == 1 and given[0][0] is o and given[0][1] is src)); return
            c.prove('nothing to add', z3.Length(src.order if isinstance(src, LDict) else src.base.order) == 0)
            return
        c.fact(z3.Select(H0, kt) == z3.Contains(O0, z3.Unit(kt)))
        SEEN = z3.Function('seen', I, B)
        c.fact(z3.Not(SEEN(z3.IntVal(0)))); c.fact(SEEN(z3.Length(O0)) == z3.Select(H0, kt))
        def step(L): L.ctx.fact(SEEN(L._i) == z3.Or(SEEN(L._i - 1), O0[L._i - 1] == kt))
        def inv(L):
            t = o.base
            return {'range': z3.And(L._i >= 0, L._i <= L._n), 'keys so far': z3.Select(t.has, kt) == SEEN(L._i), 'their values': z3.Implies(z3.Select(t.has, kt), z3.Select(t.val, kt) == z3.Unit(z3.Select(V0, kt)))}
        loop(c, cls.__init__.__qualname__, 1, Loop(inv=inv, on_step=step))
        r = attempt(c, cls.__init__, o, src)
        no_raise(c, r)
        nodup_lemmas(c, z3.Empty(SEQO), z3.Select(V0, kt))
        c.prove('same keys', z3.Select(o.base.has, kt) == z3.Select(H0, kt))
        c.prove('each with its one value', z3.Implies(z3.Select(H0, kt), z3.Select(o.base.val, kt) == z3.Unit(z3.Select(V0, kt))))
        c.prove('value lists are non-empty and without duplicates', wf(c, o.base, kt))

    @proof(prefix + 'popitem takes one value of one key')
    def _(c):
        K.setup(c)
        o = mvd(c, K); d = o.base
        H0, V0, O0 = d.has, d.val, d.order
        other = c.fresh('other_key', K.sort)
        order_facts(c, d, other)
        n0 = z3.Length(O0)
        last = O0[n0 - 1]
        c.assume(z3.Implies(n0 > 0, wf(c, d, last)))
        L = z3.Select(V0, last); nodup_lemmas(c, L)
        r = attempt(c, cls.popitem, o)
        only_raises(c, r, KeyError)
        if r.raised: c.prove('only when empty', n0 == 0); return
        c.prove('a pair', bv(isinstance(r.value, tuple) and len(r.value) == 2))
        k, v = r.value
        kt = K.codec.enc(c, k)
        h = z3.Select(H0, kt); L = z3.Select(V0, kt)
        c.prove('a key it had', h)
        c.prove('one of its values', z3.Contains(L, z3.Unit(v.t)))
        c.prove('the key stays exactly when it had more', z3.Select(d.has, kt) == (z3.Length(L) > 1))
        L1 = z3.Select(d.val, kt); rest = z3.Extract(L, z3.IntVal(1), z3.Length(L) - 1)
        c.prove('the other values stay, in order', z3.Implies(z3.Length(L) > 1, z3.And(v.t == L[0], L1 == rest)))
        c.prove('no other key is touched', z3.Implies(other != kt, z3.And(z3.Select(d.has, other) == z3.Select(H0, other), z3.Select(d.val, other) == z3.Select(V0, other))))
        c.prove('iteration order lists exactly the keys', z3.Implies(other != kt, z3.Contains(d.order, z3.Unit(other)) == z3.Select(H0, other)))

    @proof(prefix + 'equality and inequality')
    def _(c):
        K.setup(c)
        a = mvd(c, K, 'a'); ne = c.choose(2) == 1
        kind = c.choose(4)
        same_kind = None
        if kind == 0: other = mvd(c, K, 'b'); same_kind = other.base
        elif kind == 1: other = Opaque(c.fresh('other', OBJ), PAIRS); other.extra['n'] = c.fresh('n', I); c.assume(other.extra['n'] >= 0)
        elif kind == 2: other = source(c, 'dict')
        else: other = Opaque(c.fresh('other', OBJ), OTHERS)
        made = []
        def create(ctx, o_, it=None):
            ctx.prove('the other one is read', bv(it is other))
            k = ctx.choose(3)
            if k == 1: ctx.it.raise_(ValueError, 'no pair')
            if k == 2: ctx.it.raise_(TypeError, 'unhashable')
            o_.base = state(ctx, K, 'b'); made.append(o_.base)
        if kind: use(c, cls.__init__, create)
        use(c, is_iterable, lambda ctx, x: kind < 3)
        r = attempt(c, cls.__ne__ if ne else cls.__eq__, a, other)
        no_raise(c, r)
        b = same_kind if same_kind is not None else (made[0] if made else None)
        if b is None: c.prove('not comparable', bv(r.value is NotImplemented)); return
        k = z3.Const('k', K.sort)
        same = z3.And(a.base.has == b.has, z3.ForAll([k], z3.Implies(z3.Select(b.has, k), z3.Select(a.base.val, k) == z3.Select(b.val, k))))
        c.prove('decided', bv(r.value is not NotImplemented))
        c.prove('equal exactly when every key has the same values', as_term(r.value) == (z3.Not(same) if ne else same))

    class OthersI(Iface): name = 'any other object'; types = (object,)
    OTHERS = OthersI()

    @proof(prefix + 'as keyword arguments: the last value of every key')
    def _(c):
        K.setup(c)
        o = mvd(c, K); d = o.base
        H0, V0, O0 = d.has, d.val, d.order
        kt = c.fresh('key', K.sort)
        order_facts(c, d, kt)
        SEEN = z3.Function('seen', I, B)
        c.fact(z3.Not(SEEN(z3.IntVal(0)))); c.fact(SEEN(z3.Length(O0)) == z3.Select(H0, kt))
        def sym(ctx, x):
            x.items = None; x.kcodec = K.codec; x.vcodec = VC
            x.has = z3.K(K.sort, z3.BoolVal(False)); x.val = ctx.fresh('kw', z3.ArraySort(K.sort, OBJ))
        i = z3.Int('i')
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z3.Length(O0)), z3.Length(z3.Select(V0, O0[i])) >= 1), patterns=[z3.Select(V0, O0[i])]))
        def step(L): L.ctx.fact(SEEN(L._i) == z3.Or(SEEN(L._i - 1), O0[L._i - 1] == kt))
        def inv(L):
            x = L.result; l = z3.Select(V0, kt)
            if x.concrete: return {'starts empty': bv(not x.items)}
            return {'range': z3.And(L._i >= 0, L._i <= L._n), 'keys so far': z3.Select(x.has, kt) == SEEN(L._i), 'last values': z3.Implies(z3.Select(x.has, kt), z3.Select(x.val, kt) == l[z3.Length(l) - 1])}
        loop(c, MultiValueDictionary.kwargs.__qualname__, 0, Loop(inv=inv, on_step=step, shapes={'dict': sym}))
        r = attempt(c, cls.kwargs, o); no_raise(c, r)
        x = r.value; l = z3.Select(V0, kt)
        c.prove('the same keys', z3.Select(x.has, kt) == z3.Select(H0, kt))
        c.prove('each with its last value', z3.Implies(z3.Select(H0, kt), z3.Select(x.val, kt) == l[z3.Length(l) - 1]))
        c.prove('the dictionary stays', z3.And(d.has == H0, d.val == V0, d.order == O0))

    @proof(prefix + 'items and values: membership')
    def _(c):
        s = Op(c, K); v = value(c)
        items = c.choose(2) == 1
        view = attempt(c, cls.items if items else cls.values, s.o); no_raise(c, view)
        view = view.value
        if items:
            kind = c.choose(3)
            given = (s.key, v) if kind == 0 else ((s.key, v, v) if kind == 1 else (Opaque(c.fresh('thing', OBJ), OTHERS)))
            try: r = models.contains(c.it, view, given)
            except PyExc as e: no_raise(c, Outcome(exc=e.value))
            c.prove('in exactly when the key has the value', as_term(r) == (z3.And(s.h, z3.Contains(s.L, z3.Unit(v.t))) if kind == 0 else z3.BoolVal(False)))
            s.unchanged(); return
        j = z3.Int('j'); u = z3.Unit(v.t)
        at = lambda i: z3.Contains(z3.Select(s.V0, s.O0[i]), u)
        HASV = z3.Function('some_of_the_first_has_it', I, B)
        c.fact(z3.Not(HASV(z3.IntVal(0))))
        n = z3.Length(s.O0)
        def inv(L): return {'none before': z3.Not(HASV(L._i)), 'range': z3.And(L._i >= 0, L._i <= L._n), 'all keys': L._n == n}
        def step(L): L.ctx.fact(HASV(L._i) == z3.Or(HASV(L._i - 1), at(L._i - 1)))
        c.ghost['step'] = step
        loop(c, _MultiValueDictionaryValueIterator.__contains__.__qualname__, 0, Loop(inv=inv, on_step=step))
        try: r = models.contains(c.it, view, v)
        except PyExc as e: no_raise(c, Outcome(exc=e.value))
        if c.it.truth(r): c.prove('some key has it', z3.Exists([j], z3.And(0 <= j, j < n, at(j))))
        else: c.prove('no key has it', z3.Not(HASV(n)))
        s.unchanged()

    @proof(prefix + 'items and values: iteration and length')
    def _(c):
        K.setup(c)
        o = mvd(c, K); d = o.base
        H0, V0, O0 = d.has, d.val, d.order
        n = z3.Length(O0)
        items = c.choose(2) == 1
        SEQI = z3.SeqSort(ITEM.sort) if items else SEQO
        ALL = z3.Function('flattened_' + ('items' if items else 'values'), I, SEQI)        # of the first i keys
        ONE = z3.Function('pairs_of', K.sort, SEQO, SEQI) if items else (lambda k, l: l)
        mk = (lambda k, v: z3.Unit(ITEM.sort.constructor(0)(k, v))) if items else (lambda k, v: z3.Unit(v))
        c.fact(ALL(z3.IntVal(0)) == z3.Empty(SEQI))
        def step_all(ctx, i):
            k = O0[i]; l = z3.Select(V0, k)
            ctx.fact(z3.Implies(z3.And(0 <= i, i < n), ALL(i + 1) == z3.Concat(ALL(i), ONE(k, l))))
            ctx.fact(z3.Length(ONE(k, l)) == z3.Length(l))
        def step_one(ctx, k, l, j):
            if not items: ctx.fact(z3.Implies(z3.And(0 <= j, j < z3.Length(l)), z3.Extract(l, z3.IntVal(0), j + 1) == z3.Concat(z3.Extract(l, z3.IntVal(0), j), z3.Unit(l[j])))); return
            ctx.fact(ONE(k, z3.Extract(l, z3.IntVal(0), z3.IntVal(0))) == z3.Empty(SEQI))
            ctx.fact(z3.Implies(z3.And(0 <= j, j < z3.Length(l)), ONE(k, z3.Extract(l, z3.IntVal(0), j + 1)) == z3.Concat(ONE(k, z3.Extract(l, z3.IntVal(0), j)), mk(k, l[j]))))
        view = attempt(c, cls.items if items else cls.values, o); no_raise(c, view)
        V = _MultiValueDictionaryItemIterator if items else _MultiValueDictionaryValueIterator
        if c.choose(2):
            def inv(L): return {'counted': L.t('length') == z3.Length(ALL(L._i)), 'range': z3.And(L._i >= 0, L._i <= L._n)}
            def step(L): step_all(L.ctx, L._i - 1)
            loop(c, V.__len__.__qualname__, 0, Loop(inv=inv, on_step=step))
            r = attempt(c, V.__len__, view.value); no_raise(c, r)
            c.prove('as many as it iterates over', iterm(r.value) == z3.Length(ALL(n)))
            return
        out = [z3.Empty(SEQI)]
        def handler(ctx, v):
            if items:
                if not (isinstance(v, tuple) and len(v) == 2): ctx.prove('pairs', z3.BoolVal(False)); raise PathEnd
                out[0] = z3.Concat(out[0], mk(K.codec.enc(ctx, v[0]), v[1].t))
            else: out[0] = z3.Concat(out[0], z3.Unit(v.t))
        def bulk(ctx, l): out[0] = z3.Concat(out[0], l.as_term(VC))
        handler.bulk = bulk
        pos = [None]
        def entry(L): return {}
        def havoc_outer(L): out[0] = L.ctx.fresh('yielded', SEQI)
        def inv_outer(L):
            pos[0] = L._i
            if not items: pass
            return {'yielded so far': out[0] == ALL(L._i), 'range': z3.And(L._i >= 0, L._i <= L._n)}
        def step_outer(L):
            i = L._i - 1; k = O0[i]; l = z3.Select(V0, k)
            step_all(L.ctx, i); L.ctx.fact(z3.Extract(l, z3.IntVal(0), z3.Length(l)) == l)
        def inv_inner(L):
            i = pos[0]; k = O0[i]; l = z3.Select(V0, k)
            step_one(L.ctx, k, l, L._i)
            return {'yielded so far': out[0] == z3.Concat(ALL(i), ONE(k, z3.Extract(l, z3.IntVal(0), L._i))), 'range': z3.And(L._i >= 0, L._i <= L._n), 'all of them': L._n == z3.Length(l)}
        def step_inner(L):
            i = pos[0]; k = O0[i]; l = z3.Select(V0, k)
            step_one(L.ctx, k, l, L._i - 1)
        q = V.__iter__.__qualname__
        loop(c, q, 0, Loop(inv=inv_outer, havoc=havoc_outer, on_step=step_outer))
        loop(c, q, 1, Loop(inv=inv_inner, havoc=havoc_outer, on_step=step_inner))
        c.yield_stack.append(handler)
        g = c.it.call(V.__iter__, [view.value], {})
        try: c.it.run_gen(g)
        except PyExc as e: no_raise(c, Outcome(exc=e.value))
        c.prove('all of them, in order', out[0] == ALL(n))
        k2 = c.fresh('k', K.sort)
        c.prove('the dictionary stays', z3.And(d.has == H0, d.val == V0, d.order == O0))
    ITEM = TupleC([K.codec, VC])

LOOPS = {MultiValueDictionary: 2, IgnoreCaseMultiValueDictionary: 1}
def as_term(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    return v.t if isinstance(v, SBool) else v
PK = PlainKeys(); FK = FoldKeys()


# ---------------------------------------------------------------- bounded native search: histories against a model

OPS = ['set', 'set', 'set', 'set', 'del', 'get', 'item', 'all', 'one', 'setdefault', 'pop', 'pop_one', 'pop_all', 'popitem', 'extend', 'copy', 'init', 'eq', 'kwargs', 'in', 'fail', 'copies', 'mutate_result', 'clear', 'views', 'extend_mvd', 'removed']

def gen_history(rng, keys, maxn=10):
    ks = lambda: rng.choice(keys)
    vs = rng.choice([[0, 1, 2, 3], [0, None, '', 3], [1, 2, 3, 4]])
    pairs = lambda n: [[ks(), rng.choice(vs)] for _ in range(rng.randint(0, n))]
    return [pairs(5), [[rng.choice(OPS), ks(), rng.choice(vs), pairs(4), rng.random() < .5] for _ in range(rng.randint(1, maxn))]]

def run_history(cls, case, norm, revkey=lambda k: k):
    init, ops = case
    init = [tuple(p) for p in init]
    model = {}
    def add(m, k, v):
        l = m.setdefault(norm(k), [])
        if v not in l: l.append(v)
    for k, v in init: add(model, k, v)
    d = cls(init)
    live = []           # (dictionary, frozen model) which must not change any more
    lists = []
    def check(x, m, what):
        if {norm(k): list(v) for k, v in dict.items(x)} != m: return f'{what}: holds {dict.items(x)}, expected {m}'
        if any(not v or len(set(v)) != len(v) for v in dict.values(x)): return f'{what}: bad value lists {dict.items(x)}'
        if [norm(k) for k in x] != list(m) or len(x) != len(m): return f'{what}: keys {list(x)}, expected {list(m)}'
        flat = [(k, v) for k, l in m.items() for v in l]
        if [(norm(k), v) for k, v in x.items()] != flat or len(x.items()) != len(flat): return f'{what}: items {list(x.items())}, expected {flat}'
        if list(x.values()) != [v for k, v in flat] or len(x.values()) != len(flat): return f'{what}: values {list(x.values())}'
        for k in case_keys:
            l = m.get(norm(k))
            if (k in x) != (l is not None): return f'{what}: {k!r} in it is {k in x}'
            if x.get_all(k) != l: return f'{what}: get_all({k!r}) gives {x.get_all(k)}, expected {l}'
            if x.get(k, 'no') != (l[0] if l else 'no') or x.get_one(k, 'no') != (l[0] if l else 'no'): return f'{what}: get({k!r}) gives {x.get(k)}'
            for v in (0, 1, 2, 3, None, ''):
                if ((k, v) in x.items()) != (l is not None and v in l): return f'{what}: ({k!r}, {v}) in items gives {(k, v) in x.items()}'
        for v in (0, 1, 2, 3, None, ''):
            if (v in x.values()) != any(v in l for l in m.values()): return f'{what}: {v} in values gives {v in x.values()}'
        return None
    case_keys = sorted({k for k, _ in init} | {o[1] for o in ops} | {k for o in ops for k, _ in o[3]})
    case_keys = list(dict.fromkeys(x for k in case_keys for x in (k, revkey(k))))
    e = check(d, model, f'created from {init}')
    if e: return e
    for op, k, v, prs, flag in ops:
        prs = [tuple(p) for p in prs]
        nk = norm(k); l = model.get(nk)
        what = f'{op}({k!r}, {v}, {prs}, {flag}) on {dict(dict.items(d))}'
        before = {a: list(b) for a, b in model.items()}
        if op == 'set': d[k] = v; add(model, k, v)
        elif op == 'del':
            try: del d[k]; r = True
            except KeyError: r = False
            if r != (l is not None): return f'{what}: removed: {r}'
            if l: 
                l.pop(0)
                if not l: del model[nk]
        elif op in ('get', 'item', 'one'):
            try: r = d[k] if op == 'item' else (d.get(k) if flag else d.get_one(k, None))
            except KeyError: r = 'KeyError'
            want = l[0] if l else ('KeyError' if op == 'item' else None)
            if r != want: return f'{what} gives {r!r}, expected {want!r}'
        elif op == 'all':
            r = d.get_all(k)
            if r != l: return f'{what} gives {r}'
            if r is not None: lists.append((r, list(r)))
        elif op == 'mutate_result':
            r = d.get_all(k)
            if r is not None: r.append(9); r.reverse()
            r = list(prs)
            x = cls(r); r.clear()
            y = d.copy(); y[k] = 9
            if l is not None:
                y.pop_all(k)
        elif op == 'setdefault':
            r = d.setdefault(k, v)
            if r != (l[0] if l else v): return f'{what} gives {r}'
            if not l: model[nk] = [v]
        elif op in ('pop', 'pop_one', 'pop_all'):
            f = getattr(d, op)
            try: r = f(k, 'no') if flag else f(k)
            except KeyError: r = 'KeyError'
            want = ('no' if flag else 'KeyError') if l is None else (list(l) if op == 'pop_all' else l[0])
            if r != want: return f'{what} gives {r!r}, expected {want!r}'
            if l is not None:
                if op == 'pop_all': del model[nk]; lists.append((r, list(r)))
                else:
                    l.pop(0)
                    if not l: del model[nk]
        elif op == 'popitem':
            try: r = d.popitem()
            except KeyError: r = None
            if (r is None) != (not model): return f'{what} gives {r}'
            if r is not None:
                rk = norm(r[0])
                if rk not in model or r[1] not in model[rk]: return f'{what} gives {r}'
                model[rk].remove(r[1])
                if not model[rk]: del model[rk]
                elif list(model)[-1] != rk or True:
                    # a key whose other values are put back may move to the end
                    x = model.pop(rk); model[rk] = x
        elif op == 'extend':
            src = dict(prs) if flag else cls(prs)
            d.extend(src)
            for a, b in src.items(): add(model, a, b)
        elif op == 'extend_mvd':
            src = MultiValueDictionary(prs)
            d.extend(src)
            for a, b in src.items(): add(model, a, b)
        elif op in ('copy', 'copies'):
            import copy, pickle
            c = d.copy() if op == 'copy' else [copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), cls][len(prs) % 4](d)
            if type(c) is not cls or c != d or not (c == d): return f'{what}: the copy is {c!r}'
            e = check(c, model, f'{what}: copy')
            if e: return e
            live.append((d if flag else c, {a: list(b) for a, b in model.items()}))
            if flag: d = c
        elif op == 'init':
            for src in (prs, dict(prs), MultiValueDictionary(prs), iter(prs), cls(prs), tuple(prs), None, [], {}):
                m = {}
                pp = prs if not isinstance(src, dict) else list(src.items())
                if src: 
                    for a, b in pp: add(m, a, b)
                keep = [(x, list(y)) for x, y in dict.items(src)] if isinstance(src, MultiValueDictionary) else None
                x = cls(src)
                e = check(x, m, f'created from {src!r}')
                if e: return e
                x[k] = 8
                for a in list(x): x[a] = 7
                if keep is not None and keep != [(x, list(y)) for x, y in dict.items(src)]: return f'created from {src!r}: shares value lists with it'
        elif op == 'eq':
            m = {}
            for a, b in prs: add(m, a, b)
            for o in (cls(prs), prs):
                if (d == o) != (m == model) or (d != o) != (m != model): return f'{what}: equals {o!r}: {d == o}, differs: {d != o}'
            same = [(a, b) for a, bs in model.items() for b in bs]
            if not (d == same) or d != same or not (d == cls(same)): return f'{what}: does not equal its own items'
            for o in (3, None, object(), [1], 'ab'):
                if d == o and not (o == [] and not model): return f'{what}: equals {o!r}'
                if not (d != o): return f'{what}: not different from {o!r}'
        elif op == 'kwargs':
            r = d.kwargs()
            if {norm(a): b for a, b in r.items()} != {a: b[-1] for a, b in model.items()}: return f'{what} gives {r}'
        elif op == 'in':
            if (k in d) != (l is not None): return f'{what} gives {k in d}'
            for thing in ([k, v], (k,), (k, v, v), k, None):
                if thing in d.items(): return f'{what}: {thing!r} in items'
        elif op == 'fail':
            for bad in ([(k, v), (k,)], [[k, v]], [k], [(k, v, v)]):
                try: cls(bad)
                except ValueError: pass
                else: return f'{what}: created from {bad}'
        elif op == 'clear':
            if not v: d.clear(); model.clear()
        elif op == 'views':
            vs = d.values()
            lst = list(vs)
            if not (vs == lst) or not (vs == lst[::-1]) or vs == lst + [5]: return f'{what}: values == its list gives {vs == lst}'
            if not (d.items() == list(d.items())) : return f'{what}: items do not equal their list'
        elif op == 'removed':
            for n in ('update', '__or__', '__ror__', '__ior__'):
                try: getattr(d, n)
                except AttributeError: pass
                else: return f'{what}: {n} is available: it stores bare values'
        e = check(d, model, what)
        if e: return e
        for x, m in live:
            if {norm(a): b for a, b in dict.items(x)} != m: return f'{what}: changed a copy: {dict.items(x)}, expected {m}'
        for x, y in lists:
            if x != y: return f'{what}: changed a list given out before: {x}, was {y}'
    return None

def shrink_history(case):
    init, ops = case
    for k in range(len(ops)): yield [init, ops[:k] + ops[k + 1:]]
    for k in range(len(init)): yield [init[:k] + init[k + 1:], ops]
    for k, o in enumerate(ops):
        for j in range(len(o[3])): yield [init, ops[:k] + [[o[0], o[1], o[2], o[3][:j] + o[3][j + 1:], o[4]]] + ops[k + 1:]]
