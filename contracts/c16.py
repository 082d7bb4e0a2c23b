"""C16: URL query text and query map are inverse."""
from pv.lib import *
from pv.models import flat_term
import math
import scarletio.web_common.url.url_query as UQ
from scarletio.web_common import quoting
from scarletio.utils import MultiValueDictionary
from scarletio.web_common import URL

PROOFS, proof = proof_registry()
TRUSTED = ['quote / unquote: the contracts proved for C04 (in query mode the output holds no "&", and no "=" unless that is safe; unquoting it, plus signs read as spaces, gives the text back)',
    'setting an item of a multi-value dictionary adds the value behind the others of its key unless it is there (C01); sorted() lists every key once; str of a number is a function of it']
DESIGN = '''Parsing: the loop keeps "pairs so far ++ pairs of the rest == all pairs" with the pairs of a text described recursively (up to the next "&",
split at the first "="), for every text, decoded or not. Writing: nested loop invariants relate the text written to the keys and their values in
order. Normalising: per kind of value, loops over mappings and lists. Round trip: induction over the items with the C04 contracts.'''

SEQ2 = z3.SeqSort(SEQ)
E2 = z3.Empty(SEQ2)
REPL = z3.Function('seq_replace_all', SEQ, SEQ, SEQ, SEQ)
UNQ = z3.Function('unquoted', SEQ, SEQ)
QUO = z3.Function('quoted', SEQ, SEQ, SEQ)
POS = z3.Function('first_position', SEQ, I, I, I, I)      # of a character in [a, b), or -1
def pos_facts(c, s, ch, a, b, *at):
    r = POS(s, ch, a, b)
    c.fact(z3.Implies(z3.And(0 <= a, a <= b, b <= ln(s)), z3.Or(r == -1, z3.And(a <= r, r < b, s[r] == ch))))
    for k in at: c.fact(z3.Implies(z3.And(a <= k, k < b, s[k] == ch), z3.And(r != -1, r <= k)))
    return r
def h_find(ctx, t, sub, a, b):
    sub = z3.simplify(sub)
    if not (z3.is_app_of(sub, z3.Z3_OP_SEQ_UNIT) and z3.is_int_value(sub.arg(0))): return None
    if ctx.x.valid(ctx.pc, z3.And(0 <= a, a <= b, b <= ln(t)))[0] != 'proved': return None
    return pos_facts(ctx, t, sub.arg(0), a, b)

PQ = {e: z3.Function(f'pairs_{e}', SEQ, I, SEQ2) for e in (False, True)}
def dec(e, t): return UNQ(REPL(t, lit('+'), lit(' '))) if e else t
AMP = z3.IntVal(38); EQ = z3.IntVal(61)
def item_end(c, s, i):
    n = ln(s); r = pos_facts(c, s, AMP, i, n)
    return z3.If(r == -1, n, r)
def unfold(c, e, s, i):
    n = ln(s); q = item_end(c, s, i)
    m = pos_facts(c, s, EQ, i, q)
    k = z3.If(m == -1, sub(s, i, q - i), sub(s, i, m - i))
    v = z3.If(m == -1, z3.Empty(SEQ), sub(s, m + 1, q - m - 1))
    c.fact(z3.Implies(i >= n, PQ[e](s, i) == E2))
    c.fact(z3.Implies(z3.And(0 <= i, i < n), PQ[e](s, i) == z3.If(q == i, PQ[e](s, q + 1), cat(z3.Unit(dec(e, k)), z3.Unit(dec(e, v)), PQ[e](s, q + 1)))))
    if e: c.fact(z3.And(dec(e, z3.Empty(SEQ)) == z3.Empty(SEQ), UNQ(z3.Empty(SEQ)) == z3.Empty(SEQ)))

class MapI(Iface):
    name = 'map'
    types = (MultiValueDictionary, dict)
    def setitem(self, ctx, o, k, v):
        ctx.ghost['pairs'] = cat(ctx.ghost['pairs'], z3.Unit(sterm(k)), z3.Unit(sterm(v)))
    def truthy(self, ctx, o): return ln(ctx.ghost['pairs']) > 0
MAP = MapI()
def new_map(ctx):
    ctx.prove('a new map only when there is none', bv(ctx.ghost.get('map') is None))
    ctx.ghost['map'] = Opaque(ctx.fresh('map', OBJ), MAP)
    return ctx.ghost['map']
def maps(c):
    c.ghost['pairs'] = E2
    use(c, MultiValueDictionary, new_map)
def unq_contract(ctx, v, unsafe=None, query_string=False):
    ctx.prove('unquoted as a whole, outside of query mode', bv(unsafe is None and query_string is False))
    if v is None: return None
    return SSeq(UNQ(sterm(v)), 'str')

@proof('parsing a query reads exactly its items, for every text')
def _(c):
    enc = bool(c.choose(2))
    maps(c); c.ghost['find'] = h_find
    use(c, quoting.unquote, unq_contract)
    r = attempt(c, UQ.parse_query, None, enc); no_raise(c, r); c.prove('no text, no map', bv(r.value is None))
    st = c.str('query'); s = st.t; n = ln(s)
    def hav(L):
        L.ctx.ghost['pairs'] = L.ctx.fresh('pairs', SEQ2); L.ctx.ghost['phase'] = 'head'
    def shape(ctx):
        ctx.ghost['map'] = Opaque(ctx.fresh('map', OBJ), MAP) if ctx.choose(2) else None
        return ctx.ghost['map']
    def inv(L):
        i = L.t('item_end_index'); g = L.ctx.ghost
        # the description is unfolded where the step or the loop ends (at the position it started from), so that path conditions stay small
        if isinstance(g.get('phase'), str): g['phase'] = i
        elif g.get('phase') is not None: unfold(L.ctx, enc, s, g['phase'])
        r = {'bounds': i >= 0, 'all items': cat(g['pairs'], PQ[enc](s, i)) == PQ[enc](s, z3.IntVal(0)), 'the map': bv(L.query is g.get('map'))}
        if L.query is None: r['nothing without a map'] = g['pairs'] == E2
        else: r['something in the map'] = ln(g['pairs']) > 0
        return r
    loop(c, 'parse_query', None, Loop(inv=inv, havoc=hav, dec=lambda L: n + 1 - L.t('item_end_index'), shapes={'query': shape}))
    r = attempt(c, UQ.parse_query, st, enc)
    no_raise(c, r)
    want = PQ[enc](s, z3.IntVal(0))
    if c.ghost.get('phase') is not None: unfold(c, enc, s, c.ghost['phase'])
    if r.value is None: c.prove('no items, no map', want == E2)
    else: c.prove('every item', z3.And(bv(r.value is c.ghost['map']), c.ghost['pairs'] == want))

# ---- writing
VALS = z3.Function('values_of', SEQ, SEQ2)
W = {e: z3.Function(f'text_{e}', SEQ2, I, I, SEQ) for e in (False, True)}     # keys; keys written; values of the next one written
def norm_safe(safe, protected): return ''.join(sorted(set((safe or '') + (protected or '')) - set(C04_ALLOWED)))
C04_ALLOWED = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$\'()*,;'
KEY_SAFE = norm_safe('/?:@', None); VALUE_SAFE = norm_safe('/?:@=', None)
def quo_contract(ctx, v, safe=None, protected=None, query_string=False):
    ctx.prove('quoted as part of a query', bv(query_string is True and all(x is None or isinstance(x, str) for x in (safe, protected))))
    return SSeq(QUO(lit(norm_safe(safe, protected)), sterm(v)), 'str')
def ek(e, t): return QUO(lit(KEY_SAFE), t) if e else t
def ev(e, t): return QUO(lit(VALUE_SAFE), t) if e else t

class KeysI(Iface):
    name = 'keys'
    def sorted_(self, ctx, o, **kw):
        return LList(ctx, seq=o.extra['keys'], codec=StrC)
KEYS = KeysI()
class QueryI(Iface):
    name = 'query'
    types = (MultiValueDictionary, dict)
    def m_keys(self, ctx, o):
        r = Opaque(ctx.fresh('keys', OBJ), KEYS); r.extra['keys'] = o.extra['keys']; return r
    def m_get_all(self, ctx, o, k, default=None): return LList(ctx, seq=VALS(sterm(k)), codec=StrC)
    def truth(self, ctx, o): return ln(o.extra['keys']) > 0
    def truthy(self, ctx, o): return ln(o.extra['keys']) > 0
    def len_(self, ctx, o): return SInt(ln(o.extra['keys']))
QUERY = QueryI()

@proof('writing a query lists the keys in order, each with all its values in order', budget=200)
def _(c):
    enc = bool(c.choose(2))
    use(c, quoting.quote, quo_contract)
    r = attempt(c, UQ.serialize_query, None, enc); no_raise(c, r); c.prove('no map, no text', bv(r.value is None))
    q = Opaque(c.fresh('query', OBJ), QUERY); ks = q.extra['keys'] = c.fresh('keys', SEQ2)
    w = W[enc]
    def unf(ctx, j, m):
        k = ks[j]; vs = VALS(k)
        ctx.fact(w(ks, z3.IntVal(0), z3.IntVal(0)) == z3.Empty(SEQ))
        ctx.fact(z3.Implies(z3.And(0 <= j, j < ln(ks)), z3.And(ln(vs) > 0, w(ks, j + 1, z3.IntVal(0)) == w(ks, j, ln(vs)))))
        if m is not None:
            ctx.fact(z3.Implies(z3.And(0 <= m, m < ln(vs)), w(ks, j, m + 1) == cat(w(ks, j, m), z3.If(z3.And(j == 0, m == 0), z3.Empty(SEQ), lit('&')), ek(enc, k), lit('='), ev(enc, vs[m]))))
    def text(L):
        t = L.query_string_parts.as_term(StrC)
        return t, flat_term(L.ctx, t)
    def inv(L):
        ctx = L.ctx; t, f = text(L); j = L.t('_i')
        unf(ctx, j, None); ctx.ghost['outer'] = j
        return {'written': f == w(ks, j, z3.IntVal(0)), 'nothing only at the start': (ln(t) == 0) == (j == 0)}
    loop(c, 'serialize_query', 0, Loop(inv=inv, dec=lambda L: ln(ks) - L.t('_i'), lists={'query_string_parts': StrC}))
    def inv2(L):
        ctx = L.ctx; t, f = text(L); m = L.t('_i'); j = ctx.ghost['outer']
        unf(ctx, j, m)
        return {'written': f == w(ks, j, m), 'nothing only at the start': (ln(t) == 0) == z3.And(j == 0, m == 0)}
    loop(c, 'serialize_query', 1, Loop(inv=inv2, dec=lambda L: ln(VALS(ks[L.ctx.ghost['outer']])) - L.t('_i'), lists={'query_string_parts': StrC}))
    r = attempt(c, UQ.serialize_query, q, enc)
    no_raise(c, r)
    if r.value is None: c.prove('nothing to write', ln(ks) == 0); return
    c.prove('not for an empty map', ln(ks) > 0)
    c.prove('all keys and values', sterm(r.value) == w(ks, ln(ks), z3.IntVal(0)))

# ---- normalising
def start_map(c):
    """a map with something in it, or none yet"""
    maps(c)
    if c.choose(2):
        c.ghost['pairs'] = c.fresh('before', SEQ2); c.assume(ln(c.ghost['pairs']) > 0)
        c.ghost['map'] = Opaque(c.fresh('map', OBJ), MAP)
        return c.ghost['map']
    return None
def same_map(c, v):
    g = c.ghost
    if v is None: return g['pairs'] == E2
    return z3.And(bv(v is g.get('map')), ln(g['pairs']) > 0)

class DateTimeI(Iface):
    name = 'datetime'; types = (UQ.DateTime,)
    def m_isoformat(self, ctx, o): return o.extra['text']
class OtherI(AnyI):
    name = 'other'; types = (); typed = True
DATETIME = DateTimeI(); OTHER = OtherI()

@proof('a query value is written as its kind asks for')
def _(c):
    m = start_map(c); before = c.ghost['pairs']
    k = c.str('key'); kind = c.choose(9)
    bad = None; nested = None
    if kind == 0: v = c.str('value'); want = v.t
    elif kind == 1: v = c.bool('value'); want = z3.If(v.t, lit('true'), lit('false'))
    elif kind == 2: v = c.int('value'); want = models.int_str(c.it, v.t)
    elif kind == 3: v = None; want = lit('null')
    elif kind == 4:
        v = Opaque(c.fresh('date', OBJ), DATETIME); v.extra['text'] = c.str('iso'); want = v.extra['text'].t
    elif kind == 5: v = (1.5, -0.0, 1e300)[c.choose(3)]; want = lit(str(v))
    elif kind == 6: v = (math.inf, -math.inf, math.nan)[c.choose(3)]; bad = ValueError
    elif kind == 7: v = (b'x', {}, object)[c.choose(3)]; bad = TypeError
    else:
        items = c.fresh('items', z3.SeqSort(OBJ)); v = LList(c, seq=items, codec=ObjC(OTHER))
        nested = Opaque(c.fresh('map', OBJ), MAP)
        def h(ctx, nq, kk, vs):
            ctx.prove('the list of this name goes to the same map', bv(nq is m and kk is k and vs is v))
            return nested
        use(c, UQ._normalize_query_item_list, h)
    r = attempt(c, UQ._normalize_query_item, m, k, v)
    if bad is not None:
        c.prove('refused', bv(r.is_a(bad))); return
    no_raise(c, r)
    if nested is not None: c.prove('as its elements', bv(r.value is nested)); return
    c.prove('the pair behind the others', c.ghost['pairs'] == z3.If(z3.And(ln(k.t) == 0, ln(want) == 0), before, cat(before, z3.Unit(k.t), z3.Unit(want))))
    c.prove('the map', same_map(c, r.value))

NP = z3.Function('pairs_of_item', SEQ, OBJ, SEQ2)
NPS = z3.Function('pairs_of_items', z3.SeqSort(OBJ), I, SEQ2)     # of the first n items (with their own names or the given one)
KEYOF = z3.Function('name_of_item', OBJ, SEQ); VALOF = z3.Function('value_of_item', OBJ, OBJ)
class PairI(AnyI):
    name = 'pair'
    def unpack(self, ctx, o, n):
        if n != 2: ctx.it.raise_(ValueError)
        return [SSeq(KEYOF(o.t), 'str'), Opaque(VALOF(o.t), OTHER)]
    def symiter(self, ctx, o): raise Unsupported('pair')
    def getitem(self, ctx, o, k):
        return self.unpack(ctx, o, 2)[k]
PAIR = PairI()
class MappingI(Iface):
    name = 'mapping'; types = (dict,)
    def m_items(self, ctx, o): return LList(ctx, seq=o.extra['items'], codec=ObjC(PAIR))

def item_contract(c):
    """proved above (scalars) and below (lists), by induction over the nesting"""
    def h(ctx, nq, k, v):
        ctx.prove('goes on with the same map', same_map(ctx, nq))
        np = NP(sterm(k), v.t)
        ctx.ghost['pairs'] = cat(ctx.ghost['pairs'], np)
        if ctx.branch(ln(ctx.ghost['pairs']) > 0):
            if nq is None: ctx.ghost['map'] = Opaque(ctx.fresh('map', OBJ), MAP)
            return ctx.ghost['map']
        return None
    use(c, UQ._normalize_query_item, h)

@proof('the list of values of a name is written element by element, in order')
def _(c): elementwise(c, 0)
@proof('a list of pairs is written element by element, in order')
def _(c): elementwise(c, 1)
@proof('a mapping is written element by element, in order')
def _(c): elementwise(c, 2)
def elementwise(c, kind):
    m = start_map(c); before = c.ghost['pairs']
    items = c.fresh('items', z3.SeqSort(OBJ))
    k = c.str('key')
    item_contract(c)
    if kind == 0: fn, args, pair = UQ._normalize_query_item_list, (k, LList(c, seq=items, codec=ObjC(OTHER))), lambda o: NP(k.t, o)
    else:
        pair = lambda o: NP(KEYOF(o), VALOF(o))
        if kind == 1: fn, args = UQ._normalize_query_list, (LList(c, seq=items, codec=ObjC(PAIR)),)
        else:
            d = Opaque(c.fresh('mapping', OBJ), MappingI()); d.extra['items'] = items
            fn, args = UQ._normalize_query_dict, (d,)
    def shape(ctx):
        ctx.ghost['map'] = Opaque(ctx.fresh('map', OBJ), MAP) if ctx.choose(2) else None
        return ctx.ghost['map']
    def hav(L): L.ctx.ghost['pairs'] = L.ctx.fresh('pairs', SEQ2)
    def inv(L):
        i = L.t('_i'); ctx = L.ctx
        ctx.fact(NPS(items, z3.IntVal(0)) == E2)
        ctx.fact(z3.Implies(z3.And(0 < i, i <= ln(items)), NPS(items, i) == cat(NPS(items, i - 1), pair(items[i - 1]))))
        return {'so far': ctx.ghost['pairs'] == cat(before, NPS(items, i)), 'the map': same_map(ctx, L.normalized_query)}
    loop(c, fn.__name__, None, Loop(inv=inv, havoc=hav, dec=lambda L: ln(items) - L.t('_i'), shapes={'normalized_query': shape}))
    r = attempt(c, fn, m, *args)
    no_raise(c, r)
    c.prove('all of them', z3.And(c.ghost['pairs'] == cat(before, NPS(items, ln(items))), same_map(c, r.value)))

@proof('each kind of query goes to its own reader')
def _(c):
    marks = {}
    for n in ('_normalize_query_dict', '_normalize_query_list', 'parse_query'):
        def h(ctx, *a, n=n):
            marks[n] = a; return n
        use(c, getattr(UQ, n), h)
    kind = c.choose(6)
    if kind == 0:
        r = attempt(c, UQ.normalize_query, None); no_raise(c, r); c.prove('none', bv(r.value is None)); return
    if kind == 1:
        d = Opaque(c.fresh('mapping', OBJ), MappingI())
        r = attempt(c, UQ.normalize_query, d); no_raise(c, r); c.prove('mapping', bv(r.value == '_normalize_query_dict' and marks[r.value][1] is d and marks[r.value][0] is None)); return
    if kind == 2:
        d = LList(c, seq=c.fresh('items', z3.SeqSort(OBJ)), codec=ObjC(PAIR))
        r = attempt(c, UQ.normalize_query, d); no_raise(c, r); c.prove('list', bv(r.value == '_normalize_query_list' and marks[r.value][1] is d and marks[r.value][0] is None)); return
    if kind == 3:
        s = c.str('text')
        r = attempt(c, UQ.normalize_query, s); no_raise(c, r); c.prove('text', bv(r.value == 'parse_query' and marks[r.value][0] is s and marks[r.value][1] is False)); return
    v = (b'a=b', 12)[kind - 4]
    r = attempt(c, UQ.normalize_query, v)
    c.prove('refused', bv(r.is_a(TypeError)))

# ---- round trip
@proof('lemma: reading what was written for a pair and what follows gives the pair and what follows', budget=120)
def _(c):
    t = c.fresh('text', SEQ); n = ln(t); p = c.fresh('p', I); c.assume(0 <= p, p < n)
    k = c.fresh('key', SEQ); v = c.fresh('value', SEQ)
    K = ek(True, k); V = ev(True, v)
    m = p + ln(K); q = m + 1 + ln(V)
    # the text holds the pair at p, and ends behind it or goes on with '&'
    c.assume(q <= n, sub(t, p, ln(K)) == K, t[m] == EQ, sub(t, m + 1, ln(V)) == V, z3.Or(q == n, t[q] == AMP))
    # C04: no '&' in either, no '=' in the key; unquoting gives the text back
    x = pos_facts(c, t, AMP, p, n, q)
    e = item_end(c, t, p)
    y = pos_facts(c, t, EQ, p, e, m)
    for z in (x, y):
        for a, b, s in ((p, m, K), (m + 1, q, V)):
            c.fact(z3.Implies(z3.And(a <= z, z < b), z3.And(t[z] == s[z - a], t[z] != AMP)))
    c.fact(z3.Implies(z3.And(p <= y, y < m), K[y - p] != EQ)); c.fact(z3.Implies(z3.And(p <= y, y < m), t[y] != EQ))
    for a, b in ((K, k), (V, v)): c.fact(dec(True, a) == b)
    unfold(c, True, t, p)
    c.prove('the item ends there', e == q)
    c.fact(e == q)
    y2 = pos_facts(c, t, EQ, p, q, m)
    c.fact(z3.Implies(z3.And(p <= y2, y2 < m), t[y2] != EQ))
    c.prove('the name ends there', y2 == m)
    c.fact(y2 == m)
    c.prove('the pair and the rest', PQ[True](t, p) == cat(z3.Unit(k), z3.Unit(v), PQ[True](t, q + 1)))

# ---- native
import re as _re
from contracts import c04
CH = c04.CH
def ref_pairs(s, enc):
    d = lambda x: c04.o_unquote(x.replace('+', ' '), False) if enc else x
    out = []
    for item in s.split('&'):
        if item:
            a, _, b = item.partition('='); out.append((d(a), d(b)))
    return out
def as_map(pairs):
    d = {}
    for k, v in pairs:
        l = d.setdefault(k, [])
        if v not in l: l.append(v)
    return d
def have(m): return {} if m is None else {k: list(m.get_all(k)) for k in m.keys()}

RULE = 'random pair lists and mappings over separators, escapes and exotic characters written by with_query / serialize and read back; random query texts parsed and compared with an independent split'
SEARCH_S = 6
def cases(rng, part, parts):
    def txt(n=4): return ''.join(rng.choice(CH) for _ in range(rng.randrange(n)))
    while True:
        r = rng.random()
        if r < .4: yield ['p', ''.join(rng.choice(['&', '=', '+', 'a', 'b', '%26', '%3D', '%', '%2', '%C3', '%a9', '&&', '==', 'é']) for _ in range(rng.randrange(9))), rng.random() < .6]
        elif r < .8: yield ['w', [[txt() if rng.random() < .7 else rng.choice('ab'), txt()] for _ in range(rng.randrange(4))]]
        else: yield ['n', [[rng.choice(['a', 'b', '']), rng.choice([True, False, None, 3, -1, 1.5, 'x', '', [1, 'a'], [], [[True]], 10**20])] for _ in range(rng.randrange(4))], rng.random() < .5]
def o_value(v):
    if isinstance(v, str): return [v]
    if isinstance(v, bool): return ['true' if v else 'false']
    if v is None: return ['null']
    if isinstance(v, list): return [y for x in v for y in o_value(x)]
    return [str(v)]
def check_case(case):
    try:
        if case[0] == 'p':
            got = have(UQ.parse_query(case[1], case[2])); want = as_map(ref_pairs(case[1], case[2]))
            if got != want: return f'parse_query{tuple(case[1:])!r} reads {got!r}, should be {want!r}'
            return None
        if case[0] == 'w':
            pairs = [tuple(x) for x in case[1]]
            m = UQ.normalize_query(pairs)
            want = as_map([x for x in pairs if x != ('', '')])
            if have(m) != want: return f'normalize_query({pairs!r}) gives {have(m)!r}'
            t = UQ.serialize_query(m, True)
            got = have(UQ.parse_query(t, True))
            if got != want: return f'{pairs!r} is written as {t!r}, read back as {got!r}'
            u = URL('http://h.example/p').with_query(pairs).value_encoded
            got = have(URL(u, True).query)
            if got != want: return f'with_query({pairs!r}) gives {u!r}, read back as {got!r}'
            return None
        pairs = [tuple(x) for x in case[1]]
        if case[2]: pairs = list(dict(pairs).items()); m = UQ.normalize_query(dict(pairs))
        else: m = UQ.normalize_query(pairs)
        want = as_map([(k, y) for k, v in pairs for y in o_value(v) if k or y])
        if have(m) != want: return f'normalize_query({pairs!r}) gives {have(m)!r}, should be {want!r}'
    except Exception as e: return f'{case!r}: raises {e!r}'
    return None
def shrink(case):
    for k in range(len(case[1])): yield [case[0], case[1][:k] + case[1][k + 1:], *case[2:]]
def model_cases(pname, inp):
    if isinstance(inp.get('query'), str):
        for e in (False, True): yield ['p', inp['query'], e]
