"""C08: reading until a boundary stops at its first occurrence."""
import functools
from contracts.streams import *
from pv.interp import MissingName
PROOFS, proof = proof_registry()
TRUSTED = ['what arrives while a reader waits is arbitrary but not empty', 'bytes.find gives the first position of its argument at or after the given one, or -1']
DESIGN = '''The whole stream is fixed beforehand, arrivals are its next bytes. "The boundary matches at p for k bytes" is a predicate M(p, k) unfolded byte
by byte. Contracts of the five helpers, each proved on its body for every chunk, boundary and list: which partial matches a chunk ends with, which
of the pending ones it finishes, continues or refutes, what is released. The reader's loop keeps: handed out ++ held back ++ unread ++ future ==
stream, and (for an arbitrary position) an occurrence of the boundary starting in what is processed is among the pending ones; so when it
returns, the boundary stands right behind what was handed out and does not occur before.'''

SEQI = z3.SeqSort(I)
TB = z3.Function('stream_byte', I, I); BB = z3.Function('boundary_byte', I, I)
M = z3.Function('matches', I, I, B)              # the first k bytes of the boundary stand at p
VALID = z3.Function('pending_matches', SEQI, I, B)    # strictly falling sizes, each a match ending at x
GT = z3.Function('all_longer_than', SEQI, I, B); LE = z3.Function('none_longer_than', SEQI, I, B)
LONG = z3.Function('all_need_more_than', SEQI, I, I, B)     # m - s[e] > n
def m_step(c, p, k):
    c.fact(M(p, z3.IntVal(0)))
    c.fact(z3.Implies(k >= 0, M(p, k + 1) == z3.And(M(p, k), TB(p + k) == BB(k))))
def mono(c, p, k, k2): c.fact(z3.Implies(z3.And(0 <= k, k <= k2, M(p, k2)), M(p, k)))

@proof('lemma: a longer match is a shorter match')
def _(c):
    p, k = c.fresh('p', I), c.fresh('k', I)
    c.assume(k >= 0); m_step(c, p, k)
    k0 = c.fresh('k0', I); c.assume(k0 >= 0, k0 <= k + 1)
    c.assume(z3.Implies(z3.And(k0 <= k, M(p, k)), M(p, k0)))      # induction over k
    c.prove('step', z3.Implies(M(p, k + 1), M(p, k0)))

def props(s, x, m, e): return z3.And(s[e] >= 1, s[e] < m, M(x - s[e], s[e]))
def elim(c, s, x, m, *es):
    """what VALID says about elements, and their order"""
    n = z3.Length(s)
    for e in es:
        c.fact(z3.Implies(z3.And(VALID(s, x), 0 <= e, e < n), props(s, x, m, e)))
        for f in es:
            if e is not f: c.fact(z3.Implies(z3.And(VALID(s, x), 0 <= e, e < f, f < n), s[e] > s[f]))
def nth_facts(c, s, *es):
    s = z3.simplify(s)
    if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT) and len(s.children()) == 2 and z3.is_app_of(s.arg(1), z3.Z3_OP_SEQ_UNIT):
        a, v = s.arg(0), s.arg(1).arg(0); na = z3.Length(a)
        for e in (*es, na):
            c.fact(z3.Implies(z3.And(0 <= e, e < na), s[e] == a[e])); c.fact(z3.Implies(e == na, s[e] == v))
def is_valid(s, x, m, e, f):
    """what is to be shown for VALID, at two arbitrary indexes"""
    n = z3.Length(s)
    return z3.And(z3.Implies(z3.And(0 <= e, e < n), props(s, x, m, e)), z3.Implies(z3.And(0 <= f, f < n), props(s, x, m, f)), z3.Implies(z3.And(0 <= e, e < f, f < n), s[e] > s[f]))

class Case:
    """a chunk at position x of the stream, a boundary of m bytes, an arbitrary position j"""
    def __init__(self, c):
        self.chunk = c.bytes('chunk'); self.b = c.bytes('boundary'); self.x = c.fresh('x', I); self.j = c.fresh('j', I)
        self.n = z3.Length(self.chunk.t); self.m = z3.Length(self.b.t)
        c.assume(self.m >= 1, self.x >= 0, self.j >= 0)
        self.e, self.f = c.fresh('e', I), c.fresh('f', I)
    def at(self, c, p, k):
        """the k-th byte of a match at p, which lies in the chunk"""
        i = p + k - self.x
        c.fact(z3.Implies(z3.And(0 <= i, i < self.n), self.chunk.t[i] == TB(p + k)))
        c.fact(z3.Implies(z3.And(0 <= k, k < self.m), self.b.t[k] == BB(k)))
        m_step(c, p, k)
def sizes_term(L, name):
    v = L.get(name)
    return z3.Empty(SEQI) if v is None else v.as_term(IntC)
def sizes_shape(ctx):
    if ctx.choose(2): return LList(ctx, seq=ctx.fresh('sizes', SEQI), codec=IntC)
    return None
def result_sizes(c, v):
    if v is None: return z3.Empty(SEQI)
    t = v.as_term(IntC)
    c.prove('none instead of an empty list', z3.Length(t) > 0)
    return t

@proof('the partial matches a chunk ends with')
def _(c):
    k = Case(c); c.assume(k.n > 0)
    n, m, x, j = k.n, k.m, k.x, k.j
    def inv(L):
        ctx = L.ctx; i = L.t('_i'); lo = n - L.t('_n'); s = sizes_term(L, 'intersection_sizes'); q = lo + i      # the next start
        ln_ = z3.Length(s)
        mono(ctx, j, x + n - j, m); mono(ctx, j, n + x - j, m)
        nth_facts(ctx, s, k.e, k.f, ln_ - 1)
        return {'bounds': z3.And(lo >= 0, lo >= n - m + 1, z3.Or(lo == 0, lo == n - m + 1)), 'so far': is_valid(s, x + n, m, k.e, k.f), 'not longer than the chunk': z3.And(z3.Implies(z3.And(0 <= k.e, k.e < ln_), s[k.e] <= n), z3.Implies(z3.And(0 <= k.f, k.f < ln_), s[k.f] <= n)),
            'falling': z3.And(z3.Implies(ln_ > 0, s[ln_ - 1] > n - q), z3.Implies(z3.And(0 <= k.e, k.e < ln_), s[k.e] >= s[ln_ - 1]), z3.Implies(z3.And(0 <= k.f, k.f < ln_), s[k.f] >= s[ln_ - 1])),
            'all': z3.Implies(z3.And(x + lo <= j, j < x + q, M(j, m)), z3.Contains(s, z3.Unit(x + n - j))),
            'none instead of an empty list': bv(L.intersection_sizes is None) if L.intersection_sizes is None else ln_ > 0}
    loop(c, '_get_end_intersection_sizes', 0, Loop(inv=inv, shapes={'intersection_sizes': sizes_shape}))
    def inv2(L):
        ctx = L.ctx; i = L.t('_i'); p = x + L.t('chunk_start_index')
        k.at(ctx, p, i); mono(ctx, p, i + 1, n + x - p)
        return {'matches so far': M(p, i)}
    loop(c, '_get_end_intersection_sizes', 1, Loop(inv=inv2))
    r = attempt(c, P._get_end_intersection_sizes, k.chunk, 0, k.b)
    no_raise(c, r)
    s = result_sizes(c, r.value)
    c.prove('pending matches, not longer than the chunk', z3.And(is_valid(s, x + n, m, k.e, k.f), z3.Implies(z3.And(0 <= k.e, k.e < z3.Length(s)), s[k.e] <= n)))
    c.prove('all of them', z3.Implies(z3.And(x <= j, j < x + n, x + n - j < m, M(j, m)), z3.Contains(s, z3.Unit(x + n - j))))

def peek(L, name, default):
    try: return L.t(name)
    except (MissingName, Unsupported): return default
def given_sizes(c, k):
    s = c.fresh('given', SEQI)
    c.assume(z3.Length(s) > 0, VALID(s, k.x))
    ej = c.fresh('ej', I)        # the index of an occurrence starting at j
    occurs = z3.And(k.j < k.x, M(k.j, k.m))
    c.assume(z3.Implies(occurs, z3.And(0 <= ej, ej < z3.Length(s), s[ej] == k.x - k.j)))
    return s, ej, occurs

@proof('finishing pending matches: the longest that the chunk completes, else those it is too short for')
def _(c):
    k = Case(c); c.assume(k.n > 0)
    n, m, x, j = k.n, k.m, k.x, k.j
    s, ej, occurs = given_sizes(c, k)
    N = z3.Length(s)
    def inv(L):
        ctx = L.ctx; i = L.t('_i'); r = sizes_term(L, 'continued_intersection_sizes'); nr = z3.Length(r); st = i - nr
        ctx.ghost['i'] = i
        elim(ctx, s, x, m, i, st, st - 1, i - 1, ej)
        mono(ctx, x - s[i], s[i], m)
        return {'the ones too long for the chunk': z3.And(nr <= i, r == z3.Extract(s, st, nr), z3.Implies(nr > 0, m - s[st] > n), z3.Implies(st > 0, m - s[st - 1] <= n)),
            'the others are refuted': z3.Implies(z3.And(0 <= ej, ej < i, m - s[ej] <= n), z3.Not(M(x - s[ej], m))),
            'none instead of an empty list': bv(True) if L.continued_intersection_sizes is None else nr > 0}
    loop(c, '_finish_intersection_sizes', 0, Loop(inv=inv, shapes={'continued_intersection_sizes': sizes_shape}))
    def inv2(L):
        ctx = L.ctx; i = L.t('_i'); z = L.t('intersection_size'); p = x - z
        k.at(ctx, p, z + i); mono(ctx, p, z + i + 1, m); mono(ctx, p, z, m)
        return {'matches so far': M(p, z + i)}
    loop(c, '_finish_intersection_sizes', 1, Loop(inv=inv2))
    r = attempt(c, P._finish_intersection_sizes, k.chunk, k.b, LList(c, seq=s, codec=IntC))
    no_raise(c, r)
    c.prove('two', bv(isinstance(r.value, tuple) and len(r.value) == 2))
    o = iterm(r.value[0]); t = result_sizes(c, r.value[1]); nt = z3.Length(t)
    if c.branch(o != -1):
        i = c.ghost['i']; elim(c, s, x, m, i, ej)
        c.prove('the boundary is complete there', z3.And(o >= 1, o <= n, o < m + 1, M(x + o - m, m)))
        c.prove('from a pending match', m - o == s[i])
        c.prove('nothing is left', bv(r.value[1] is None))
        c.prove('no earlier one', z3.Implies(z3.And(occurs, j < x + o - m), z3.BoolVal(False)))
        return
    elim(c, s, x, m, N - nt, N - nt - 1, ej)
    c.prove('the end of the list', z3.And(nt <= N, t == z3.Extract(s, N - nt, nt), z3.Implies(nt > 0, m - s[N - nt] > n)))
    c.prove('an occurrence takes more than the chunk', z3.Implies(occurs, m - (x - j) > n))
    c.prove('an occurrence is in the end of the list', z3.Implies(occurs, ej >= N - nt))
    c.fact(z3.Implies(z3.And(0 <= ej, ej >= N - nt, ej < N), t[ej - N + nt] == s[ej]))
    c.prove('an occurrence is still pending', z3.Implies(occurs, z3.Contains(t, z3.Unit(x - j))))

@proof('lemma: the end of a list of pending matches is one, and too long for the chunk as a whole')
def _(c):
    s = c.fresh('s', SEQI); x, m, q, e, f, n = [c.fresh(v, I) for v in 'xmqefn']
    N = z3.Length(s); c.assume(VALID(s, x), 0 <= q, q < N, m - s[q] > n)
    t = z3.Extract(s, q, N - q)
    elim(c, s, x, m, q, q + e, q + f)
    c.fact(z3.Implies(z3.And(0 <= e, e < N - q), t[e] == s[q + e])); c.fact(z3.Implies(z3.And(0 <= f, f < N - q), t[f] == s[q + f]))
    c.prove('valid', is_valid(t, x, m, e, f))
    c.prove('too long', z3.Implies(z3.And(0 <= e, e < N - q), m - t[e] > n))

@proof('continuing pending matches over a chunk too short for them')
def _(c):
    k = Case(c); c.assume(k.n > 0)
    n, m, x, j = k.n, k.m, k.x, k.j
    s, ej, occurs = given_sizes(c, k)
    N = z3.Length(s)
    def short(ctx, *es):
        for e in es: ctx.fact(z3.Implies(z3.And(LONG(s, m, n), 0 <= e, e < N), m - s[e] > n))
    c.assume(LONG(s, m, n))
    def inv(L):
        ctx = L.ctx; i = L.t('_i'); r = sizes_term(L, 'continued_intersection_sizes'); nr = z3.Length(r)
        short(ctx, i, ej)
        elim(ctx, s, x, m, z3.IntVal(0), i, i - 1, i + 1)
        nth_facts(ctx, r, k.e, k.f, nr - 1, z3.IntVal(0))
        mono(ctx, j, x + n - j, m)
        return {'so far': is_valid(r, x + n, m, k.e, k.f), 'longer than the chunk': z3.And(*[z3.Implies(z3.And(0 <= q, q < nr), z3.And(r[q] > n, r[q] >= r[nr - 1])) for q in (k.e, k.f)]),
            'falling': z3.Implies(nr > 0, z3.And(i > 0, r[nr - 1] >= s[i - 1] + n, r[0] <= s[0] + n, r[nr - 1] <= s[0] + n)),
            'all': z3.Implies(z3.And(occurs, ej < i), z3.Contains(r, z3.Unit(x + n - j))),
            'none instead of an empty list': bv(True) if L.continued_intersection_sizes is None else nr > 0}
    loop(c, '_continue_intersection_sizes', 0, Loop(inv=inv, shapes={'continued_intersection_sizes': sizes_shape}))
    def inv2(L):
        ctx = L.ctx; i = L.t('_i'); z = L.t('intersection_size'); p = x - z
        k.at(ctx, p, z + i); mono(ctx, p, z + i + 1, z + n)
        return {'matches so far': M(p, z + i), 'the last shift': z3.Implies(i > 0, peek(L, 'shift', i - 1) == i - 1)}
    loop(c, '_continue_intersection_sizes', 1, Loop(inv=inv2))
    r = attempt(c, P._continue_intersection_sizes, k.chunk, k.b, LList(c, seq=s, codec=IntC))
    no_raise(c, r)
    t = result_sizes(c, r.value)
    c.prove('pending matches, longer than the chunk', z3.And(is_valid(t, x + n, m, k.e, k.f), z3.Implies(z3.And(0 <= k.e, k.e < z3.Length(t)), t[k.e] > n)))
    c.prove('all of them', z3.Implies(occurs, z3.Contains(t, z3.Unit(x + n - j))))
    c.prove('none longer than the longest', z3.Implies(z3.Length(t) > 0, t[0] <= s[0] + n))

@proof('merging: those of both')
def _(c):
    m, x, n, e, f = [c.fresh(v, I) for v in 'mxnef']
    a, b = c.fresh('a', SEQI), c.fresh('b', SEQI)
    ka, kb = c.choose(2), c.choose(2)
    la = LList(c, seq=a, codec=IntC) if ka else None; lb = LList(c, seq=b, codec=IntC) if kb else None
    r = attempt(c, P._merge_intersection_sizes, la, lb)
    no_raise(c, r)
    if not ka and not kb: c.prove('none', bv(r.value is None)); return
    t = r.value.as_term(IntC)
    want = cat(*([a] if ka else []), *([b] if kb else []))
    c.prove('one behind the other', t == want)
    if ka and kb:
        c.assume(VALID(a, x), VALID(b, x), GT(a, n), LE(b, n))
        na = z3.Length(a)
        elim(c, a, x, m, e, f); elim(c, b, x, m, e - na, f - na)
        for q in (e, f):
            c.fact(z3.Implies(z3.And(GT(a, n), 0 <= q, q < na), a[q] > n)); c.fact(z3.Implies(z3.And(LE(b, n), 0 <= q - na, q - na < z3.Length(b)), b[q - na] <= n))
            c.fact(z3.Implies(z3.And(0 <= q, q < na), want[q] == a[q])); c.fact(z3.Implies(z3.And(na <= q, q < na + z3.Length(b)), want[q] == b[q - na]))
        c.prove('pending matches', is_valid(want, x, m, e, f))

SUMS = z3.Function('sum_of', SEQI, I)
@proof('releasing: all but the last bytes, in order')
def _(c):
    keep = c.int('amount_to_keep')
    none = c.choose(2)
    hb = None if none else LList(c, seq=c.fresh('held_back', SEQ2), codec=BytesC)
    t0 = None if none else hb.as_term(BytesC)
    if not none: c.assume(z3.Length(t0) > 0)
    total = None if none else z3.Length(FLAT(t0))
    def summed(L):
        unfold_pre(L.ctx, t0, L._i)
        v = models.sum_term(L.ctx, L._comp.as_term(IntC))
        return {'sum so far': v == z3.Length(PRE(t0, L._i))}
    def inv(L):
        ctx = L.ctx; h = L.held_back
        ht = h.as_term(BytesC); unfold_flat(ctx, ht)
        rel = flat_term(ctx, L.released.as_term(BytesC))
        return {'all bytes': cat(rel, flat_term(ctx, ht)) == FLAT(t0), 'to go': z3.And(L.t('amount_to_release') > 0, z3.Length(rel) + L.t('amount_to_release') == total - keep.t), 'held': z3.Length(ht) > 0, 'the same list': bv(h is hb)}
    def tail(L): ht = L.held_back.as_term(BytesC); unfold_flat(L.ctx, z3.Extract(ht, z3.IntVal(1), z3.Length(ht) - 1))
    loop(c, '_get_released_from_held_back', 0, Loop(inv=summed, lists={'_comp': IntC}))
    loop(c, '_get_released_from_held_back', 1, Loop(inv=inv, shapes={'held_back': lambda ctx: hb}, on_head=tail, dec=lambda L: z3.Length(L.held_back.as_term(BytesC)), lists={'released': BytesC}))
    r = attempt(c, P._get_released_from_held_back, hb, keep)
    no_raise(c, r)
    rel, held = r.value
    if none: c.prove('nothing', bv(rel is None and held is None)); return
    c.prove('nothing is kept if nothing is asked for', z3.Or(keep.t > 0, bv(held is None)))
    R = empty() if rel is None else flat_term(c, rel.as_term(BytesC)); H = empty() if held is None else flat_term(c, held.as_term(BytesC))
    c.prove('all bytes, in order', cat(R, H) == FLAT(t0))
    c.prove('what is kept', z3.Length(H) == z3.If(keep.t <= 0, z3.IntVal(0), z3.If(keep.t < total, keep.t, total)))
    c.prove('something is kept unless nothing is asked for', z3.Or(keep.t <= 0, bv(held is not None)))
    if held is not None: c.prove('chunks', z3.Length(held.as_term(BytesC)) > 0)


# ---------------------------------------------------------------- the reader, on the contracts above
def piece(ctx, v): ctx.ghost['out'] = cat(ctx.ghost['out'], sterm(v))
class Reader:
    def __init__(self, c):
        self.p = p = protocol(c); g = c.ghost
        self.b = c.bytes('boundary'); self.m = m = z3.Length(self.b.t); c.assume(m >= 1)
        self.j = c.fresh('j', I); c.assume(self.j >= 0)
        g['fut'] = c.fresh('future', SEQ); g['x'] = z3.IntVal(0); g['pre'] = empty()
        self.settle(c, empty()); c.assume(z3.Implies(truth(c, fld(p, '_at_eof')), g['fut'] == empty()))
        self.wait(c); self.helpers(c)
    def settle(self, ctx, pre):
        """the stream, written as what is before, unread and future (it occurs in nothing else, so that is what it is)"""
        g = ctx.ghost; o = fld(self.p, '_offset')
        self.first(ctx)
        g['pre'] = pre; g['x'] = z3.simplify(z3.Length(pre)); g['stream'] = self.now(ctx, pre)
    def first(self, ctx):
        o = iterm(fld(self.p, '_offset'))
        if not z3.is_int_value(z3.simplify(o)) and ctx.implied(o == 0): ctx.it.setattr(self.p, '_offset', 0)
    def now(self, ctx, pre): return cat(pre, unread(ctx, self.p), ctx.ghost['fut'])
    def lst(self, ctx, name):
        s = ctx.fresh(name, SEQI); ctx.assume(z3.Length(s) > 0)
        return LList(ctx, seq=s, codec=IntC), s
    def held(self, ctx, hb): return empty() if hb is None else flat_term(ctx, hb.as_term(BytesC))
    def here(self, ctx, chunk, what):
        """the chunk is what stands at x in the stream"""
        ctx.prove(f'{what}: a chunk', z3.Length(chunk) > 0)
        ctx.prove(f'{what}: the next bytes of the stream', z3.PrefixOf(cat(ctx.ghost['pre'], chunk), ctx.ghost['stream']))
    def occurs(self, ctx): return z3.And(self.j < ctx.ghost['x'], M(self.j, self.m))
    def given(self, ctx, s, what):
        ctx.prove(f'{what}: the pending matches', z3.And(z3.Length(s) > 0, VALID(s, ctx.ghost['x'])))
        ctx.prove(f'{what}: no occurrence is missing', z3.Implies(self.occurs(ctx), z3.Contains(s, z3.Unit(ctx.ghost['x'] - self.j))))
    def wait(self, c):
        p = self.p
        def h(ctx, self_):
            g = ctx.ghost
            prove_state(ctx, p, 'waiting')
            ctx.prove('waiting only when nothing is unread', z3.Length(seq_of(p)) == 0)
            ctx.prove('waiting only before the end', z3.Not(truth(ctx, fld(p, '_at_eof'))))
            k = ctx.choose(3)
            if k == 0:
                d = ctx.bytes('data'); f = ctx.fresh('future', SEQ); ctx.assume(z3.Length(d.t) > 0, g['fut'] == cat(d.t, f))
                models.call_method(ctx.it, fld(p, '_chunks'), 'append', [d], {})
                g['fut'] = f; g['stream'] = self.now(ctx, g['pre'])
                return d
            if k == 1:
                ctx.it.setattr(p, '_at_eof', True); ctx.assume(g['fut'] == empty())
                raise PyExc(Inst(ctx, EOFError, {'args': (b'',)}))
            g['closed'] = True
            raise PyExc(Inst(ctx, GeneratorExit, {'args': ()}))
        use(c, ReadProtocolBase._wait_for_data, h)
    def helpers(self, c):
        m, j, b = self.m, self.j, self.b
        def end(ctx, chunk, offset, boundary):
            x = ctx.ghost['x']; t = sterm(chunk); n = z3.Length(t)
            ctx.prove('end matches: of the boundary, from the start of the chunk', z3.And(sterm(boundary) == b.t, iterm(offset) == 0)); self.here(ctx, t, 'end matches')
            missing = z3.And(x <= j, j < x + n, x + n - j < m, M(j, m))
            if ctx.choose(2):
                l, s = self.lst(ctx, 'end')
                ctx.assume(VALID(s, x + n), LE(s, n), s[0] <= n, z3.Implies(missing, z3.Contains(s, z3.Unit(x + n - j))))
                elim(ctx, s, x + n, m, z3.IntVal(0))
                return l
            ctx.assume(z3.Not(missing))
        use(c, P._get_end_intersection_sizes, end)
        def finish(ctx, chunk, boundary, sizes):
            x = ctx.ghost['x']; t = sterm(chunk); n = z3.Length(t); s = sizes.as_term(IntC)
            ctx.prove('finishing: of the boundary', sterm(boundary) == b.t); self.here(ctx, t, 'finishing'); self.given(ctx, s, 'finishing')
            k = ctx.choose(3)
            if k == 0:
                o = ctx.int('end'); i = ctx.fresh('i', I)
                ctx.assume(0 <= i, i < z3.Length(s), m - o.t == s[i], o.t >= 1, o.t <= n, M(x + o.t - m, m), z3.Not(z3.And(self.occurs(ctx), j < x + o.t - m)))
                elim(ctx, s, x, m, z3.IntVal(0), i)
                return (o, None)
            if k == 1: ctx.assume(z3.Not(self.occurs(ctx))); return (-1, None)
            l, r = self.lst(ctx, 'too_long')
            ctx.assume(VALID(r, x), LONG(r, m, n), m - r[0] > n, r[0] <= s[0], z3.Implies(self.occurs(ctx), z3.Contains(r, z3.Unit(x - j))))
            elim(ctx, r, x, m, z3.IntVal(0))
            return (-1, l)
        use(c, P._finish_intersection_sizes, finish)
        def cont(ctx, chunk, boundary, sizes):
            x = ctx.ghost['x']; t = sterm(chunk); n = ctx.ghost['n'] = z3.Length(t); s = sizes.as_term(IntC)
            ctx.prove('continuing: of the boundary', sterm(boundary) == b.t); self.here(ctx, t, 'continuing'); self.given(ctx, s, 'continuing')
            ctx.prove('continuing: the chunk is too short for all', LONG(s, m, n))
            if ctx.choose(2):
                l, r = self.lst(ctx, 'continued')
                ctx.assume(VALID(r, x + n), GT(r, n), r[0] <= s[0] + n, z3.Implies(self.occurs(ctx), z3.Contains(r, z3.Unit(x + n - j))))
                elim(ctx, r, x + n, m, z3.IntVal(0))
                return l
            ctx.assume(z3.Not(self.occurs(ctx)))
        use(c, P._continue_intersection_sizes, cont)
        def merge(ctx, a, b_):
            if a is None: return b_
            if b_ is None: return a
            s, t = a.as_term(IntC), b_.as_term(IntC); n = ctx.ghost['n']; y = ctx.ghost['x'] + n
            ctx.prove('merging: longer ones and shorter ones', z3.And(VALID(s, y), VALID(t, y), GT(s, n), LE(t, n)))
            w = cat(s, t); v = z3.Unit(y - j)
            ctx.fact(VALID(w, y)); ctx.fact(w[0] == s[0]); ctx.fact(z3.Contains(w, v) == z3.Or(z3.Contains(s, v), z3.Contains(t, v)))
            return LList(ctx, seq=w, codec=IntC)
        use(c, P._merge_intersection_sizes, merge)
        def release(ctx, hb, keep):
            t = hb.as_term(BytesC); K = iterm(keep); f = flat_term(ctx, t)
            ctx.prove('releasing: something is held back', z3.Length(t) > 0)
            R = LList(ctx, seq=ctx.fresh('released', SEQ2), codec=BytesC) if ctx.choose(2) else None
            H = LList(ctx, seq=ctx.fresh('held_back', SEQ2), codec=BytesC) if ctx.choose(2) else None
            r, h = self.held(ctx, R), self.held(ctx, H)
            total = z3.Length(f)
            ctx.assume(cat(r, h) == f, z3.Length(h) == z3.If(K <= 0, z3.IntVal(0), z3.If(K < total, K, total)), (K > 0) == bv(H is not None))
            if H is not None: ctx.assume(z3.Length(H.as_term(BytesC)) > 0)
            return (R, H)
        use(c, P._get_released_from_held_back, release)
        def find(ctx, t, sub, lo, hi):
            x = ctx.ghost['x']; n = z3.Length(t)
            ctx.prove('looking for the boundary, to the end of the chunk', z3.And(sub == b.t, hi == n, lo >= 0, lo <= n))
            self.here(ctx, z3.Extract(t, lo, n - lo) if not (z3.is_int_value(lo) and lo.as_long() == 0) else t, 'looking')
            r = ctx.fresh('found', I)
            at = x - lo + r
            ctx.assume(z3.Or(r == -1, z3.And(lo <= r, r + m <= n, M(at, m), z3.Not(z3.And(x <= j, j < at, M(j, m))))))
            ctx.assume(z3.Implies(r == -1, z3.Not(z3.And(x <= j, j + m <= x + n - lo, M(j, m)))))
            return r
        c.ghost['find'] = find
@proof('the reader stops at the first occurrence and leaves what is behind it')
def _(c):
    R = Reader(c); p, m, j, g = R.p, R.m, R.j, c.ghost
    def inv(L):
        ctx = L.ctx; H = R.held(ctx, L.held_back); s = None if L.intersection_sizes is None else L.intersection_sizes.as_term(IntC)
        pre = cat(g['out'], H); x = z3.simplify(z3.Length(pre))
        if g.pop('head', False): g['settle'] = pre; same = z3.BoolVal(True)
        else: same = R.now(ctx, pre) == g['stream']
        d = {**state_ok(ctx, p), 'handed out, held back, unread and future are the stream': same,
            'nothing comes after the end': z3.Implies(truth(ctx, fld(p, '_at_eof')), g['fut'] == empty()),
            'held back while matches are pending': bv((s is None) == (L.held_back is None))}
        t = seq_of(p); n = z3.If(z3.Length(t) > 0, z3.Length(t[0]), z3.IntVal(0))
        g['sizes'] = s
        if s is None: d['no occurrence before'] = z3.Implies(j < x, z3.Not(M(j, m))); return d
        elim(ctx, s, x, m, z3.IntVal(0))
        d['pending matches'] = z3.And(z3.Length(s) > 0, VALID(s, x))
        d['they are held back'] = z3.Length(H) >= s[0]
        d['at a chunk'] = iterm(fld(p, '_offset')) == 0
        if L.held_back is not None: d['held back'] = z3.Length(L.held_back.as_term(BytesC)) > 0
        d['an occurrence before is pending'] = z3.Implies(z3.And(j < x, M(j, m)), z3.Contains(s, z3.Unit(x - j)))
        return d
    def havoc(L):
        for k in ('out', 'fut'): g[k] = L.ctx.fresh(k, SEQ)
        g['head'] = True; ctx = L.ctx
        l = fld(p, '_chunks')
        if isinstance(l, LList): l.seq = z3.Concat(z3.Unit(ctx.fresh('chunk', SEQ)), ctx.fresh('chunks', SEQ2)) if ctx.choose(2) else z3.Empty(SEQ2)
    def head(L): R.settle(L.ctx, g.pop('settle'))
    def held_shape(ctx): return LList(ctx, seq=ctx.fresh('held_back', SEQ2), codec=BytesC) if ctx.choose(2) else None
    loop(c, '_read_until_by_chunk', 0, Loop(inv=inv, havoc=havoc, on_head=head, shapes={'intersection_sizes': sizes_shape, 'held_back': held_shape}))
    def entry(L): g['out0'] = g['out']
    def inv2(L): t = L._src.seq; unfold_pre(L.ctx, t, L._i); return {'handed out in order': g['out'] == cat(g['out0'], PRE(t, L._i))}
    def havoc2(L): g['out'] = L.ctx.fresh('out', SEQ)
    def exit2(L):
        all_ = cat(g['out0'], flat_term(L.ctx, L._src.seq)); L.ctx.prove('all of them are handed out', g['out'] == all_); g['out'] = all_
    for k in (1, 2, 3): loop(c, '_read_until_by_chunk', k, Loop(inv=inv2, on_entry=entry, havoc=havoc2, at_exit=exit2))
    c.yield_stack.append(piece)
    try: r = Outcome(value=c.it.run_gen(c.it.call(ReadProtocolBase._read_until_by_chunk, [p, R.b], {})))
    except PyExc as e: r = Outcome(exc=e.value)
    c.yield_stack.pop()
    prove_state(c, p, 'afterwards')
    if r.ok:
        o = z3.Length(g['out']); u = unread(c, p); T = g['stream']
        c.prove('the boundary is behind what is handed out', M(o, m))
        c.prove('what is handed out is the start of the stream', z3.PrefixOf(g['out'], T))
        c.prove('what is unread and to come is the end of the stream', z3.SuffixOf(cat(u, g['fut']), T))
        c.prove('the boundary is all there is between', o + m + z3.Length(u) + z3.Length(g['fut']) == z3.Length(T))
        c.prove('it is the first occurrence', z3.Implies(j < o, z3.Not(M(j, m))))
    elif g.get('closed'): c.prove('closing goes through', bv(r.is_a(GeneratorExit)))
    else:
        c.prove('an end-of-file error', bv(r.is_a(EOFError)))
        T = g['stream']; s = g['sizes']
        if s is not None:
            e = c.fresh('e', I); c.fact(z3.Implies(z3.Contains(s, z3.Unit(g['x'] - j)), z3.And(0 <= e, e < z3.Length(s), s[e] == g['x'] - j)))
            elim(c, s, g['x'], m, e)
        c.prove('only at the end of the stream', z3.And(truth(c, fld(p, '_at_eof')), z3.Length(unread(c, p)) == 0))
        c.prove('which has no boundary', z3.Implies(j + m <= z3.Length(T), z3.Not(M(j, m))))

@proof('lemma: the boundary stands where it matches to its end')
def _(c):
    T, b = c.fresh('T', SEQ), c.fresh('b', SEQ); p, k = c.fresh('p', I), c.fresh('k', I)
    c.assume(p >= 0, k >= 0, k + 1 <= z3.Length(b), p + k + 1 <= z3.Length(T))
    c.fact(z3.Implies(True, z3.And(T[p + k] == TB(p + k), b[k] == BB(k)))); m_step(c, p, k)
    c.prove('start', z3.And(M(p, z3.IntVal(0)), z3.Extract(T, p, 0) == z3.Extract(b, 0, 0)))
    c.assume(z3.Implies(M(p, k), z3.Extract(T, p, k) == z3.Extract(b, 0, k)))     # induction over k
    c.fact(z3.Extract(T, p, k + 1) == z3.Concat(z3.Extract(T, p, k), z3.Unit(T[p + k]))); c.fact(z3.Extract(b, 0, k + 1) == z3.Concat(z3.Extract(b, 0, k), z3.Unit(b[k])))
    c.prove('one more byte', z3.Implies(M(p, k + 1), z3.Extract(T, p, k + 1) == z3.Extract(b, 0, k + 1)))

def until_contract(c, b):
    """proved above: the pieces are what is before the first occurrence"""
    def h(ctx, self, b_):
        ctx.prove('asked for the boundary of the read', eqv(ctx, b_, b))
        s = ctx.fresh('pieces', SEQ2); k = ctx.choose(3)
        exc = None if k == 0 else Inst(ctx, (EOFError, GeneratorExit)[k - 1], {'args': (b'',)})
        ctx.ghost['given'] = s; ctx.ghost['end'] = k
        return Opaque(ctx.fresh('reader', OBJ), PiecesI(LList(ctx, seq=s, codec=BytesC), exc))
    use(c, ReadProtocolBase._read_until_by_chunk, h)

@proof('reading until a boundary passes every piece on in order')
def _(c):
    p = protocol(c); s = Opaque(c.fresh('stream', OBJ), STREAM); b = c.bytes('boundary'); c.assume(z3.Length(b.t) > 0)
    until_contract(c, b); g = c.ghost
    def inv(L): unfold_pre(L.ctx, g['given'], L._i); return {'passed on': g['out'] == PRE(g['given'], L._i)}
    loop(c, '_read_until', 0, Loop(inv=inv, havoc=ghost_havoc))
    r = attempt(c, ReadProtocolBase._read_until, p, b, s)
    c.prove('all pieces, in order', g['out'] == FLAT(g['given']))
    if g['end'] == 0: no_raise(c, r)
    else: c.prove('fails as the read fails', bv(r.is_a((EOFError, GeneratorExit)[g['end'] - 1])))

@proof('reading until a boundary in one piece')
def _(c):
    p = protocol(c); b = c.bytes('boundary'); c.assume(z3.Length(b.t) > 0)
    until_contract(c, b); g = c.ghost
    def inv(L):
        unfold_pre(L.ctx, g['given'], L._i)
        return {'collected': flat_term(L.ctx, L.chunks.as_term(BytesC)) == PRE(g['given'], L._i)}
    loop(c, '_read_until_as_one', 0, Loop(inv=inv, lists={'chunks': BytesC}))
    r = attempt(c, ReadProtocolBase._read_until_as_one, p, b)
    if g['end'] == 0: no_raise(c, r); c.prove('all pieces, in order', sterm(r.value) == FLAT(g['given']))
    else: c.prove('fails as the read fails', bv(r.is_a((EOFError, GeneratorExit)[g['end'] - 1])))

@proof('a read asks for its boundary')
def _(c):
    asked = []
    exc = Inst(c, ConnectionError, {'args': ()}) if c.choose(2) else None
    p = protocol(c, _exception=exc)
    res = Opaque(c.fresh('payload stream', OBJ), STREAM)
    use(c, ReadProtocolBase.set_payload_reader, lambda ctx, self, f: asked.append(f) or res)
    b = c.bytes('boundary')
    r = attempt(c, ReadProtocolBase.read_until, p, b)
    if not asked:
        c.prove('only without a boundary', z3.Length(b.t) == 0)
        if exc is None: no_raise(c, r); c.prove('nothing', sterm(r.value) == empty())
        else: c.prove('a failed protocol fails the read', bv(r.raised and r.exc is exc))
        return
    no_raise(c, r); c.prove('a boundary', z3.Length(b.t) > 0); c.prove('the result of that reader', bv(len(asked) == 1 and r.value is res))
    which = []
    use(c, ReadProtocolBase._read_until, lambda ctx, self, *a: which.append(a))
    c.it.call(asked[0], [res], {})
    c.prove('until that boundary, into that stream', bv(len(which) == 1 and len(which[0]) == 2 and which[0][1] is res))
    c.prove('that boundary', eqv(c, which[0][0], b))

# ---------------------------------------------------------------- native
RULE = 'streams over small alphabets with the boundary planted or nearly planted, cut into chunks, partly read beforehand, read until the boundary several times in a row; distinct by content'
SEARCH_S = 6
_partial = functools.partial
def cases(rng, part, parts):
    while True:
        al = rng.choice([b'ab', b'ab', b'abc', b'\r\n-', b'\0\xff'])
        w = lambda lo, hi: bytes(rng.choice(al) for _ in range(rng.randint(lo, hi)))
        b = rng.choice([w(1, 6), w(1, 3) * rng.randint(1, 3), w(1, 2) * 3 + w(0, 2)])
        t = b''
        for _ in range(rng.randint(0, 4)): t += rng.choice([w(0, 5), b[:rng.randint(0, len(b))], b[:-1], b[rng.randint(0, len(b)):], b])
        cuts = sorted(rng.randint(0, len(t)) for _ in range(rng.choice([0, 1, 2, 4, 8, len(t)])))
        chunks = [x for x in (t[i:j] for i, j in zip([0, *cuts], [*cuts, len(t)])) if x]
        yield dict(b=b, chunks=chunks, first=rng.choice([0, 0, 1, 2, 5]), early=rng.randint(0, len(chunks)), eof=rng.random() < .5)
def check_case(d):
    b, chunks, t = d['b'], d['chunks'], b''.join(d['chunks'])
    if not b: return None
    p = ReadProtocolBase(None)
    for x in chunks[:d['early']]: p.data_received(x)
    pos = 0
    early = sum(map(len, chunks[:d['early']]))
    if d['first'] and d['first'] <= early:
        s = p.set_payload_reader(_partial(p._read_exactly, d['first'], False))
        if b''.join(s._chunks) != t[:d['first']]: return 'the first read is wrong'
        pos = d['first']
    got = []; cur = p.set_payload_reader(_partial(p._read_until, b))
    todo = chunks[d['early']:]
    while True:
        while p._payload_reader is None and cur is not None:
            if cur._exception is not None: return f'the read fails: {cur._exception!r}'
            want = t.find(b, pos)
            r = b''.join(cur._chunks)
            if want < 0 or r != t[pos:want]: return f'read {r!r} from {t[pos:]!r} until {b!r}'
            pos = want + len(b)
            cur = p.set_payload_reader(_partial(p._read_until, b))
        if not todo: break
        p.data_received(todo.pop(0))
    if t.find(b, pos) >= 0: return f'{b!r} is in {t[pos:]!r}, but is not found'
    if any(not x for x in cur._chunks): return 'an empty piece'
    if not t[pos:].startswith(b''.join(cur._chunks)): return 'handed out what is not in the stream'
    if d['eof']:
        p.eof_received()
        if cur._exception is None: return 'no error at the end of the stream'
    return None
def shrink(d):
    for k in range(len(d['chunks'])):
        yield {**d, 'chunks': d['chunks'][:k] + d['chunks'][k + 1:], 'early': min(d['early'], len(d['chunks']) - 1)}
        if len(d['chunks'][k]) > 1: yield {**d, 'chunks': d['chunks'][:k] + [d['chunks'][k][1:]] + d['chunks'][k + 1:]}
    if d['first']: yield {**d, 'first': 0}
    if d['early']: yield {**d, 'early': d['early'] - 1}
    if len(d['b']) > 1: yield {**d, 'b': d['b'][1:]}; yield {**d, 'b': d['b'][:-1]}
