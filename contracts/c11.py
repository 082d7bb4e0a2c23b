"""C11: WebSocket negotiation headers: parse / build inverse, errors typed."""
import re
from types import SimpleNamespace
from pv.lib import *
from pv import regex
import scarletio.web_common.header_building_and_parsing as H

PROOFS, proof = proof_registry()
TRUSTED = ['a run pattern matches the longest run of its character class (the class is read off the pattern text on every run)', 'str.join, defined from the front and from the end']
DESIGN = '''Each header grammar is defined recursively over positions (well-formed, items), on top of the longest runs of token characters, blanks and
list separators. The scanners are proved, for every text, to return exactly the defined items, to raise ValueError exactly on what is not
well-formed, and to end (variants). Building: the text is the join of the items; by induction over the items, reading it gives them back.'''

SEQ2 = z3.SeqSort(SEQ)
TCHARS = "-!#$%&'*+.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
def tchar(x):
    return z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122), *[x == ord(k) for k in "-!#$%&'*+.^_`|~"])
def blank(x): return z3.Or(x == 32, x == 9)
def listsep(x): return z3.Or(x == 32, x == 9, x == 44)
class Run:
    def __init__(self, name, pred): self.F = z3.Function(name, SEQ, I, I); self.pred = pred
    def __call__(self, c, s, i):
        """end of the longest run from i; its definition"""
        n = z3.Length(s); r = self.F(s, i)
        c.fact(z3.Implies(z3.And(0 <= i, i <= n), z3.And(i <= r, r <= n, z3.Or(r == n, z3.Not(self.pred(s[r]))))))
        return r
    def inside(self, c, s, i, k): c.fact(z3.Implies(z3.And(0 <= i, i <= k, k < self.F(s, i)), self.pred(s[k])))
T, SP, LS = Run('token_run', tchar), Run('blank_run', blank), Run('list_start_run', listsep)
_same = {}
def same_class(pred, R):
    """both classes have the same characters"""
    k = (str(pred(z3.Int('x'))), R.F.name())
    if k not in _same:
        x = z3.Int('x'); v = z3.Solver(); v.add(pred(x) != R.pred(x)); _same[k] = v.check() == z3.unsat
    return _same[k]
def on_run(ctx, s, i, pred):
    """where a run found by the code ends: the defined run of the same class, or one of its own, tied to the defined ones at either end"""
    for R in (T, SP, LS):
        if same_class(pred, R): return R(ctx, s, i)
    r = ctx.fresh('run_end', I)
    for R in (T, SP, LS):
        e = R(ctx, s, i)
        R.inside(ctx, s, i, r)
        ctx.fact(z3.Implies(z3.And(i <= e, e < r), pred(s[e])))
    return r
def setup(c): regex.contract_runs(c, H, on_run)

# ---- list of tokens / protocols
def proto_end(c, s, i):
    t = T(c, s, i); e = T(c, s, t + 1); n = z3.Length(s)
    return z3.If(z3.And(t > i, t < n, s[t] == 47, e > t + 1), e, t)
class Grammar:
    def __init__(self, name, end):
        self.OK = z3.Function(name + '_well_formed', SEQ, I, B); self.ITEMS = z3.Function(name + '_items', SEQ, I, SEQ2); self.end = end
    def unfold(self, c, s, i):
        n = z3.Length(s); a = LS(c, s, i); b = self.end(c, s, a); x = SP(c, s, b)
        ins = z3.And(0 <= i, i <= n)
        c.fact(z3.Implies(z3.And(ins, a == n), z3.And(self.OK(s, i), self.ITEMS(s, i) == z3.Empty(SEQ2))))
        c.fact(z3.Implies(z3.And(ins, a < n), z3.And(
            self.OK(s, i) == z3.And(b > a, z3.Or(x == n, z3.And(s[x] == 44, self.OK(s, x + 1)))),
            self.ITEMS(s, i) == z3.Concat(z3.Unit(sub(s, a, b - a)), z3.If(x == n, z3.Empty(SEQ2), self.ITEMS(s, x + 1))))))
TOKENS = Grammar('token_list', T); PROTOCOLS = Grammar('protocol_list', proto_end)

def list_proof(c, fn, lname, gr):
    setup(c)
    st = c.str('header'); s = st.t; n = z3.Length(s)
    z = z3.IntVal(0)
    def inv(L):
        p = L.t('index'); gr.unfold(L.ctx, s, p)
        return {'bounds': z3.And(p >= 0, p <= n), 'well-formed exactly when the rest is': gr.OK(s, z) == gr.OK(s, p),
            'items so far and the rest': gr.ITEMS(s, z) == z3.Concat(L.result.as_term(StrC), gr.ITEMS(s, p))}
    loop(c, lname, 0, Loop(inv=inv, dec=lambda L: n - L.t('index'), lists={'result': StrC}))
    r = attempt(c, fn, st)
    if r.raised:
        only_raises(c, r, ValueError); c.prove('refused only when not well-formed', z3.Not(gr.OK(s, z))); return
    c.prove('well-formed', gr.OK(s, z))
    c.prove('exactly the listed items, in order', r.value.as_term(StrC) == gr.ITEMS(s, z))

@proof('connection headers and sub-protocol headers: the items, or a value error')
def _(c): list_proof(c, H.parse_connections if c.choose(2) else H.parse_subprotocols, 'parse_connections', TOKENS)

@proof('upgrade headers: the items, or a value error')
def _(c): list_proof(c, H.parse_upgrades, 'parse_upgrades', PROTOCOLS)

# ---- extensions
OPTS = OptC(StrC); PAR = TupleC([StrC, OPTS]); SEQP = z3.SeqSort(PAR.sort)
none = OPTS.sort.constructor(0)(); some = OPTS.sort.constructor(1)
def par(k, v): return PAR.sort.constructor(0)(k, v)
EXT = z3.Datatype('Extension'); EXT.declare('mkExtension', ('ext_name', SEQ), ('ext_params', SEQP)); EXT = EXT.create()
mkext = EXT.constructor(0); SEQE = z3.SeqSort(EXT)
class ExtC_(Codec):
    """(name, list of parameters): the list is still being filled, so its final content is a prophecy, resolved when nothing holds the list any more"""
    sort = EXT; key = 'extension'
    def enc(self, ctx, v):
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], LList)): raise Unsupported('extension')
        known = ctx.ghost.setdefault('open_lists', {})
        l = v[1]
        if l.oid not in known: known[l.oid] = (l, ctx.fresh('final_parameters', SEQP))
        return mkext(StrC.enc(ctx, v[0]), known[l.oid][1])
ExtC = ExtC_()
def close_lists(ctx):
    for l, f in ctx.ghost.pop('open_lists', {}).values(): ctx.assume(f == l.as_term(PAR))

POK = z3.Function('params_well_formed', SEQ, I, B, B); PITEMS = z3.Function('params', SEQ, I, B, SEQP); PEND = z3.Function('params_end', SEQ, I, B, I)
EOK = z3.Function('extensions_well_formed', SEQ, I, B); EITEMS = z3.Function('extensions', SEQ, I, SEQE)
TR, FA = z3.BoolVal(True), z3.BoolVal(False)
E0 = z3.Empty(SEQP)
def unfold_params(c, s, i, f):
    """the parameters from i on; f: a separator is due"""
    n = z3.Length(s)
    def alts(me, *cs):
        """first condition that holds decides; (cond, ok, items, end)"""
        before = [z3.And(0 <= i, i <= n)]
        for cond, ok, items, end in cs:
            g = z3.And(*before, cond)
            c.fact(z3.Implies(g, POK(s, i, me) == ok))
            if items is not None: c.fact(z3.Implies(z3.And(g, ok), z3.And(PITEMS(s, i, me) == items, PEND(s, i, me) == end)))
            before.append(z3.Not(cond))
    if not z3.is_false(f):
        j = SP(c, s, i)
        alts(TR, (j == n, TR, E0, n), (s[j] == 44, TR, E0, j + 1), (s[j] != 59, FA, None, None), (TR, POK(s, j + 1, FA), PITEMS(s, j + 1, FA), PEND(s, j + 1, FA)))
    if not z3.is_true(f):
        j = SP(c, s, i); k = T(c, s, j); m = SP(c, s, k); v = SP(c, s, m + 1); w = T(c, s, v); w2 = T(c, s, v + 1)
        key = sub(s, j, k - j)
        p0 = z3.Unit(par(key, none)); p1 = z3.Unit(par(key, some(sub(s, v, w - v)))); p2 = z3.Unit(par(key, some(sub(s, v + 1, w2 - v - 1))))
        ok2 = z3.And(w2 > v + 1, w2 < n, s[w2] == 34)
        alts(FA, (j == n, TR, E0, n), (k == j, FA, None, None), (m == n, TR, p0, n), (s[m] == 44, TR, p0, m + 1),
            (s[m] == 59, POK(s, m + 1, FA), z3.Concat(p0, PITEMS(s, m + 1, FA)), PEND(s, m + 1, FA)), (s[m] != 61, FA, None, None), (v == n, FA, None, None),
            (s[v] == 34, z3.And(ok2, POK(s, w2 + 1, TR)), z3.Concat(p2, PITEMS(s, w2 + 1, TR)), PEND(s, w2 + 1, TR)), (w == v, FA, None, None),
            (TR, POK(s, w, TR), z3.Concat(p1, PITEMS(s, w, TR)), PEND(s, w, TR)))
def unfold_ext(c, s, i):
    n = z3.Length(s); a = LS(c, s, i); b = T(c, s, a)
    ins = z3.And(0 <= i, i <= n)
    c.fact(z3.Implies(z3.And(ins, a == n), z3.And(EOK(s, i), EITEMS(s, i) == z3.Empty(SEQE))))
    c.fact(z3.Implies(z3.And(ins, a < n), z3.And(EOK(s, i) == z3.And(b > a, POK(s, b, TR), EOK(s, PEND(s, b, TR))),
        z3.Implies(z3.And(b > a, POK(s, b, TR)), EITEMS(s, i) == z3.Concat(z3.Unit(mkext(sub(s, a, b - a), PITEMS(s, b, TR))), EITEMS(s, PEND(s, b, TR)))))))

@proof('extension headers: the extensions with their parameters, or a value error')
def _(c):
    setup(c)
    st = c.str('header'); s = st.t; n = z3.Length(s); z = z3.IntVal(0)
    def inv(L):
        p = L.t('index'); unfold_ext(L.ctx, s, p); close_lists(L.ctx)
        return {'bounds': z3.And(p >= 0, p <= n), 'a separator is due': truth(L.ctx, L.check_start), 'well-formed exactly when the rest is': EOK(s, z) == EOK(s, p),
            'extensions so far and the rest': z3.Implies(EOK(s, p), EITEMS(s, z) == z3.Concat(L.result.as_term(ExtC), EITEMS(s, p)))}
    loop(c, 'parse_extensions', 0, Loop(inv=inv, dec=lambda L: n - L.t('index'), lists={'result': ExtC}))
    def entry(L): return {'b': L.t('index')}
    def inv2(L):
        p = L.t('index'); f = truth(L.ctx, L.check_start); b = L.b
        if c.ghost.get('head'):        # the definition is used for the rest at the head of the loop only
            f = z3.BoolVal(L.ctx.branch(f))
            unfold_params(L.ctx, s, p, f)
            if z3.is_true(f): unfold_params(L.ctx, s, SP(L.ctx, s, p) + 1, FA)
            unfold_ext(L.ctx, s, n)
        return {'bounds': z3.And(p >= b, p <= n), 'well-formed exactly when the rest is': POK(s, b, TR) == POK(s, p, f),
            'parameters so far and the rest': z3.Implies(POK(s, p, f), z3.And(PITEMS(s, b, TR) == z3.Concat(L.sub_parts.as_term(PAR), PITEMS(s, p, f)), PEND(s, b, TR) == PEND(s, p, f)))}
    loop(c, 'parse_extensions', 1, Loop(inv=inv2, on_entry=entry, dec=lambda L: n - L.t('index'), lists={'sub_parts': PAR}, havoc=lambda L: c.ghost.update(head=True), on_step=lambda L: c.ghost.update(head=False)))
    r = attempt(c, H.parse_extensions, st)
    if r.raised:
        only_raises(c, r, ValueError); c.prove('refused only when not well-formed', z3.Not(EOK(s, z))); return
    close_lists(c)
    c.prove('well-formed', EOK(s, z))
    c.prove('exactly the extensions, in order', r.value.as_term(ExtC) == EITEMS(s, z))

# ---- building, and reading what was built
JOIN = z3.Function('join', SEQ, SEQ2, SEQ)      # str.join
COMMA, SEMI = lit(', '), lit('; ')

@proof('a sub-protocol header is the items joined')
def _(c):
    t = c.fresh('protocols', SEQ2)
    r = attempt(c, H.build_subprotocols, LList(c, seq=t, codec=StrC))
    no_raise(c, r)
    c.prove('joined', sterm(r.value) == JOIN(COMMA, t))

class ExtI(Iface):
    name = 'extension'
    NAME = z3.Function('extension_name', OBJ, SEQ); PRMS = z3.Function('extension_parameters', OBJ, SEQP)
    def get_name(self, ctx, o): return SSeq(self.NAME(o.t), 'str')
    def get_request_params(self, ctx, o): return LList(ctx, seq=self.PRMS(o.t), codec=PAR, kind='tuple')
EXTI = ExtI(); EXTO = ObjC(EXTI)
KV = z3.Function('parameter_text', PAR.sort, SEQ)
def def_kv(c, p):
    k, v = PAR.sort.accessor(0, 0)(p), PAR.sort.accessor(0, 1)(p)
    c.fact(KV(p) == z3.If(OPTS.sort.recognizer(0)(v), k, z3.Concat(k, lit('='), OPTS.sort.accessor(1, 0)(v))))
KVS = z3.Function('parameter_texts', SEQP, I, SEQ2)      # of the first parameters
def def_kvs(c, t, i):
    c.fact(KVS(t, z3.IntVal(0)) == z3.Empty(SEQ2))
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(t)), KVS(t, i + 1) == z3.Concat(KVS(t, i), z3.Unit(KV(t[i])))))
    def_kv(c, t[i])
TEXT = z3.Function('extension_text', OBJ, SEQ)
def def_text(c, o): c.fact(TEXT(o) == JOIN(SEMI, z3.Concat(z3.Unit(EXTI.NAME(o)), KVS(EXTI.PRMS(o), z3.Length(EXTI.PRMS(o))))))
SEQO_ = z3.SeqSort(OBJ)
TEXTS = z3.Function('extension_texts', SEQO_, I, SEQ2)
def def_texts(c, t, i):
    c.fact(TEXTS(t, z3.IntVal(0)) == z3.Empty(SEQ2))
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(t)), TEXTS(t, i + 1) == z3.Concat(TEXTS(t, i), z3.Unit(TEXT(t[i])))))
    def_text(c, t[i])

@proof('an extension header is the extensions with their parameters, joined')
def _(c):
    t = c.fresh('extensions', SEQO_)
    def inv(L):
        def_texts(L.ctx, t, L._i)
        return {'texts so far': L.main_parts.as_term(StrC) == TEXTS(t, L._i), 'nothing half done': z3.Length(L.sub_parts.as_term(StrC)) == 0}
    loop(c, 'build_extensions', 0, Loop(inv=inv, lists={'main_parts': StrC, 'sub_parts': StrC}))
    def entry(L): return {'first': L.sub_parts.as_term(StrC)}
    def inv2(L):
        p = L.parameters.as_term(PAR); def_kvs(L.ctx, p, L._i)
        return {'name and parameters so far': L.sub_parts.as_term(StrC) == z3.Concat(L.first, KVS(p, L._i))}
    loop(c, 'build_extensions', 1, Loop(inv=inv2, on_entry=entry, lists={'sub_parts': StrC}))
    r = attempt(c, H.build_extensions, LList(c, seq=t, codec=EXTO))
    no_raise(c, r)
    c.prove('joined', sterm(r.value) == JOIN(COMMA, TEXTS(t, z3.Length(t))))

def token_at(c, s, a, b):
    """the characters [a, b) are those of a token: stated where the run from a ends and at its start"""
    r = T(c, s, a)
    c.assume(a < b, tchar(s[a]), z3.Implies(z3.And(a <= r, r < b), tchar(s[r])))
    T.inside(c, s, a, b)
def starts(c, s, i):
    """no blank or separator at i: nothing is skipped there"""
    LS.inside(c, s, i, i); SP.inside(c, s, i, i); LS(c, s, i); SP(c, s, i)

# the lemmas are about any text s and positions in it: what stands there is the join of the items from that place on
@proof('lemma: reading joined tokens gives the tokens (induction over the items)')
def _(c):
    s = c.fresh('s', SEQ); n = z3.Length(s); i = c.fresh('i', I); e = c.fresh('e', I)
    c.assume(0 <= i, e <= n); token_at(c, s, i, e)
    gr = TOKENS; last = c.choose(2)
    if last: c.assume(e == n)
    else:
        c.assume(e + 2 < n, s[e] == 44, s[e + 1] == 32, tchar(s[e + 2]), gr.OK(s, e + 2))       # induction hypothesis
        starts(c, s, e); gr.unfold(c, s, e + 1); gr.unfold(c, s, e + 2); LS.inside(c, s, e + 1, e + 1); LS.inside(c, s, e + 1, e + 2); starts(c, s, e + 2)
    gr.unfold(c, s, i); starts(c, s, i)
    c.prove('well-formed', gr.OK(s, i))
    c.prove('the items', gr.ITEMS(s, i) == (z3.Unit(sub(s, i, e - i)) if last else z3.Concat(z3.Unit(sub(s, i, e - i)), gr.ITEMS(s, e + 2))))

@proof('lemma: reading joined parameters gives the parameters (induction over the parameters)')
def _(c):
    # at i: the end, a comma, or "; " and a parameter up to w, where the same holds (induction hypothesis)
    s = c.fresh('s', SEQ); n = z3.Length(s); i, w, m = (c.fresh(k, I) for k in 'iwm')
    c.assume(0 <= i, i <= n); starts(c, s, i)
    k = c.choose(3)
    unfold_params(c, s, i, TR)
    if k == 0:
        c.assume(z3.Or(i == n, s[i] == 44))
        c.prove('well-formed', POK(s, i, TR)); c.prove('none', PITEMS(s, i, TR) == E0)
        c.prove('ends behind the comma', PEND(s, i, TR) == z3.If(i == n, n, i + 1)); return
    c.assume(s[i] == 59, s[i + 1] == 32, i + 2 < n, w <= n, z3.Or(w == n, s[w] == 44, s[w] == 59), POK(s, w, TR))
    unfold_params(c, s, i + 1, FA); unfold_params(c, s, w, TR); starts(c, s, w)
    SP(c, s, i + 1); SP.inside(c, s, i + 1, i + 1); SP.inside(c, s, i + 1, i + 2); starts(c, s, i + 2)
    if k == 1: c.assume(m == w)
    else: c.assume(s[m] == 61, m < w); token_at(c, s, m + 1, w); starts(c, s, m); starts(c, s, m + 1)
    token_at(c, s, i + 2, m)
    v = none if k == 1 else some(sub(s, m + 1, w - m - 1))
    c.prove('well-formed', POK(s, i, TR))
    c.prove('the parameters', PITEMS(s, i, TR) == z3.Concat(z3.Unit(par(sub(s, i + 2, m - i - 2), v)), PITEMS(s, w, TR)))
    c.prove('ends where the rest ends', PEND(s, i, TR) == PEND(s, w, TR))

@proof('lemma: reading joined extensions gives the extensions (induction over the extensions)')
def _(c):
    # a name up to b, its parameters (lemma above), then the end or ", " and the rest (induction hypothesis)
    s = c.fresh('s', SEQ); n = z3.Length(s); i, b = (c.fresh(k, I) for k in 'ib')
    c.assume(0 <= i, b <= n, z3.Or(b == n, s[b] == 44, s[b] == 59)); token_at(c, s, i, b)
    e = PEND(s, b, TR); c.assume(POK(s, b, TR))
    unfold_ext(c, s, i); unfold_ext(c, s, e); starts(c, s, i)
    if c.choose(2): c.assume(e == n); rest = z3.Empty(SEQE)
    else:
        c.assume(0 <= e, e + 1 < n, s[e] == 32, tchar(s[e + 1]), EOK(s, e + 1)); rest = EITEMS(s, e + 1)
        unfold_ext(c, s, e + 1); LS.inside(c, s, e, e); LS.inside(c, s, e, e + 1); starts(c, s, e + 1)
    c.prove('well-formed', EOK(s, i))
    c.prove('the extensions', EITEMS(s, i) == z3.Concat(z3.Unit(mkext(sub(s, i, b - i), PITEMS(s, b, TR))), rest))

# ---------------------------------------------------------------- native
RULE = 'lists of items built and parsed back; header texts of tokens, separators, blanks, quotes and broken forms against an independent reader; distinct by text'
SEARCH_S = 5
TK = "[-!#$%&'*+.^_`|~0-9A-Za-z]+"
def ref_list(t, item):
    out = []; p = 0
    while True:
        p = re.compile('[ \\t,]*').match(t, p).end()
        if p == len(t): return out
        m = re.compile(item).match(t, p)
        if not m: return None
        out.append(m.group()); p = re.compile('[ \\t]*').match(t, m.end()).end()
        if p == len(t): return out
        if t[p] != ',': return None
        p += 1
def ref_ext(t):
    """reads an extension list: split on the (unquotable) separators"""
    out = []; parts = t.split(',')
    for e in parts:
        e = e.strip(' \t')
        if not e: continue
        ps = e.split(';'); name = ps[0].rstrip(' \t')
        if not re.fullmatch(TK, name): return None
        params = []
        for j, p in enumerate(ps[1:]):
            p = p.strip(' \t')
            if not p:
                if j == len(ps) - 2 and e is parts[-1].strip(' \t'): continue
                if j == len(ps) - 2: return 'skip'
                return None
            m = re.fullmatch(f'({TK})[ \\t]*(?:=[ \\t]*(?:({TK})|"({TK})"))?', p)
            if not m: return None
            params.append((m.group(1), m.group(2) or m.group(3)))
        out.append((name, params))
    return out
def tk(rng): return ''.join(rng.choice("aB9-_!~'") for _ in range(rng.choice([1, 1, 2, 3])))
def bl(rng): return rng.choice(['', '', '', ' ', '\t'])
def cases(rng, part, parts):
    while True:
        k = rng.choice(['conn', 'up', 'ext', 'ext', 'build', 'buildx'])
        if k == 'build': yield [k, [tk(rng) for _ in range(rng.randint(0, 4))]]; continue
        if k == 'buildx':
            yield [k, [[tk(rng), [[tk(rng), rng.choice([None, tk(rng)])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]] for _ in range(rng.randint(0, 4))]]; continue
        t = ''
        for _ in range(rng.randint(0, 3)):
            t += bl(rng) + tk(rng)
            if k == 'up' and rng.random() < .5: t += '/' + rng.choice([tk(rng), tk(rng), ''])
            if k == 'ext':
                for _ in range(rng.choice([0, 1, 1, 2])):
                    t += bl(rng) + ';' + bl(rng) + rng.choice([tk(rng)] * 8 + [''])
                    if rng.random() < .6: t += bl(rng) + '=' + bl(rng) + rng.choice([tk(rng), '"' + tk(rng) + '"'])
            t += bl(rng) + ','
        if t and rng.random() < .7: t = t[:-1]
        if rng.random() < .3 and t:
            j = rng.randint(0, len(t)); r = rng.random()
            t = t[:j] + rng.choice([',', ';', '=', '"', '/', '\xe9', ' ', '']) + t[j + (r < .5):]
        yield [k, t]
def check_case(case):
    k, t = case
    if k == 'build':
        if H.parse_subprotocols(H.build_subprotocols(t)) != t: return f'{t!r} is read back as {H.parse_subprotocols(H.build_subprotocols(t))!r}'
        return None
    if k == 'buildx':
        want = [(a, [tuple(p) for p in b]) for a, b in t]
        h = H.build_extensions([SimpleNamespace(name=a, request_params=b) for a, b in want])
        try: got = H.parse_extensions(h)
        except ValueError as e: return f'{want!r} is written as {h!r}, refused with {e!r}'
        if got != want: return f'{want!r} is written as {h!r}, read back as {got!r}'
        return None
    fn = {'conn': H.parse_connections, 'up': H.parse_upgrades, 'ext': H.parse_extensions}[k]
    want = ref_ext(t) if k == 'ext' else ref_list(t, TK + (f'(?:/{TK})?' if k == 'up' else ''))
    try: got = fn(t)
    except ValueError as e: got = None
    except Exception as e: return f'{fn.__name__}({t!r}): raises {e!r}'
    if want == 'skip': return None
    if got != want: return f'{fn.__name__}({t!r}): {"refused" if got is None else repr(got)}, should be {"refused" if want is None else repr(want)}'
def shrink(case):
    k, t = case
    for j in range(len(t)): yield [k, t[:j] + t[j + 1:]]
