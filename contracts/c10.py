"""C10: content-type parsing is total and reads RFC 7231 media types."""
import re
from pv.lib import *
import scarletio.web_common.content_type as CT
from scarletio.web_common.content_type import ContentType, ContentTypeParsingError
from scarletio.utils import MultiValueDictionary

PROOFS, proof = proof_registry()
TRUSTED = ['setting an item of a multi-value dictionary adds the value behind the others of its key (C01)', 'str.casefold is a function of the text']
DESIGN = '''A media type is described by positions in the text (type, sub-type, suffix) and, recursively, parameters from a position on: white space, name,
"=", token or quoted value, white space, then the end or ";" and further parameters. The scanners are proved against the classes of characters they
stop at (for every text and position), the quoted string against its recursive value; the head and the parameter loop (by an invariant relating what
is read so far and the rest) against the description. Totality: no text raises, each loop has a variant; a parsing error ends the reading.'''

SEQ2 = z3.SeqSort(SEQ)
def ws(x): return z3.Or(x == 32, x == 9)
DELIMS = ',:;(){}[]<>\'"\\?@=/ \t'
def tokc(x, no=''): return z3.And(*[x != ord(k) for k in sorted(set(DELIMS) | set(no))])

# ---- the value of a quoted string from a position on (behind the opening quote)
QV = z3.Function('quoted_value', SEQ, I, SEQ)
QE = z3.Function('quoted_end', SEQ, I, I)
QC = z3.Function('quoted_closed', SEQ, I, B)
def unfold_q(c, s, i):
    n = z3.Length(s); x = s[i]; y = s[i + 1]; ch = z3.Unit(x)
    two = z3.And(x == 92, i + 1 < n)
    c.fact(z3.Implies(i >= n, z3.And(QV(s, i) == z3.Empty(SEQ), QE(s, i) == i, z3.Not(QC(s, i)))))
    c.fact(z3.Implies(z3.And(0 <= i, i < n), z3.And(
        z3.Implies(x == 34, z3.And(QV(s, i) == z3.Empty(SEQ), QE(s, i) == i + 1, QC(s, i))),
        z3.Implies(two, z3.And(QV(s, i) == z3.If(z3.Or(y == 34, y == 92), z3.Concat(z3.Unit(y), QV(s, i + 2)), z3.Concat(ch, z3.Unit(y), QV(s, i + 2))), QE(s, i) == QE(s, i + 2), QC(s, i) == QC(s, i + 2))),
        z3.Implies(z3.And(x != 34, z3.Not(two)), z3.And(QV(s, i) == z3.Concat(ch, QV(s, i + 1)), QE(s, i) == QE(s, i + 1), QC(s, i) == QC(s, i + 1))))))

# ---- proofs of the scanners
def scan_proof(c, call, lname, pred):
    st = c.str('string'); s = st.t; n = z3.Length(s)
    i = c.int('index'); c.assume(i.t >= 0, i.t <= n)
    k = c.fresh('k', I); c.assume(k >= i.t, k < n)
    def inv(L):
        p = L.t('index')
        return {'bounds': z3.And(p >= i.t, p <= n), 'only what may be skipped': z3.Implies(k < p, pred(s[k]))}
    loop(c, lname, 0, Loop(inv=inv, dec=lambda L: n - L.t('index')))
    r = attempt(c, call, st, i, SInt(n))
    no_raise(c, r)
    return s, n, i.t, k, r.value

@proof('white space is skipped, and nothing else')
def _(c):
    s, n, i, k, v = scan_proof(c, CT._consume_whitespace, '_consume_whitespace', ws)
    r = iterm(v)
    c.prove('in bounds', z3.And(i <= r, r <= n))
    c.prove('only white space', z3.Implies(k < r, ws(s[k])))
    c.prove('all of it', z3.Or(r == n, z3.Not(ws(s[r]))))

STOPS = (None, ';/', ';+', ';', ';=')
@proof('a token is the longest run of token characters')
def _(c):
    no = STOPS[c.choose(5)]
    s, n, i, k, v = scan_proof(c, lambda_call(c, CT._parse_token, no), '_parse_token', lambda x: tokc(x, no or ''))
    c.prove('position and token', bv(isinstance(v, tuple) and len(v) == 2))
    r = iterm(v[0])
    c.prove('in bounds', z3.And(i <= r, r <= n))
    c.prove('only token characters', z3.Implies(k < r, tokc(s[k], no or '')))
    c.prove('all of them', z3.Or(r == n, z3.Not(tokc(s[r], no or ''))))
    if v[1] is None: c.prove('none instead of an empty token', r == i)
    else: c.prove('the token', z3.And(r > i, sterm(v[1]) == sub(s, i, r - i)))

def lambda_call(c, fn, no):
    import functools
    class F(Iface):
        def call(self, ctx, o, args, kwargs): return ctx.it.call(fn, [*args, no], {})
    return Opaque(c.fresh('f', OBJ), F())

def collected_shape(ctx):
    if ctx.choose(2): return LList(ctx, seq=ctx.fresh('collected', SEQ2), codec=StrC)
    return None
def joined(ctx, v): return z3.Empty(SEQ) if v is None else flat_term(ctx, v.as_term(StrC))

@proof('a quoted string is decoded exactly')
def _(c):
    st = c.str('string'); s = st.t; n = z3.Length(s)
    i = c.int('index'); c.assume(i.t >= 0, i.t <= n); i = i.t
    unfold_q(c, s, i)
    def inv(L):
        p = L.t('index'); e = truth(L.ctx, L.last_escape)
        q = z3.If(e, p - 1, p)
        unfold_q(L.ctx, s, p); unfold_q(L.ctx, s, p - 1)
        v = L.collected
        return {'bounds': z3.And(p >= i, p <= n), 'escaped': z3.Implies(e, z3.And(p > i, s[p - 1] == 92)),
            'value': z3.Concat(joined(L.ctx, v), QV(s, q)) == QV(s, i), 'end': z3.And(QE(s, q) == QE(s, i), QC(s, q) == QC(s, i)),
            'not closed yet': bv(L.expected is None), 'nothing collected': bv(True) if v is None else z3.And(z3.Length(v.as_term(StrC)) > 0)}
    loop(c, '_parse_quoted', 0, Loop(inv=inv, dec=lambda L: n - L.t('index') + 1, shapes={'collected': collected_shape}))
    r = attempt(c, CT._parse_quoted, st, SInt(i), SInt(n))
    no_raise(c, r)
    v = r.value
    c.prove('three', bv(isinstance(v, tuple) and len(v) == 3))
    got = z3.Empty(SEQ) if v[1] is None else sterm(v[1])
    c.prove('the value', got == QV(s, i))
    c.prove('behind the closing quote', iterm(v[0]) == QE(s, i))
    c.prove('a missing quote is told, and nothing else', QC(s, i) == bv(v[2] is None))

@proof('lemma: the end of a quoted string is inside the text')
def _(c):
    s = c.fresh('s', SEQ); n = z3.Length(s); i = c.fresh('i', I)
    c.assume(i >= 0, i <= n)
    unfold_q(c, s, i)
    for d in (1, 2): c.assume(z3.Implies(i + d <= n, z3.And(QE(s, i + d) >= i + d, QE(s, i + d) <= n)))
    c.prove('inside', z3.And(QE(s, i) >= i, QE(s, i) <= n))

# ---- contracts of the scanners
def at(c, s):
    """marks: (position) and segments (lo, hi, predicate) of the described text; instantiated where a scan ends"""
    return c.ghost.setdefault('segments', [])
def scanned(c, s, i, r, pred):
    n = z3.Length(s)
    c.fact(z3.And(i <= r, r <= n, z3.Or(r == n, z3.Not(pred(s[r])))))
    for lo, hi, p, cond in c.ghost.get('segments', []):
        c.fact(z3.Implies(z3.And(cond, lo <= r, r < hi), p(s[r])))
        for m in (lo, hi): c.fact(z3.Implies(z3.And(i <= m, m < r), pred(s[m])))
        for a, b, *_ in c.ghost.get('segments', []):
            if a is not lo: c.fact(z3.Implies(z3.And(cond, lo <= a, a < hi), p(s[a])))
            if b is not hi: c.fact(z3.Implies(z3.And(cond, lo <= b, b < hi), p(s[b])))
def contracts(c):
    def bounds(ctx, st, i, e):
        ctx.prove('scanning inside the text', z3.And(iterm(i) >= 0, iterm(i) <= iterm(e), iterm(e) == z3.Length(sterm(st))))
    def h_ws(ctx, st, i, e):
        bounds(ctx, st, i, e)
        s = sterm(st); r = ctx.fresh('p', I); scanned(ctx, s, iterm(i), r, ws)
        return SInt(r)
    def h_tok(ctx, st, i, e, no):
        bounds(ctx, st, i, e)
        if not (no is None or isinstance(no, str)): raise Unsupported('disallowed')
        s = sterm(st); r = ctx.fresh('p', I); scanned(ctx, s, iterm(i), r, lambda x: tokc(x, no or ''))
        if ctx.branch(r == iterm(i)): return (SInt(r), None)
        return (SInt(r), SSeq(sub(s, iterm(i), r - iterm(i)), 'str'))
    def h_q(ctx, st, i, e):
        bounds(ctx, st, i, e)
        s = sterm(st); i = iterm(i); n = z3.Length(s)
        unfold_q(ctx, s, i)
        ctx.fact(z3.And(QE(s, i) >= i, QE(s, i) <= n))
        v = QV(s, i)
        val = None if ctx.branch(z3.Length(v) == 0) else SSeq(v, 'str')
        return (SInt(QE(s, i)), val, None if ctx.branch(QC(s, i)) else '"')
    use(c, CT._consume_whitespace, h_ws); use(c, CT._parse_token, h_tok); use(c, CT._parse_quoted, h_q)

class ParamsI(Iface):
    name = 'parameters'
    def setitem(self, ctx, o, k, v):
        ctx.ghost['params'] = z3.Concat(ctx.ghost['params'], z3.Unit(sterm(k)), z3.Unit(sterm(v)))
PARAMS_I = ParamsI()

# ---- the described parameters from a position on
WF = z3.Function('parameters_well_formed', SEQ, I, B)
PARAMS = z3.Function('parameters', SEQ, I, SEQ2)
KA, KB, VA, VB, NX = (z3.Function('param_' + k, SEQ, I, I) for k in ('key_start', 'key_end', 'value_start', 'value_end', 'behind'))
def unfold_p(c, s, i):
    n = z3.Length(s); a, b, v, w, x = (f(s, i) for f in (KA, KB, VA, VB, NX))
    q = z3.And(v < n, s[v] == 34)
    unfold_q(c, s, v + 1)
    c.fact(PARAMS(s, n) == z3.Empty(SEQ2)); c.fact(z3.Implies(i >= n, PARAMS(s, i) == z3.Empty(SEQ2)))
    val = z3.If(q, QV(s, v + 1), sub(s, v, w - v))
    wf = z3.And(WF(s, i), i >= 0, i < n)
    c.fact(z3.Implies(wf, z3.And(i <= a, a < b, b < v, v < w, w <= x, x <= n, v == b + 1, b < n, s[b] == 61,
        z3.If(q, z3.And(QC(s, v + 1), w == QE(s, v + 1)), bv(True)),
        z3.Or(x == n, s[x] == 59), z3.Implies(x < n, WF(s, x + 1)),
        tokc(s[a]), z3.Implies(z3.Not(q), tokc(s[v])),
        PARAMS(s, i) == z3.Concat(z3.Unit(models.CASEFOLD(sub(s, a, b - a))), z3.Unit(val), PARAMS(s, z3.If(x < n, x + 1, x))))))
    c.ghost['segments'] = [(i, a, ws, wf), (a, b, tokc, wf), (v, w, tokc, z3.And(wf, z3.Not(q))), (w, x, ws, wf)]

def fold(v): return None if v is None else sterm(v)

def parameter_post(ctx, s, i, r):
    """what reading one parameter at i gives -> (read on, well-formed)"""
    n = z3.Length(s); x = NX(s, i); v = VA(s, i)
    p = iterm(r[0])
    q = z3.And(v < n, s[v] == 34)
    val = z3.If(q, QV(s, v + 1), sub(s, v, VB(s, i) - v))
    same = lambda got, want: z3.Length(want) == 0 if got is None else sterm(got) == want
    return z3.And(p >= i, p <= n, z3.Implies(bv(r[3] is None), z3.And(p > i, z3.Or(p == n, s[p - 1] == 59)))), z3.And(
        p == z3.If(x < n, x + 1, x), bv(r[1] is not None and r[3] is None), same(r[1], sub(s, KA(s, i), KB(s, i) - KA(s, i))), same(r[2], val))

@proof('one parameter: the key and the value that are there')
def _(c):
    st = c.str('string'); s = st.t; n = z3.Length(s); c.assume(n > 0)
    contracts(c)
    i = c.int('index'); c.assume(i.t >= 0, i.t < n)
    unfold_p(c, s, i.t)
    r = attempt(c, CT._parse_parameter, st, i, SInt(n))
    no_raise(c, r)
    c.prove('four', bv(isinstance(r.value, tuple) and len(r.value) == 4))
    on, form = parameter_post(c, s, i.t, r.value)
    c.prove('reads on in the text', on)
    c.prove('the described parameter', z3.Implies(WF(s, i.t), form))

def parameter_contract(ctx, st, i, e):
    """proved above"""
    s = sterm(st); i = iterm(i); n = z3.Length(s)
    ctx.prove('reading a parameter inside the text', z3.And(i >= 0, i < n, iterm(e) == n))
    opt = lambda k: SSeq(ctx.fresh(k, SEQ), 'str') if ctx.choose(2) else None
    r = (SInt(ctx.fresh('behind', I)), opt('key'), opt('value'), None if ctx.choose(2) else ';')
    on, form = parameter_post(ctx, s, i, r)
    unfold_p(ctx, s, i)
    ctx.assume(on, z3.Implies(WF(s, i), form))
    return r

@proof('parameters: exactly those that are there, in order; an error ends the reading')
def _(c):
    st = c.str('string'); s = st.t; n = z3.Length(s); c.assume(n > 0)
    use(c, CT._parse_parameter, parameter_contract)
    i0 = c.int('start'); c.assume(i0.t >= 0, i0.t <= n)
    g = c.ghost; g['params'] = z3.Empty(SEQ2)
    use(c, MultiValueDictionary, lambda ctx: Opaque(ctx.fresh('parameters', OBJ), PARAMS_I))
    typ, sb, suf = (c.str(k) if c.choose(2) else None for k in ('type', 'sub_type', 'suffix'))
    bad = c.choose(2)
    def head(ctx, a, b, e):
        ctx.prove('the whole text is read', z3.And(eqv(ctx, a, st), iterm(b) == 0, iterm(e) == n))
        return (i0, typ, sb, suf, ';/' if bad else None)
    use(c, CT._parse_head, head)
    def inv(L):
        p = L.t('index'); unfold_p(L.ctx, s, p)
        v = L.parameters
        return {'bounds': z3.And(p >= i0.t, p >= 0, p < n),
            'read so far and the rest': z3.Implies(WF(s, i0.t), z3.And(WF(s, p), z3.Concat(g['params'], PARAMS(s, p)) == PARAMS(s, i0.t))),
            'no error so far': bv(L.expected is None), 'created with the first': bv(v is not None) == (z3.Length(g['params']) > 0)}
    def havoc(L): g['params'] = L.ctx.fresh('params', SEQ2)
    loop(c, '_parse_content_type', 0, Loop(inv=inv, dec=lambda L: n - L.t('index'), havoc=havoc,
        shapes={'parameters': lambda ctx: Opaque(ctx.fresh('parameters', OBJ), PARAMS_I) if ctx.choose(2) else None}))
    unfold_p(c, s, i0.t)
    r = attempt(c, CT._parse_content_type, st)
    no_raise(c, r)
    v = r.value
    c.prove('five', bv(isinstance(v, tuple) and len(v) == 5))
    for nm, x, y in zip(('type', 'sub-type', 'suffix'), v, (typ, sb, suf)):
        if y is None:
            if nm == 'sub-type' and typ is not None: c.prove('no sub-type, or any for any type', bv(x is None) if x is None or not isinstance(x, str) else z3.And(bv(x == '*'), models.CASEFOLD(typ.t) == lit('*')))
            else: c.prove(f'no {nm}', bv(x is None))
        else: c.prove(f'{nm} lower-cased', eqv(c, x, SSeq(models.CASEFOLD(y.t), 'str')))
    c.prove('parameters or none', (z3.Length(g['params']) > 0) == bv(isinstance(v[3], Opaque)))
    if bad: c.prove('an error in the head ends the reading', z3.And(bv(v[4] is not None), z3.Length(g['params']) == 0))
    else: c.prove('exactly the parameters', z3.Implies(WF(s, i0.t), z3.And(g['params'] == PARAMS(s, i0.t), bv(v[4] is None))))
    if v[4] is not None: c.prove('the error tells the text and a position in it', z3.And(eqv(c, v[4][0], st), iterm(v[4][1]) >= 0, iterm(v[4][1]) <= n))

@proof('the head is type / sub-type + suffix')
def _(c):
    st = c.str('string'); s = st.t; n = z3.Length(s); c.assume(n > 0)
    contracts(c)
    a, b, u, v, w = (c.fresh(k, I) for k in ('type_start', 'type_end', 'sub_type_end', 'suffix_end', 'behind'))
    form = c.choose(4)       # arbitrary text; type / sub-type; with suffix; a type alone
    noplus = lambda x: tokc(x, '+')
    if form: c.assume(0 <= a, a < b, b <= u, u <= v, v <= w, w <= n, tokc(s[a]), z3.Or(w == n, s[w] == 59))
    T = z3.BoolVal(True)
    if form in (1, 2): c.assume(b < n, s[b] == 47, b + 1 < u, noplus(s[b + 1]))
    if form == 1: c.assume(u == v); segs = [(b + 1, u, noplus, T)]
    if form == 2: c.assume(u < n, s[u] == 43, u + 1 < v, tokc(s[u + 1])); segs = [(b + 1, u, noplus, T), (u + 1, v, tokc, T)]
    if form == 3: c.assume(b == u, b == v); segs = []
    if form: c.ghost['segments'] = [(z3.IntVal(0), a, ws, T), (a, b, tokc, T), (v, w, ws, T)] + segs
    r = attempt(c, CT._parse_head, st, 0, SInt(n))
    no_raise(c, r)
    x = r.value
    c.prove('five', bv(isinstance(x, tuple) and len(x) == 5))
    p = iterm(x[0])
    c.prove('in the text', z3.And(0 <= p, p <= n))
    if not form: return
    c.prove('read', z3.And(bv(x[4] is None), p == z3.If(w < n, w + 1, w)))
    def same(name, got, lo, hi): c.prove(name, bv(got is not None) if got is None else sterm(got) == sub(s, lo, hi - lo))
    same('the type', x[1], a, b)
    if form == 3: c.prove('no sub-type', bv(x[2] is None))
    else: same('the sub-type', x[2], b + 1, u)
    if form == 2: same('the suffix', x[3], u + 1, v)
    else: c.prove('no suffix', bv(x[3] is None))

@proof('the parsed parts are handed out; nothing is an empty content type')
def _(c):
    st = None if c.choose(2) else c.str('string')
    parts = [c.str('type'), c.str('sub_type'), c.str('suffix'), Opaque(c.fresh('parameters', OBJ), PARAMS_I)]
    err = (st, c.int('index'), ';') if c.choose(2) else None
    use(c, CT._parse_content_type, lambda ctx, s_: (*parts, err))
    r = attempt(c, CT.parse_content_type, st)
    no_raise(c, r)
    c.prove('two', bv(isinstance(r.value, tuple) and len(r.value) == 2))
    ct, e = r.value
    f = [ct.fields.get(k) for k in ('type', 'sub_type', 'suffix', 'parameters')]
    if all(x is None for x in f): c.prove('only for no text', z3.And(bv(e is None), bv(st is None) if st is None else z3.Length(st.t) == 0)); return
    c.prove('the parts', bv(all(x is y for x, y in zip(f, parts))))
    if err is None: c.prove('no error', bv(e is None))
    else: c.prove('the error', bv(isinstance(e, Inst) and e.cls is ContentTypeParsingError and e.fields['string'] is st and e.fields['index'] is err[1] and e.fields['expected'] == ';'))

# ---------------------------------------------------------------- native
RULE = 'well-formed media types (tokens, quoted values with escapes, white space) against an independent regular-expression reader; the same mutated and random text for totality; distinct by text'
SEARCH_S = 5
TOKRE = '[^,:;(){}\\[\\]<>\'"\\\\?@=/ \\t]'
HEAD = re.compile(f'[ \\t]*({TOKRE}+)/((?:(?!\\+){TOKRE})+)(?:\\+({TOKRE}+))?[ \\t]*', re.S)
PARAM = re.compile(f';[ \\t]*({TOKRE}+)=(?:({TOKRE}+)|"((?:[^"\\\\]|\\\\.)*)")[ \\t]*', re.S)
def reference(text):
    """-> (parts, parameters, all read, starts well)"""
    m = HEAD.match(text)
    if m is None or (m.end() < len(text) and text[m.end()] != ';'): return None
    out = []; p = m.end()
    while p < len(text):
        k = PARAM.match(text, p)
        if k is None or (k.end() < len(text) and text[k.end()] != ';'): return m.groups(), out, text[p:].strip() == ';'
        v = k.group(2) if k.group(2) is not None else re.sub(r'\\(["\\])', r'\1', k.group(3))
        if k.group(2) is None:
            v = ''; t = k.group(3); j = 0
            while j < len(t):
                if t[j] == '\\': v += t[j + 1] if t[j + 1] in '"\\' else t[j:j + 2]; j += 2
                else: v += t[j]; j += 1
        out.append((k.group(1).casefold(), v)); p = k.end()
    return m.groups(), out, True
def tok(rng, plus=False): return ''.join(rng.choice('abAZ19-_.*!ß' + ('+' if plus else '')) for _ in range(rng.choice([1, 1, 2, 3])))
def wsx(rng): return rng.choice(['', '', '', ' ', '\t', '  '])
def cases(rng, part, parts):
    while True:
        t = wsx(rng) + tok(rng, True) + '/' + tok(rng)
        if rng.random() < .4: t += '+' + tok(rng, True)
        t += wsx(rng)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            t += ';' + wsx(rng) + tok(rng, True) + '='
            if rng.random() < .5: t += tok(rng, True)
            else: t += '"' + ''.join(rng.choice(['a', 'B', ';', '=', '\\"', '\\\\', '\\a', ' ', '/', ',']) for _ in range(rng.randint(0, 4))) + '"'
            t += wsx(rng)
        if rng.random() < .4:
            t = list(t)
            for _ in range(rng.randint(1, 3)):
                j = rng.randint(0, len(t)); r = rng.random()
                if r < .4: t.insert(j, rng.choice(';=/+" \\\ta,:'))
                elif r < .8: t[j:j + 1] = []
                else: t[j:] = []
            t = ''.join(t)
        yield t
def check_case(t):
    try: r = CT.parse_content_type(t)
    except Exception as e: return f'{t!r}: raises {e!r}'
    ct, err = r
    ref = reference(t)
    if ref is None: return None
    (a, b, s), params, whole = ref
    got = (ct.type, ct.sub_type, ct.suffix); want = (a.casefold(), b.casefold(), s.casefold() if s is not None else None)
    if got != want: return f'{t!r}: read as {got!r}, it is {want!r}'
    have = {} if ct.parameters is None else {k: list(ct.parameters.get_all(k)) for k in ct.parameters.keys()}
    exp = {}
    for k, v in params:
        if v not in exp.setdefault(k, []): exp[k].append(v)
    if whole:
        if have != exp: return f'{t!r}: parameters {have!r}, should be {exp!r}'
        if err is not None: return f'{t!r}: error {err!r} though well-formed'
    else:
        for k, v in exp.items():
            if have.get(k, [])[:len(v)] != v: return f'{t!r}: parameters {have!r}, should start as {exp!r}'
    return None
def shrink(t):
    for k in range(len(t)): yield t[:k] + t[k + 1:]
