"""C04: URL quoting: output safe, decodable and total."""
from pv.lib import *
from pv.models import UTF8, UTF8_OK, UNUTF8, UNUTF8_OK, flat_term, below
import scarletio.web_common.quoting as Q
from scarletio.web_common.quoting import quote, unquote

PROOFS, proof = proof_registry()
TRUSTED = ['the UTF-8 codec: the bytes of one character decode to it, a proper part of them does not decode, encoding is character by character']
DESIGN = '''Quoting: the result is, byte for byte of the UTF-8 text, "+" (a space in query mode), the byte itself when the set of safe codes holds it,
or "%" and two upper-case digits (loop invariant over prefixes); the set is proved to be what the arguments ask for, whether it is made or taken
from the cache. Unquoting: a recursive description of what is left to write from a position on, with a pending run of triplets, is kept equal by the
loop (invariant: written ++ left == all), for every text. Round trip: induction over the characters of the text with the two contracts.'''

UNRESERVED = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~'
ALLOWED = UNRESERVED + '!$\'()*,;'
DELIMS = '+&='

def dig(d): return z3.If(d < 10, d + 48, d + 55)
def triplet(x): return cat(z3.Unit(z3.IntVal(37)), z3.Unit(dig(x / 16)), z3.Unit(dig(x % 16)))
def E1(has, query, x):
    r = z3.If(z3.Select(has, x), z3.Unit(x), triplet(x))
    return z3.If(x == 32, lit('+'), r) if query else r
QP = z3.Function('quoted_prefix', SEQ, I, SEQ)

# ---- quote
CHOICES = [(None, None), ('', ''), ('@:', '/'), ('/?:@=', None), ('/?:@', None), ('?/:@#', None), (None, '[]'), (':', ':/')]
def expected_safe(safe, protected, query):
    return set(map(ord, ALLOWED + (safe or '') + (protected or '') + ('' if query else DELIMS)))

class CacheI(Iface):
    """entry of the key: absent, or made by an earlier call with the same arguments"""
    name = 'cache'
    def getitem(self, ctx, o, k):
        if k is not o.extra['key'] and not (isinstance(k, tuple) and len(k) == 3 and all(a is b or (isinstance(a, (str, bool)) and a == b) for a, b in zip(k, o.extra['key']))):
            ctx.prove('the entry of these arguments', z3.BoolVal(False)); raise Unsupported('key')
        if o.extra['hit'] is None: ctx.it.raise_(KeyError)
        return o.extra['hit']
    def setitem(self, ctx, o, k, v):
        self_key = o.extra['key']
        ctx.prove('stored under these arguments', bv(isinstance(k, tuple) and len(k) == 3 and all(a is b or (isinstance(a, (str, bool)) and a == b) for a, b in zip(k, self_key))))
        ctx.prove('exactly the allowed, safe and protected characters', bv(isinstance(v, tuple) and len(v) == 2 and elements(ctx, v[1]) == expected_safe(*self_key) and set(map(ord, elements(ctx, v[0]))) == expected_safe(*self_key)))
        o.extra['stored'] = True
def elements(ctx, v):
    if isinstance(v, (set, frozenset)): return set(v)
    if isinstance(v, LSet) and v.concrete and all(isinstance(x, (int, str)) for x in v.items): return set(v.items)
    return None

@proof('quoting with characters asked for before writes each byte as itself, a plus sign or a triplet', budget=200)
def _(c): quoting(c, True)
@proof('quoting with new characters writes each byte as itself, a plus sign or a triplet', budget=200)
def _(c): quoting(c, False)

def quoting(c, hit):
    query = bool(c.choose(2))
    cache = Opaque(c.fresh('cache', OBJ), CacheI())
    if hit:
        # any ASCII safe / protected characters
        has = c.fresh('safe', z3.ArraySort(I, B))
        codes = LSet(c, has=has, codec=IntC, frozen=True)
        safe = protected = None
        cache.extra.update(key=(None, None, query), hit=(Opaque(c.fresh('safe', OBJ), Iface()), codes))
    else:
        safe, protected = CHOICES[c.choose(len(CHOICES))]
        exp = expected_safe(safe, protected, query)
        has = None
        cache.extra.update(key=(safe, protected, query), hit=None)
    c.ghost['globals'] = {(None, 'QUOTE_SAFE_MAP'): cache}
    st = c.str('value'); c.assume(UTF8_OK(st.t))
    b = UTF8(st.t)
    def sel(x):
        if hit: return z3.Select(has, x)
        return z3.Or(*[x == k for k in sorted(exp)])
    def enc(x):
        r = z3.If(sel(x), z3.Unit(x), triplet(x))
        return z3.If(x == 32, lit('+'), r) if query else r
    def inv(L):
        i = L.t('_i'); ctx = L.ctx
        for k in (i, i + 1):
            ctx.fact(z3.Implies(k <= 0, QP(b, k) == z3.Empty(SEQ)))
            ctx.fact(z3.Implies(z3.And(k > 0, k <= ln(b)), QP(b, k) == cat(QP(b, k - 1), enc(b[k - 1]))))
        if hit: ctx.fact(z3.Implies(sel(b[i]), b[i] < 128))
        r = L.t('result')
        return {'written so far': r == QP(b, i), 'ascii': below(r, 128)}
    loop(c, 'quote', None, Loop(inv=inv, dec=lambda L: ln(b) - L.t('_i')))
    r = attempt(c, quote, st, safe, protected, query)
    no_raise(c, r)
    c.prove('a text', bv(isinstance(r.value, str) or getattr(r.value, 'kind', None) == 'str'))
    c.prove('every byte', sterm(r.value) == z3.If(ln(st.t) == 0, z3.Empty(SEQ), QP(b, ln(b))))

@proof('nothing is quoted to nothing')
def _(c):
    for f in (quote, unquote):
        r = attempt(c, f, None); no_raise(c, r); c.prove('none', bv(r.value is None))
        r = attempt(c, f, ''); no_raise(c, r); c.prove('empty', sterm(r.value) == z3.Empty(SEQ))

# ---- unquote
def HV(x): return z3.If(z3.And(48 <= x, x <= 57), x - 48, z3.If(z3.And(65 <= x, x <= 70), x - 55, z3.If(z3.And(97 <= x, x <= 102), x - 87, z3.IntVal(-1))))

@proof('base-16 characters: all of both cases, nothing else')
def _(c):
    x = c.int('char'); c.assume(x.t >= 0)
    r = attempt(c, Q._base_16_char_to_int, x)
    no_raise(c, r)
    c.prove('the digit', iterm(r.value) == HV(x.t))

UQ = z3.Function('unquoted_rest', SEQ, I, I, SEQ)       # text, start of the pending run (-1: none), position
UQQ = z3.Function('unquoted_rest_q', SEQ, I, I, SEQ)
BUF = z3.Function('triplet_bytes', SEQ, I, I, SEQ)
NONE = z3.IntVal(-1)
def is_triplet(s, i): return z3.And(s[i] == 37, i + 2 < ln(s), HV(s[i + 1]) != -1, HV(s[i + 2]) != -1)
def buf_step(c, s, k, i):
    c.fact(z3.Implies(is_triplet(s, i), BUF(s, k, i + 3) == cat(BUF(s, k, i), z3.Unit(HV(s[i + 1]) * 16 + HV(s[i + 2])))))
def decoded(query, b):
    v = UNUTF8(b)
    if not query: return v
    return z3.If(v == lit('+'), lit('%2B'), z3.If(v == lit('&'), lit('%26'), z3.If(v == lit('='), lit('%3D'), v)))
def unfold(c, query, s, i, k=None):
    """k None: no pending run"""
    U = UQQ if query else UQ
    n = ln(s); pend = k is not None
    c.fact(BUF(s, i, i) == z3.Empty(SEQ))
    ch = z3.Unit(s[i])
    if query: ch = z3.If(s[i] == 43, lit(' '), ch)
    if not pend:
        buf_step(c, s, i, i)
        c.fact(z3.Implies(i >= n, U(s, NONE, i) == z3.Empty(SEQ)))
        c.fact(z3.Implies(z3.And(0 <= i, i < n), U(s, NONE, i) == z3.If(is_triplet(s, i), U(s, i, i + 3), cat(ch, U(s, NONE, i + 1)))))
        return
    buf_step(c, s, k, i)
    b = BUF(s, k, i)
    c.fact(z3.Implies(z3.And(0 <= k, k < i, i <= n), U(s, k, i) == z3.If(UNUTF8_OK(b), cat(decoded(query, b), U(s, NONE, i)),
        z3.If(i >= n, sub(s, k, i - k), z3.If(is_triplet(s, i), U(s, k, i + 3), cat(sub(s, k, i - k), U(s, NONE, i)))))))

@proof('unquoting reads runs of triplets as UTF-8 and leaves everything else', budget=200)
def _(c):
    query = bool(c.choose(2))
    U = UQQ if query else UQ
    st = c.str('value'); s = st.t; n = ln(s)
    c.assume(n > 0)
    def h_hex(ctx, x):
        ctx.prove('a code', iterm(x) >= 0)
        return SInt(HV(iterm(x)))
    use(c, Q._base_16_char_to_int, h_hex)
    def h_quote(ctx, v, safe=None, protected=None, query_string=False):
        ctx.prove('quoted as part of a query', bv(query_string is True and safe is None and protected is None))
        t = sterm(v)
        ctx.prove('one of the three', z3.Or(*[t == lit(x) for x in DELIMS]))
        return SSeq(z3.If(t == lit('+'), lit('%2B'), z3.If(t == lit('&'), lit('%26'), lit('%3D'))), 'str')
    use(c, quote, h_quote)
    def shape(ctx):
        if ctx.choose(2): return LBytes(ctx, ctx.fresh('run', SEQ))
        return None
    def inv(L):
        ctx = L.ctx; i = L.t('index'); p = L.percentages
        done = flat_term(ctx, L.result.as_term(StrC))
        unfold(ctx, query, s, i)
        if p is None:
            return {'bounds': z3.And(0 <= i, i <= n), 'all': cat(done, U(s, NONE, i)) == U(s, NONE, z3.IntVal(0))}
        k = L.t('percentages_start')
        unfold(ctx, query, s, i, k)
        return {'bounds': z3.And(0 <= k, k < i, i <= n), 'pending': sterm(p) == BUF(s, k, i), 'all': cat(done, U(s, k, i)) == U(s, NONE, z3.IntVal(0))}
    loop(c, 'unquote', 0, Loop(inv=inv, dec=lambda L: n - L.t('index'), lists={'result': StrC}, shapes={'percentages': shape}))
    r = attempt(c, unquote, st, None, query)
    no_raise(c, r)
    c.prove('the described text', sterm(r.value) == U(s, NONE, z3.IntVal(0)))

# ---- round trip: induction over the characters
def u8(cp, n):
    if n == 1: return [cp]
    if n == 2: return [192 + cp / 64, 128 + cp % 64]
    if n == 3: return [224 + cp / 4096, 128 + (cp / 64) % 64, 128 + cp % 64]
    return [240 + cp / 262144, 128 + (cp / 4096) % 64, 128 + (cp / 64) % 64, 128 + cp % 64]

@proof('lemma: unquoting the quoted form of a character and of what follows gives the character and what follows', budget=200)
def _(c):
    query = bool(c.choose(2))
    n = 1 + c.choose(4)
    t = c.fresh('text', SEQ)        # the quoted text; in query mode with its plus signs read as spaces
    p = c.fresh('p', I); cp = c.fresh('cp', I); rest = c.fresh('rest', SEQ)
    has = c.fresh('safe', z3.ArraySort(I, B))
    lo, hi = [(0, 128), (128, 2048), (2048, 65536), (65536, 1114112)][n - 1]
    c.assume(lo <= cp, cp < hi, p >= 0)
    if n == 3: c.assume(z3.Or(cp < 0xd800, cp > 0xdfff))
    bs = [z3.simplify(x) for x in u8(cp, n)]
    # the set: ASCII, the allowed characters, no percent sign, in query mode no plus sign
    for x in bs: c.fact(z3.Implies(z3.Select(has, x), z3.And(x < 128, x != 37, *([x != 43] if query else []))))
    # the text spells, from p on, what quoting writes for the bytes of the character
    q = p
    if n == 1 and c.choose(2):
        x = bs[0]
        c.assume(z3.Or(z3.Select(has, x), *([x == 32] if query else [])))
        c.assume(ln(t) >= p + 1, t[p] == x)      # a space in query mode: the plus sign, read as a space
        q = p + 1
    else:
        if n == 1: c.assume(z3.Not(z3.Select(has, bs[0])), *([bs[0] != 32] if query else []))
        c.assume(ln(t) >= p + 3 * n)
        for k, x in enumerate(bs):
            c.assume(t[p + 3 * k] == 37, t[p + 3 * k + 1] == dig(x / 16), t[p + 3 * k + 2] == dig(x % 16))
            c.prove('an upper-case triplet', z3.And(x >= 0, x < 256, HV(dig(x / 16)) * 16 + HV(dig(x % 16)) == x, HV(dig(x / 16)) != -1, HV(dig(x % 16)) != -1))
            c.fact(HV(dig(x / 16)) * 16 + HV(dig(x % 16)) == x)
        q = p + 3 * n
    c.assume(UQ(t, NONE, q) == rest)
    unfold(c, False, t, p)
    for k in range(1, n + 1):
        unfold(c, False, t, p + 3 * k, p)
        # the codec
        pre = cat(*[z3.Unit(x) for x in bs[:k]])
        if k < n: c.fact(z3.Not(UNUTF8_OK(pre)))
        else: c.fact(z3.And(UNUTF8_OK(pre), UNUTF8(pre) == z3.Unit(cp)))
    c.prove('the character and the rest', UQ(t, NONE, p) == cat(z3.Unit(cp), rest))

@proof('lemma: at the end nothing is left')
def _(c):
    t = c.fresh('text', SEQ)
    unfold(c, False, t, ln(t))
    c.prove('nothing', UQ(t, NONE, ln(t)) == z3.Empty(SEQ))


# ---- native
def o_quote(s, safe, protected, query):
    ok = set(map(chr, expected_safe(safe, protected, query)))
    out = []
    for b in s.encode('utf-8'):
        if query and b == 32: out.append('+')
        elif chr(b) in ok: out.append(chr(b))
        else: out.append('%%%02X' % b)
    return ''.join(out)

import re as _re
RUN = _re.compile('(?:%[0-9A-Fa-f]{2})+')
def o_unquote(s, query):
    out = []; i = 0
    while i < len(s):
        m = RUN.match(s, i)
        if m:
            run = m.group(); j = 0
            while j < len(run):
                for k in (1, 2, 3, 4):
                    try: ch = bytes.fromhex(run[j : j + 3 * k].replace('%', '')).decode('utf-8') if j + 3 * k <= len(run) else None
                    except UnicodeDecodeError: ch = None
                    if ch is not None: break
                if ch is None: out.append(run[j:]); break
                out.append('%%%02X' % ord(ch) if query and ch in '+&=' else ch)
                j += 3 * k
            i = m.end()
        else:
            out.append(' ' if query and s[i] == '+' else s[i]); i += 1
    return ''.join(out)

CH = ['a', 'z', 'Z', '0', '%', '%%', '+', ' ', '&', '=', '/', '?', '#', '[', '@', ':', '"', '<', '\\', '\x00', '\x7f', '\x80', 'é', 'ß', '\u07ff', '\u0800', '€', '\uffff', '\U00010000', '\U0010ffff', '😀', '%41', '%e2%82%ac', '%E2%82', '%zz', '%a', '\n', '~', '`', '^', '{', '|']
TR = ['%', '%4', '%41', '%2B', '%2b', '%26', '%3D', '%3d', '%20', '%25', '%C3%A9', '%c3', '%A9', '%E2%82%AC', '%E2', '%82', '%F0%9F%98%80', '%F0%9F', '%FF', '%80', '%ed%a0%80', '%G1', '%1G', '%1g', '+', 'a', 'é', '0', 'F', '']
SAFES = [None, '', '@:', '/', '/?:@=', '/?:@', '?/:@#', '[]', '+', '&', '=', ' ', '"', '{}|', '~', '/#']

RULE = 'random texts, safe / protected sets and modes quoted, compared with an independent quoting and unquoted again; random runs of triplets, broken triplets and characters unquoted and compared with an independent reading'
SEARCH_S = 6
def cases(rng, part, parts):
    while True:
        if rng.random() < .5:
            s = ''.join(rng.choice(CH) if rng.random() < .8 else chr(rng.choice([rng.randrange(128), rng.randrange(0x800), rng.randrange(0xd800), rng.randrange(0xe000, 0x110000)])) for _ in range(rng.randrange(6)))
            yield ['q', s, rng.choice(SAFES), rng.choice(SAFES), rng.random() < .5]
        else:
            yield ['u', ''.join(rng.choice(TR) if rng.random() < .7 else '%%%02x' % rng.randrange(256) for _ in range(rng.randrange(7))), rng.random() < .5]

def check_case(case):
    if case[0] == 'q':
        _, s, safe, protected, query = case
        try: r = quote(s, safe, protected, query)
        except Exception as e: return f'quote({s!r}, {safe!r}, {protected!r}, {query}) raised {e!r}'
        e = o_quote(s, safe, protected, query)
        if r != e: return f'quote({s!r}, {safe!r}, {protected!r}, {query}) = {r!r}, not {e!r}'
        if not (query and '+' in (safe or '') + (protected or '')):
            t = r.replace('+', ' ') if query else r
            try: u = unquote(t)
            except Exception as e: return f'unquote({t!r}) raised {e!r}'
            if u != s: return f'unquote(quote({s!r}, {safe!r}, {protected!r}, {query})) = {u!r}'
        return None
    _, s, query = case
    try: u = unquote(s, None, query)
    except Exception as e: return f'unquote({s!r}, query_string = {query}) raised {e!r}'
    e = o_unquote(s, query)
    return None if u == e else f'unquote({s!r}, query_string = {query}) = {u!r}, not {e!r}'

def shrink(case):
    for k in range(len(case[1])): yield [case[0], case[1][:k] + case[1][k + 1:], *case[2:]]

def model_cases(pname, inp):
    v = inp.get('value')
    if isinstance(v, str):
        for q in (False, True):
            yield ['u', v, q]
            try: v.encode()
            except UnicodeEncodeError: continue
            yield ['q', v, None, None, q]
