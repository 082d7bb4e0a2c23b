"""C19: IP address text and number conversions are inverse."""
import re
from pv.lib import *
from pv import regex
from pv.models import HEX_STR, INT_STR, UTF8, flat_term
from scarletio.dns_query import helpers as H, constants as K
from scarletio.dns_query.building_and_parsing import parse_ip_v4_data, parse_ip_v6_data

PROOFS, proof = proof_registry()
TRUSTED = ['str / format of a number is decimal / lower-case hex text, which int() reads back and which holds no ".", ":" or "%"',
    'the five address patterns (keyed by their exact text): on a text made of numbers and separators the match is the one the pattern gives for any other numbers of the same ranges; on any other text a match has groups of the pattern\'s shape']

H4 = '[0-9a-f]{1,4}'
G = '(' + H4 + ')'
V4 = '\\.'.join(['([0-9]|[1-9][0-9]|1[0-9][0-9]|2(?:[0-4][0-9]|5[0-5]))'] * 4)
FULL = '\\:'.join([G] * 8)
START = '\\:\\:(?:(?:(?:(?:(?:(?:([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})'
END = '([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4}))?)?)?)?)?)?\\:\\:'
MIDDLE = '([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4}))?)?)?)?)?\\:\\:(?:(?:(?:(?:(?:([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})'


# ---- texts made of numbers and separators

def pieces(t):
    """the text as a list of literal characters and number tokens"""
    out = []
    def go(e):
        if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
            for a in e.children(): go(a)
        elif z3.is_app_of(e, z3.Z3_OP_SEQ_EMPTY): pass
        elif z3.is_app_of(e, z3.Z3_OP_SEQ_UNIT) and z3.is_int_value(e.arg(0)): out.append(chr(e.arg(0).as_long()))
        elif e.decl().eq(HEX_STR) or e.decl().eq(INT_STR): out.append(e)
        else: raise Unsupported(f'address text with a piece of unknown form {e}')
    go(z3.simplify(t))
    return out

def token_match(pattern_text):
    rp = re.compile(pattern_text)
    def h(ctx, s, lo=0, hi=None):
        if lo != 0: raise Unsupported('match from an offset')
        ps = pieces(sterm(s))
        if hi is not None: ctx.prove('the whole text is matched', iterm(hi) == ln(sterm(s)))
        text = ''; tokens = {}
        for k, p in enumerate(ps):
            if isinstance(p, str): text += p; continue
            tokens[len(text)] = p
            text += format(16 + len(tokens), 'x' if p.decl().eq(HEX_STR) else 'd')
            top = 65536 if p.decl().eq(HEX_STR) else 256
            ctx.prove('every number of the text is in range', z3.And(p.arg(0) >= 0, p.arg(0) < top))
        m = rp.fullmatch(text)
        if m is None: return None
        def one(k):
            if m.group(k) is None: return None
            a, b = m.span(k)
            if a not in tokens: return text[a:b]
            return SSeq(tokens[a], 'str')
        return regex.make_match(ctx, tuple(one(k) for k in range(1, rp.groups + 1)))
    return h

def token_patterns(c):
    for p in (V4, FULL, START, END, MIDDLE): regex.contract(c, (p, 0), 'fullmatch', token_match(p))
    for sep in '.:%': pass

def no_seps(c, t):
    for p in pieces(t):
        if isinstance(p, str): continue
        for ch in '.:%': c.fact(z3.Not(z3.Contains(p, lit(ch))))

def groups16(c, n=8, w=16, name='g'):
    gs = [c.fresh(f'{name}{k}', I) for k in range(n)]
    for g in gs: c.assume(g >= 0, g < (1 << w))
    return gs

def number(gs, w):
    r = z3.IntVal(0)
    for k, g in enumerate(gs): r = r + g * z3.IntVal(1 << (w * (len(gs) - 1 - k)))
    return z3.simplify(r)

def text_of(t, v): return ''.join([*H.produce_ip_string(t, v)])
def text_v4(v): return ''.join([*H.produce_ip_v4_string(v)])
def text_v6(v): return ''.join([*H.produce_ip_v6_string(v)])
for _f in (text_of, text_v4, text_v6): _f.__pv_interpret__ = True


def spells_v6(c, t, gs):
    """the text is eight groups, or fewer with one '::' standing for the missing zero groups"""
    ps = pieces(t)
    s = ''; toks = []
    for p in ps:
        if isinstance(p, str): s += p
        else: s += 'T'; toks.append(p)
    # literal hex digits are possible for constants only (the zero group)
    left, mid, right = s.partition('::')
    if '::' in right or right.startswith(':'): return False, None
    def split(x): return x.split(':') if x else []
    l, r = split(left), split(right)
    if not mid:
        r = []
        if len(l) != 8: return False, None
    elif len(l) + len(r) > 7: return False, None
    want = []
    it = iter(toks)
    vals = []
    for part in l + [None] * (8 - len(l) - len(r)) + r:
        if part is None: vals.append(z3.IntVal(0)); continue
        if part == 'T':
            k = next(it)
            if not k.decl().eq(HEX_STR): return False, None
            vals.append(k.arg(0)); continue
        if not re.fullmatch(H4, part): return False, None
        vals.append(z3.IntVal(int(part, 16)))
    return True, z3.And([v == g for v, g in zip(vals, gs)])


@proof('IPv6 text denotes the number, for every 128-bit number', budget=500)
def _(c):
    gs = groups16(c)
    v = SInt(number(gs, 16))
    r = attempt(c, text_v6, v)
    no_raise(c, r)
    ok, same = spells_v6(c, sterm(r.value), gs)
    c.prove('the text is eight groups, or has one "::"', bv(ok))
    if ok: c.prove('the groups are those of the number', same)
    # and it reads back
    t = sterm(r.value)
    token_patterns(c); no_seps(c, t)
    for f in (H.parse_ip_v6_string,):
        q = attempt(c, f, r.value)
        no_raise(c, q)
        c.prove('reads back as an address', bv(q.value[0] is True))
        c.prove('reads back as the same number', iterm(q.value[1]) == v.t)
    q = attempt(c, H.parse_ip_string, r.value)
    no_raise(c, q)
    c.prove('recognised as IPv6', bv(q.value[0] == K.IP_TYPE_IP_V6))
    c.prove('the same number', iterm(q.value[1]) == v.t)


@proof('IPv4 text denotes the number and reads back, for every 32-bit number')
def _(c):
    gs = groups16(c, 4, 8)
    v = SInt(number(gs, 8))
    r = attempt(c, text_v4, v)
    no_raise(c, r)
    ps = pieces(sterm(r.value))
    want = []
    for g in gs: want += ['.', g]
    want = want[1:]
    c.prove('four decimal parts', bv(len(ps) == 7 and all((p == '.') == (k % 2 == 1) for k, p in enumerate(ps) if isinstance(p, str)) and all(isinstance(ps[k], z3.ExprRef) and ps[k].decl().eq(INT_STR) for k in (0, 2, 4, 6))))
    for k in range(4): c.prove('the parts are the bytes, most significant first', ps[2 * k].arg(0) == gs[k])
    token_patterns(c); no_seps(c, sterm(r.value))
    q = attempt(c, H.parse_ip_string, r.value)
    no_raise(c, q)
    c.prove('recognised as IPv4', bv(q.value[0] == K.IP_TYPE_IP_V4))
    c.prove('reads back as the same number', iterm(q.value[1]) == v.t)


@proof('produce_ip_string dispatches on the address type')
def _(c):
    gs = groups16(c, 4, 8)
    v = SInt(number(gs, 8))
    a = attempt(c, text_of, K.IP_TYPE_IP_V4, v); b = attempt(c, text_v4, v)
    no_raise(c, a)
    c.prove('IPv4 text', eqv(c, a.value, b.value))
    x = c.bytes('v6 text'); y = SSeq(x.t, 'str')
    use(c, H.produce_ip_v6_string, lambda ctx, v: LList(ctx, items=[y]))
    a = attempt(c, text_of, K.IP_TYPE_IP_V6, v)
    no_raise(c, a)
    c.prove('IPv6 text', eqv(c, a.value, y))


# ---- texts of any form: a match gives groups of the pattern's shape

def shaped(c, count_of, pattern):
    def h(ctx, s, lo=0, hi=None):
        if ctx.choose(2): return None
        pres = count_of(ctx)
        vals = []
        gs = []
        for p in pres:
            if not p: vals.append(None); gs.append(None); continue
            t = ctx.fresh('digits', SEQ)
            base = 10 if pattern == V4 else 16
            x = models.PY_INT(t, z3.IntVal(base))
            ctx.fact(z3.And(models.PY_INT_OK(t, z3.IntVal(base)), x >= 0, x < (256 if base == 10 else 65536)))
            vals.append(SSeq(t, 'str')); gs.append(x)
        ctx.ghost['matched'] = (pattern, gs)
        return regex.make_match(ctx, vals)
    regex.contract(c, (pattern, 0), 'fullmatch', h)

def all_present(n): return lambda ctx: [True] * n
def suffix(n): 
    def f(ctx):
        k = ctx.choose(n) + 1
        return [False] * (n - k) + [True] * k
    return f
def prefix(n):
    def f(ctx):
        k = ctx.choose(n) + 1
        return [True] * k + [False] * (n - k)
    return f

@proof('parsing any text: the value is that of the groups the text spells', budget=400)
def _(c):
    shaped(c, all_present(4), V4); shaped(c, all_present(8), FULL); shaped(c, suffix(7), START); shaped(c, prefix(7), END)
    shaped(c, lambda ctx: prefix(6)(ctx) + suffix(6)(ctx), MIDDLE)
    s = c.str('text')
    r = attempt(c, H.parse_ip_string, s)
    no_raise(c, r)
    typ, val = r.value
    m = c.ghost.get('matched')
    if m is None:
        if typ == K.IP_TYPE_NONE: return
        c.prove('only "::" needs no groups', z3.And(bv(typ == K.IP_TYPE_IP_V6), s.t == lit('::'), iterm(val) == 0))
        return
    p, gs = m
    if p == V4:
        c.prove('IPv4', bv(typ == K.IP_TYPE_IP_V4)); c.prove('value', iterm(val) == number(gs, 8)); return
    left, right = {FULL: (gs, []), START: ([], gs), END: (gs, []), MIDDLE: (gs[:6], gs[6:])}[p]
    left = [g for g in left if g is not None]; right = [g for g in right if g is not None]
    if p == MIDDLE and len(left) + len(right) > 7:
        c.prove('too many groups: not an address', bv(typ == K.IP_TYPE_NONE)); return
    c.prove('IPv6', bv(typ == K.IP_TYPE_IP_V6))
    c.prove('value', iterm(val) == number(left + [z3.IntVal(0)] * (8 - len(left) - len(right)) + right, 16))


@proof('record data: the big-endian value of exactly 4 / 16 bytes')
def _(c):
    for fn, n in ((parse_ip_v4_data, 4), (parse_ip_v6_data, 16)):
        r = attempt(c, fn, None)
        no_raise(c, r)
        c.prove('no data, no address', bv(r.value is None))
    n = (4, 16)[c.choose(2)]
    fn = parse_ip_v4_data if n == 4 else parse_ip_v6_data
    d = c.bytes('data')
    r = attempt(c, fn, d)
    no_raise(c, r)
    if r.value is None: c.prove('refused only for another length', ln(d.t) != n); return
    c.prove('accepted only for that length', ln(d.t) == n)
    want = z3.IntVal(0)
    for k in range(n): want = want + iterm(models.byte_at(c, d.t, z3.IntVal(k))) * z3.IntVal(256 ** (n - 1 - k))
    c.prove('big-endian value', iterm(r.value) == want)


@proof('reverse look-up names list bytes / nibbles from the least significant')
def _(c):
    kind = c.choose(3)
    s = c.str('address')
    n, w, f = ((4, 8, INT_STR), (32, 4, HEX_STR), (0, 0, None))[kind]
    gs = groups16(c, n, w) if n else []
    v = SInt(number(gs, w)) if n else SInt(z3.IntVal(0))
    use(c, H.parse_ip_string, lambda ctx, t: ((K.IP_TYPE_IP_V4, K.IP_TYPE_IP_V6, K.IP_TYPE_NONE)[kind], v))
    r = attempt(c, H.parse_reversed_labels_from_address, s)
    if kind == 2:
        c.prove('not an address: value error', bv(r.is_a(ValueError))); return
    no_raise(c, r)
    parts = r.value
    c.prove('all parts and the two suffix labels', bv(isinstance(parts, tuple) and len(parts) == n + 2))
    for k in range(n):
        x = sterm(parts[k])
        c.prove('the part is the text of the k-th least significant unit', x == f(gs[n - 1 - k]))
    c.prove('suffix', bv(tuple(parts[n:]) == ((b'in-addr', b'arpa') if kind == 0 else (b'ip6', b'arpa'))))


RULE = 'random 32-bit / 128-bit numbers with zero runs, written, read back and checked against the ipaddress module; reverse names; record data; distinct by number'
SEARCH_S = 5

def cases(rng, part, parts):
    while True:
        yield ['v4', rng.choice([rng.getrandbits(32), rng.getrandbits(8) << 8 * rng.randint(0, 3)])]
        gs = [rng.choice([0, 0, rng.getrandbits(16), rng.getrandbits(4), 1]) for _ in range(8)]
        v = 0
        for g in gs: v = v << 16 | g
        yield ['v6', v]
        if rng.random() < .2: yield ['text', ':'.join(rng.choice(['', '0', '1', 'ffff', 'a', '12345', '::', '1.2.3.4']) for _ in range(rng.randint(1, 9)))]

def check_case(case):
    import ipaddress
    kind, v = case
    if kind == 'text':
        try: want = int(ipaddress.IPv6Address(v))
        except ValueError: want = None
        if '.' in v: return None
        t, got = H.parse_ip_string(v)
        if t == K.IP_TYPE_NONE: got = None
        if got != want and not (want is not None and got is None): return f'parse_ip_string({v!r}) gives {got!r}, expected {want!r}'
        return None
    typ, cls, n = (K.IP_TYPE_IP_V4, ipaddress.IPv4Address, 4) if kind == 'v4' else (K.IP_TYPE_IP_V6, ipaddress.IPv6Address, 16)
    t = text_of(typ, v)
    try: back = int(cls(t))
    except ValueError as e: return f'the text {t!r} of {v:#x} is not an address: {e}'
    if back != v: return f'the text {t!r} of {v:#x} denotes {back:#x}'
    got = H.parse_ip_string(t)
    if got != (typ, v): return f'parse_ip_string({t!r}) gives {got!r}, expected {(typ, v)!r}'
    f = parse_ip_v4_data if n == 4 else parse_ip_v6_data
    if f(v.to_bytes(n, 'big')) != v: return f'record data of {v:#x} reads as {f(v.to_bytes(n, "big")):#x}'
    if f(v.to_bytes(n, 'big') + b'\0') is not None: return 'over-long record data accepted'
    rev = b'.'.join(H.parse_reversed_labels_from_address(t)).decode()
    if rev != cls(v).reverse_pointer: return f'reverse name of {t} is {rev!r}, expected {cls(v).reverse_pointer!r}'
    return None
