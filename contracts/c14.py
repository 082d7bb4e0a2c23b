"""C14: basic credentials survive the header round trip."""
import base64, binascii, re
from pv.lib import *
from pv import regex
from scarletio.web_common.basic_authorization import BasicAuthorization

PROOFS, proof = proof_registry()
TRUSTED = ['base64.b64decode(b64encode(x)) == x; the encoder yields ASCII without white space',
    'str.encode / bytes.decode are inverse for every codec that encodes the text',
    'contracts of the two regular expressions (keyed by their exact text and flags)']

B64ENC = z3.Function('b64encode', SEQ, SEQ)
B64DEC = z3.Function('b64decode', SEQ, SEQ)
B64OK = z3.Function('b64_valid', SEQ, B)
NOWS = z3.Function('no_white_space', SEQ, B)
ASCII = z3.Function('all_below_128', SEQ, B)

def b64encode(ctx, x, altchars=None):
    if altchars is not None: raise Unsupported('b64encode altchars')
    t = sterm(x); r = B64ENC(t)
    ctx.fact(z3.And(B64DEC(r) == t, B64OK(r), NOWS(r), ASCII(r)))
    return SSeq(r, 'bytes')

def b64decode(ctx, x, altchars=None, validate=False):
    if altchars is not None: raise Unsupported('b64decode altchars')
    t = sterm(x)
    if not ctx.branch(B64OK(t)): raise PyExc(Inst(ctx, binascii.Error, {'args': ()}))
    return SSeq(B64DEC(t), 'bytes')

AUTH_RP = '\\s*(.*?)\\s+(.*?)\\s*'
USER_RP = '(.*?)(?:\\:(.*))?'

def auth_match(ctx, h):
    """header pattern: space, method, space, token, space"""
    t = sterm(h)
    n = z3.Length(t)
    tok = sub(t, 6, n - 6)
    plain = z3.And(z3.PrefixOf(lit('Basic '), t), NOWS(tok))
    if ctx.choose(2):
        ctx.assume(z3.Not(plain))
        return None
    g1 = ctx.fresh('method', SEQ); g2 = ctx.fresh('token', SEQ)
    s1 = ctx.fresh('ws', SEQ); s2 = ctx.fresh('ws', SEQ); s3 = ctx.fresh('ws', SEQ)
    ctx.assume(t == cat(s1, g1, s2, g2, s3), z3.Length(s2) > 0, z3.Implies(plain, z3.And(g1 == lit('Basic'), g2 == tok)))
    ctx.ghost['groups'] = (g1, g2)
    return regex.make_match(ctx, (SSeq(g1, 'str'), SSeq(g2, 'str')))

def user_match(ctx, d):
    """with DOTALL: always matches; splits at the first colon"""
    t = sterm(d)
    c = lit(':')
    if not ctx.branch(z3.Contains(t, c)): return regex.make_match(ctx, (SSeq(t, 'str'), None))
    a = ctx.fresh('user', SEQ); b = ctx.fresh('pw', SEQ)
    ctx.assume(t == cat(a, c, b), z3.Not(z3.Contains(a, c)), z3.IndexOf(t, c, 0) == z3.Length(a))
    return regex.make_match(ctx, (SSeq(a, 'str'), SSeq(b, 'str')))

def setup(c):
    use(c, base64.b64encode, b64encode); use(c, base64.b64decode, b64decode)
    for k in (0, int(re.S)): regex.contract(c, (AUTH_RP, k), 'fullmatch', auth_match)
    regex.contract(c, (USER_RP, int(re.S)), 'fullmatch', user_match)
    c.fact(CASEFOLD(lit('Basic')) == lit('basic'))

CASEFOLD = models.CASEFOLD

def encoding(c):
    k = c.choose(3)
    return 'latin1' if k == 0 else 'utf-8' if k == 1 else c.str('encoding')

@proof('decoding the built header gives back an equal credential')
def _(c):
    setup(c)
    enc = encoding(c)
    user = c.str('user'); pw = c.str('password')
    c.assume(z3.Not(z3.Contains(user.t, lit(':'))))
    made = attempt(c, BasicAuthorization, user, pw, encoding=enc)
    no_raise(c, made)
    h = attempt(c, BasicAuthorization.to_header, made.value)
    if h.raised:
        only_raises(c, h, UnicodeEncodeError)
        raise PathEnd
    r = attempt(c, BasicAuthorization.from_header, h.value, encoding=enc)
    no_raise(c, r)
    f = r.value.fields
    c.prove('same user name', sterm(f['user_id']) == user.t)
    c.prove('same password', sterm(f['password']) == pw.t)
    c.prove('same encoding', eqv(c, f['encoding'], enc))
    e = attempt(c, BasicAuthorization.__eq__, made.value, r.value)
    no_raise(c, e)
    c.prove('equal', truth(c, e.value))

@proof('any header text is decoded or rejected with a value error')
def _(c):
    setup(c)
    enc = encoding(c)
    h = c.str('header')
    r = attempt(c, BasicAuthorization.from_header, h, encoding=enc)
    if r.raised:
        only_raises(c, r, ValueError)
        raise PathEnd
    g1, g2 = c.ghost['groups']
    f = r.value.fields
    c.prove('only the basic method is accepted', CASEFOLD(g1) == lit('basic'))
    u, p = sterm(f['user_id']), sterm(f['password'])
    c.prove('the user name has no colon', z3.Not(z3.Contains(u, lit(':'))))
    d = B64DEC(g2)
    text = models.decode_(c.it, SSeq(d, 'bytes'), enc)
    c.prove('the fields are what the token spells', z3.Or(sterm(text) == cat(u, lit(':'), p), z3.And(sterm(text) == u, z3.Length(p) == 0)))


RULE = 'random user / password / encoding triples round-tripped; random and mutated header texts; distinct by content'
SEARCH_S = 6
ENCS = ['latin1', 'utf-8', 'utf-16', 'cp1252', 'ascii', 'utf-32', 'cp037', 'shift_jis']

def cases(rng, part, parts):
    alpha = list('ab:\n\r\t \x00é中\u2028=\x85/+')
    def text(n=8): return ''.join(rng.choice(alpha) for _ in range(rng.randint(0, n)))
    while True:
        k = rng.random()
        if k < .6: yield ['rt', text().replace(':', ''), text(), rng.choice(ENCS)]
        elif k < .8: yield ['h', text(12), rng.choice(ENCS)]
        else:
            tok = base64.b64encode(bytes(rng.choice(b'ab:\n\xff\x00') for _ in range(rng.randint(0, 9)))).decode()
            if rng.random() < .3: tok = tok[:rng.randint(0, len(tok))] + rng.choice(['', '!', '=', 'é'])
            yield ['h', rng.choice(['', ' ']) + rng.choice(['Basic', 'basic', 'BASIC', 'Bearer', 'Basi']) + rng.choice([' ', '  ', '', '\t', '\n']) + tok + rng.choice(['', ' ', '\n']), rng.choice(ENCS)]

def check_case(case):
    if case[0] == 'rt':
        _, user, pw, enc = case
        try: f'{user}:{pw}'.encode(enc)
        except ValueError: return None
        a = BasicAuthorization(user, pw, encoding=enc)
        if f'{user}:{pw}'.encode(enc).decode(enc) != f'{user}:{pw}': return None
        try:
            h = a.to_header()
            b = BasicAuthorization.from_header(h, encoding=enc)
        except Exception as e: return f'round trip of {user!r}, {pw!r} in {enc} raised {e!r}'
        if not (b.user_id == user and b.password == pw and a == b and hash(a) == hash(b)): return f'round trip of {user!r}, {pw!r} in {enc} gave {b!r}'
        return None
    _, h, enc = case
    m = h.strip().split(None, 1)
    try: b = BasicAuthorization.from_header(h, encoding=enc)
    except ValueError:
        if len(m) == 2 and m[0].lower() == 'basic' and not h[0].isspace() and '\n' not in h:
            try: base64.b64decode(m[1].encode('ascii')).decode(enc)
            except ValueError: return None
            return f'{h!r} is a well-formed credential and was rejected'
        return None
    except Exception as e: return f'from_header({h!r}) raised {e!r}'
    if len(m) != 2 and not (len(m) == 1): return f'{h!r} was accepted'
    if m[0].casefold() != 'basic': return f'{h!r} was accepted'
    text = base64.b64decode((m[1] if len(m) > 1 else '').encode('ascii')).decode(enc)
    u, _, p = text.partition(':')
    if (b.user_id, b.password) != (u, p): return f'{h!r} decoded to {b.user_id!r}, {b.password!r}'
    return None

def model_cases(pname, inp):
    if 'user' in inp:
        e = inp.get('encoding')
        for enc in ENCS: yield ['rt', inp['user'], inp['password'], enc]
    if 'header' in inp: yield ['h', inp['header'], 'latin1']
