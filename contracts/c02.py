"""C02: case-insensitive strings and header maps ignore casing only."""
from contracts.mvd import *
import scarletio.utils.ignore_case_string as S
PROOFS, proof = proof_registry()
TRUSTED = ['str.casefold is an uninterpreted idempotent function of the text', 'built-in dict: finds a key by hash, then equality: a case-insensitive key by its folded text, as the proofs of __hash__ and __eq__ justify',
    'values: equality is an equivalence, one abstract identity stands for equal objects']

def fold(c, t): return models.case_map(c.it, CASEFOLD, 'casefold', t)

class SubStr(str):
    """an other subclass of str, with methods of its own"""
    __slots__ = ()
    def casefold(self): raise RuntimeError
    def lower(self): raise RuntimeError

class OtherObjI(Iface):
    name = 'any other object'
OTHEROBJ = OtherObjI()

def partner(c, name='other'):
    """something to compare with -> (value, folded text or None)"""
    kind = c.choose(5)
    if kind == 0:
        s = c.str(name); t = fold(c, sterm(s)); return ics(c, s, t), t
    if kind == 1: s = c.str(name); return s, fold(c, sterm(s))
    if kind == 2:
        s = c.str(name); return Inst(c, SubStr, {}, s), fold(c, sterm(s))
    if kind == 3: return c.bytes(name), None
    return c.int(name), None

@proof('creating a case-insensitive string folds its text')
def _(c):
    kind = c.choose(4)
    if kind == 0: g = c.str('value'); t = sterm(g)
    elif kind == 1: s = c.str('value'); g = Inst(c, SubStr, {}, s); t = sterm(s)
    elif kind == 2:
        s = c.str('value'); g = ics(c, s, fold(c, sterm(s)))
        r = attempt(c, IgnoreCaseString, g); no_raise(c, r)
        c.prove('the very same', bv(r.value is g)); return
    else:
        r = attempt(c, IgnoreCaseString); no_raise(c, r)
        c.prove('empty', eqv(c, r.value.fields['_case_fold'], ''))
        return
    r = attempt(c, IgnoreCaseString, g); no_raise(c, r)
    o = r.value
    c.prove('a case-insensitive string', bv(isinstance(o, Inst) and o.cls is IgnoreCaseString))
    c.prove('keeps the text as given', sterm(o.base if not isinstance(o.base, Inst) else o.base.base) == t)
    c.prove('folded', sterm(o.fields['_case_fold']) == fold(c, t))

@proof('equality, inequality and hash go by the folded text')
def _(c):
    s = c.str('text'); t = fold(c, sterm(s)); a = ics(c, s, t)
    b, bt = partner(c)
    e = attempt(c, IgnoreCaseString.__eq__, a, b); no_raise(c, e)
    n = attempt(c, IgnoreCaseString.__ne__, a, b); no_raise(c, n)
    if bt is None:
        c.prove('unrelated objects: left to the other side', bv(e.value is NotImplemented and n.value is NotImplemented)); return
    c.prove('decided', bv(e.value is not NotImplemented and n.value is not NotImplemented))
    c.prove('equal exactly when the folded texts are', truth(c, e.value) == (t == bt))
    c.prove('inequality is the negation', truth(c, n.value) == z3.Not(t == bt))
    if isinstance(b, Inst) and b.cls is IgnoreCaseString:
        HASH = z3.Function('hash_of_text', SEQ, I)
        use(c, hash, lambda ctx, v: SInt(HASH(sterm(v))))
        h1 = attempt(c, IgnoreCaseString.__hash__, a); h2 = attempt(c, IgnoreCaseString.__hash__, b)
        no_raise(c, h1); no_raise(c, h2)
        c.prove('equal ones have equal hashes', z3.Implies(t == bt, iterm(h1.value) == iterm(h2.value)))
        c.prove('hash of the folded text, as a plain folded string has', iterm(h1.value) == HASH(t))

ops(proof, FK, 'header map: ')

RULE = 'strings in random casings (sharp s, dotted i, final sigma, ligatures, titlecase) compared pairwise, with plain strings, with other objects; histories over a case-insensitive multi value map with re-cased keys against a map keyed by the folded text; distinct by content'
SEARCH_S = 6
WORDS = ['a', 'A', 'Content-Type', 'content-type', 'CONTENT-TYPE', 'straße', 'STRASSE', 'Straße', 'ﬁ', 'FI', 'fi', 'ΑΣ', 'ας', 'ασ', 'ǅ', 'ǆ', 'İ', 'i̇', 'ı', 'I', '', 'K', 'k', '\u212a', 'b', 'B', 'X-y', 'x-Y', 'ͅ', 'ι']
def recase(rng, w):
    f = rng.choice([str.lower, str.upper, str.title, str.swapcase, str.capitalize, lambda x: x, lambda x: ''.join(rng.choice([a.upper(), a.lower()]) for a in x)])
    return f(w)
class Foreign:
    def __eq__(self, o): return 'foreign eq'
    def __ne__(self, o): return 'foreign ne'
    __hash__ = None
def cases(rng, part, parts):
    while True:
        if rng.random() < .3:
            w = rng.choice(WORDS) + rng.choice(['', '', rng.choice(WORDS)])
            x = recase(rng, w) if rng.random() < .7 else rng.choice(WORDS)
            yield ['str', w, x]
        else:
            k = rng.sample(WORDS, rng.randint(1, 3))
            yield ['map', gen_history(rng, [recase(rng, w) for w in k for _ in range(3)])]
def swap(k): return k.swapcase() if k.swapcase().casefold() == k.casefold() else k
def check_case(case):
    if case[0] == 'map': return run_history(IgnoreCaseMultiValueDictionary, case[1], lambda k: str(k).casefold(), swap)
    _, w, x = case
    a = IgnoreCaseString(w); same = w.casefold() == x.casefold()
    if str.__str__(a) != w or len(a) != len(w): return f'IgnoreCaseString({w!r}) is {str.__str__(a)!r}'
    if hash(a) != hash(IgnoreCaseString(a)) or IgnoreCaseString(a) is not a: return f'{w!r}: not kept'
    for b in (IgnoreCaseString(x), x, SubStr(x), IgnoreCaseString(x.encode()), IgnoreCaseString(bytearray(x.encode())), IgnoreCaseString(memoryview(x.encode()))):
        for l, r in ((a, b), (b, a)):
            if type(l) is SubStr: continue
            if (l == r) is not same or (l != r) is same: return f'{type(l).__name__} {str(l)!r} and {type(r).__name__} {str(r)!r}: equal {l == r}, different {l != r}; folded texts equal: {same}'
        if type(b) is IgnoreCaseString and same and hash(a) != hash(b): return f'{w!r} and {x!r} are equal with different hashes'
        if type(b) is IgnoreCaseString and (len({a, b}) == 1) is not same: return f'set of {w!r} and {x!r}'
    for o in (None, 3, w.encode(), [w], object(), 1.5, (w,)):
        try:
            if a == o or o == a or not a != o or not o != a: return f'{w!r} equals {o!r}'
        except Exception as e: return f'comparing {w!r} with {o!r} raised {e!r}'
    f = Foreign()
    if (a == f) != 'foreign eq' or (a != f) != 'foreign ne': return f'{w!r}: does not leave comparison to the other side'
    return None
def shrink(case):
    if case[0] == 'map':
        for c in shrink_history(case[1]): yield ['map', c]
