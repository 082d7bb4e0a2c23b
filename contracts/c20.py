"""C20: DNS name escaping: text and labels are inverse."""
from pv.lib import *
from pv.models import flat_term, CHARCLASS, IDNA, IDNA_OK, UNIDNA, UNIDNA_OK, below
import scarletio.dns_query.helpers as HP
PROOFS, proof = proof_registry()
TRUSTED = ['the IDNA codec of the standard library: decoding an ASCII label without the prefix "xn--" gives its characters; it raises nothing but unicode errors and gives no empty label',
    'which non-ASCII characters are alphanumeric or printable is left open: the proofs hold for every such classification']
DESIGN = '''The parts a text spells are defined recursively by position (escaped character, escaped three digits, separator). `parse_labels_from_name` is proved to give the
labels of exactly these parts (a last empty one dropped), each of 1 to 63 bytes, and to raise a value error exactly when the text is malformed, has an empty
part, or a part has no legal label. `build_name_from_labels` is proved to write every character of every label in its escaped form, labels joined by dots.
Inverse: lemma by lemma, the recursive definition reads each escaped character as that character, each joining dot as the end of a label, and no escaped text starts like the root names.'''
SEQ2 = z3.SeqSort(SEQ); DOT, BS = z3.IntVal(46), z3.IntVal(92)
WF = z3.Function('well_formed_from', SEQ, I, B); FIRST = z3.Function('part_from', SEQ, I, SEQ); REST = z3.Function('parts_after', SEQ, I, SEQ2)
def digit(x): return z3.And(48 <= x, x <= 57)
def value(a, b, d): return (a - 48) * 100 + (b - 48) * 10 + (d - 48)
RES = z3.Function('parts_with', SEQ, SEQ2, SEQ, I, SEQ2)       # the parts, given those before a position and the begin of the one it is in
def unfold_res(c, s, sp, cur, i):
    n = ln(s); inside = z3.And(0 <= i, i < n); ch = s[i]; nx = s[i + 1]; R = lambda a, b, j: RES(s, a, b, j); me = R(sp, cur, i)
    def reads(cond, x, j): c.fact(z3.Implies(z3.And(inside, cond), z3.And(WF(s, i) == WF(s, j), me == R(sp, z3.Concat(cur, z3.Unit(x)), j))))
    c.fact(z3.Implies(i >= n, z3.And(WF(s, i), me == z3.Concat(sp, z3.Unit(cur)))))
    c.fact(z3.Implies(z3.And(inside, ch == DOT), z3.And(WF(s, i) == WF(s, i + 1), me == R(z3.Concat(sp, z3.Unit(cur)), z3.Empty(SEQ), i + 1))))
    reads(z3.And(ch != DOT, ch != BS), ch, i + 1)
    esc = z3.And(ch == BS, i + 1 < n)
    reads(z3.And(esc, z3.Not(digit(nx))), nx, i + 2)
    v = value(nx, s[i + 2], s[i + 3]); three = z3.And(esc, i + 3 < n, digit(nx), digit(s[i + 2]), digit(s[i + 3]), v <= 255)
    reads(three, v, i + 4)
    c.fact(z3.Implies(z3.And(inside, ch == BS, z3.Not(three), z3.Not(z3.And(esc, z3.Not(digit(nx))))), z3.Not(WF(s, i))))
def unfold(c, s, i):
    n = ln(s); inside = z3.And(0 <= i, i < n); ch = s[i]; nx = s[i + 1]
    def reads(cond, x, j): c.fact(z3.Implies(z3.And(inside, cond), z3.And(WF(s, i) == WF(s, j), FIRST(s, i) == z3.Concat(z3.Unit(x), FIRST(s, j)), REST(s, i) == REST(s, j))))
    c.fact(z3.Implies(i >= n, z3.And(WF(s, i), FIRST(s, i) == z3.Empty(SEQ), REST(s, i) == z3.Empty(SEQ2))))
    c.fact(z3.Implies(z3.And(inside, ch == DOT), z3.And(WF(s, i) == WF(s, i + 1), FIRST(s, i) == z3.Empty(SEQ), REST(s, i) == z3.Concat(z3.Unit(FIRST(s, i + 1)), REST(s, i + 1)))))
    reads(z3.And(ch != DOT, ch != BS), ch, i + 1)
    esc = z3.And(ch == BS, i + 1 < n)
    reads(z3.And(esc, z3.Not(digit(nx))), nx, i + 2)
    v = value(nx, s[i + 2], s[i + 3]); three = z3.And(esc, i + 3 < n, digit(nx), digit(s[i + 2]), digit(s[i + 3]), v <= 255)
    reads(three, v, i + 4)
    c.fact(z3.Implies(z3.And(inside, ch == BS, z3.Not(three), z3.Not(z3.And(esc, z3.Not(digit(nx))))), z3.Not(WF(s, i))))
def pieces(s, i=None): i = z3.IntVal(0) if i is None else i; return z3.Concat(z3.Unit(FIRST(s, i)), REST(s, i))
def label_of(p): return z3.If(below(p, 128), p, IDNA(p))
def has_label(p): return z3.And(z3.Or(below(p, 128), IDNA_OK(p)), ln(label_of(p)) <= 63)
MAPPED = z3.Function('labels_of_first', SEQ2, I, SEQ2)

def state_lemma(s, sp, cur, i): return RES(s, sp, cur, i) == z3.Concat(sp, z3.Unit(z3.Concat(cur, FIRST(s, i))), REST(s, i))
@proof('lemma: the parts read one by one are the parts spelled (induction on the characters left)')
def _(c):
    s = c.str('name').t; n = ln(s); i = c.fresh('i', I); c.assume(0 <= i, i <= n, WF(s, i)); sp, cur = c.fresh('before', SEQ2), c.fresh('begun', SEQ); ch, nx = s[i], s[i + 1]
    k = c.choose(5)
    if k == 0: c.assume(i == n)
    elif k == 1: c.assume(i < n, ch == DOT); c.assume(state_lemma(s, z3.Concat(sp, z3.Unit(cur)), z3.Empty(SEQ), i + 1))
    else:
        x, j = ((ch, i + 1), (nx, i + 2), (value(nx, s[i + 2], s[i + 3]), i + 4))[k - 2]
        c.assume(i < n); c.assume(z3.And(ch != DOT, ch != BS) if k == 2 else z3.And(ch == BS, z3.Not(digit(nx))) if k == 3 else z3.And(ch == BS, digit(nx)))
        c.assume(state_lemma(s, sp, z3.Concat(cur, z3.Unit(x)), j))
    unfold(c, s, i); unfold_res(c, s, sp, cur, i)
    c.prove('so from here on', state_lemma(s, sp, cur, i))

@proof('a text is split into exactly the labels it spells, or refused with a value error')
def _(c):
    g = c.ghost; name = c.str('name'); s = name.t; n = ln(s); z = z3.IntVal(0); E2 = z3.Empty(SEQ2)
    k = c.fresh('k', I); c.assume(k >= 0)
    all0 = RES(s, E2, z3.Empty(SEQ), z)
    def flat(L): return flat_term(L.ctx, L.part_parts.as_term(StrC))
    def inv(L):
        i = L.t('index'); pp = L.part_parts.as_term(StrC); f = flat(L)
        return {'in the text': z3.And(0 <= i, i <= n), 'parts so far and the rest': RES(s, L.split.as_term(StrC), f, i) == all0, 'well-formed if the rest is': WF(s, i) == WF(s, z), 'an empty part has no characters': (ln(pp) == 0) == (ln(f) == 0), 'what was read begins or ends a part': z3.Or(i == 0, ln(L.split.as_term(StrC)) > 0, ln(f) > 0)}
    def head(L): g['i'] = (L.split.as_term(StrC), flat(L), L.t('index'))
    def step(L): unfold_res(L.ctx, s, *g['i'])
    loop(c, 'parse_labels_from_name', 0, Loop(inv=inv, on_head=head, on_step=step, dec=lambda L: n - L.t('index'), lists={'split': StrC, 'part_parts': StrC}))
    def entry2(L): g['parts'] = L.split.as_term(StrC); L.ctx.fact(MAPPED(g['parts'], z) == E2)
    def inv2(L):
        p = g['parts']; lt = L.labels.as_term(BytesC); i = L._i
        return {'the labels of the parts before': lt == MAPPED(p, i), 'as many': ln(lt) == i, 'each legal': z3.Implies(k < i, z3.And(1 <= ln(lt[k]), ln(lt[k]) <= 63))}
    def head2(L):
        p = g['parts']; i = L._i; x = p[i]; inside = z3.And(0 <= i, i < ln(p))
        L.ctx.fact(z3.Implies(inside, MAPPED(p, i + 1) == z3.Concat(MAPPED(p, i), z3.Unit(label_of(x)))))
        L.ctx.fact(z3.Implies(inside, z3.Contains(p, z3.Unit(x)))); L.ctx.fact(z3.Implies(z3.And(IDNA_OK(x), ln(x) > 0), ln(IDNA(x)) > 0)); g['at'] = x
    loop(c, 'parse_labels_from_name', None, Loop(inv=inv2, on_head=head2, on_entry=entry2, lists={'labels': BytesC}))
    r = attempt(c, HP.parse_labels_from_name, name)
    if 'i' in g: unfold_res(c, s, *g['i'])
    all_ = all0 = RES(s, E2, z3.Empty(SEQ), z); c.fact(ln(all_) > 0); m = ln(all_); last_empty = ln(all_[m - 1]) == 0
    parts = g.get('parts'); root = z3.Or(*[s == lit(x) for x in ('', '.', '@', '@.')])
    if r.raised:
        c.prove('a value error', bv(r.is_a(ValueError)))
        if parts is None:
            c.prove('malformed, or with an empty part', z3.Or(z3.Not(WF(s, z)), empty_inside(c, all_, m)))
        else: c.prove('the parts spelled', parts == z3.If(last_empty, z3.Extract(all_, z, m - 1), all_)); c.prove('its part has no legal label', z3.Not(has_label(g['at'])))
        return
    if r.value is None: c.prove('none only for the root', root); return
    c.prove('not for the root', z3.Not(root))
    c.prove('well formed', WF(s, z)); c.prove('the parts spelled', bv(parts is not None) if parts is None else parts == z3.If(last_empty, z3.Extract(all_, z, m - 1), all_))
    out = r.value; lt = out.as_term(BytesC) if isinstance(out, LList) else None
    c.prove('a tuple', bv(lt is not None and out.kind == 'tuple'))
    c.prove('the labels of the parts', z3.And(lt == MAPPED(parts, ln(parts)), ln(lt) == ln(parts)))
    c.prove('each of 1 to 63 bytes', z3.Implies(k < ln(lt), z3.And(1 <= ln(lt[k]), ln(lt[k]) <= 63))); c.prove('at least one', ln(lt) > 0)
def empty_inside(c, all_, m):
    e = z3.Unit(z3.Empty(SEQ)); return z3.Or(z3.Contains(z3.Extract(all_, z3.IntVal(0), m - 1), e))

# ---- joining
SPECIAL = '.\\;@$()"'
def esc(ch):
    u = z3.Unit(ch); dd = lambda x: z3.Unit(48 + x)
    three = z3.Concat(z3.Unit(BS), dd(ch / 100), dd(ch / 10 % 10), dd(ch % 10))
    return z3.If(z3.Or(*[ch == ord(x) for x in SPECIAL]), z3.Concat(z3.Unit(BS), u), z3.If(z3.And(z3.Not(CHARCLASS['isalnum'](u)), ch < 256, z3.Or(z3.Not(CHARCLASS['isprintable'](u)), ch < 33)), three, u))
ESCT = z3.Function('escaped_first', SEQ, I, SEQ); TXT = z3.Function('text_of_first', SEQ2, I, SEQ)
def plain(l): return z3.And(below(l, 128), z3.Not(z3.Contains(l, lit('xn--'))))
def text_of(l): return z3.If(plain(l), l, UNIDNA(l))
@proof('labels are joined by dots, every character in its escaped form')
def _(c):
    g = c.ghost; g['small ints'] = True; z = z3.IntVal(0); r = attempt(c, HP.build_name_from_labels, None); no_raise(c, r); c.prove('the root', bv(r.value == '@'))
    ls = c.fresh('labels', SEQ2); labels = LList(c, seq=ls, codec=BytesC, kind='tuple'); c.fact(TXT(ls, z) == z3.Empty(SEQ))
    def flat(L): return flat_term(L.ctx, L.characters.as_term(StrC))
    def entry2(L): g['before'] = flat(L); g['text'] = sterm(SSeq(L._src.seq, 'str')); L.ctx.fact(ESCT(g['text'], z) == z3.Empty(SEQ)); L.ctx.prove('the text of the label', g['text'] == text_of(g['label']))
    def inv2(L): return {'escaped so far': flat(L) == z3.Concat(g['before'], ESCT(g['text'], L._i))}
    def head2(L):
        t = g['text']; i = L._i; inside = z3.And(0 <= i, i < ln(t)); L.ctx.fact(z3.Implies(inside, ESCT(t, i + 1) == z3.Concat(ESCT(t, i), esc(t[i])))); L.ctx.fact(z3.Implies(inside, t[i] >= 0))
    def inv(L): return {'joined so far': flat(L) == TXT(ls, L._i)}
    def head(L):
        i = L._i; l = g['label'] = ls[i]; t = text_of(l)
        L.ctx.fact(z3.Implies(z3.And(0 <= i, i < ln(ls)), TXT(ls, i + 1) == z3.Concat(TXT(ls, i), z3.If(i > 0, lit('.'), z3.Empty(SEQ)), ESCT(t, ln(t)))))
    loop(c, 'build_name_from_labels', 0, Loop(inv=inv, on_head=head, lists={'characters': StrC})); loop(c, 'build_name_from_labels', 1, Loop(inv=inv2, on_head=head2, on_entry=entry2, lists={'characters': StrC}))
    r = attempt(c, HP.build_name_from_labels, labels)
    if r.raised: c.prove('only for a label which the codec refuses', z3.And(bv(r.is_a(UnicodeError)), z3.Not(plain(g['label'])), z3.Not(UNIDNA_OK(g['label'])))); return
    c.prove('the text', sterm(r.value) == TXT(ls, ln(ls)))

# ---- inverse
@proof('lemma: an escaped character is read as that character')
def _(c):
    pre, post = c.fresh('before', SEQ), c.fresh('after', SEQ); ch = c.fresh('character', I); c.assume(ch >= 0); i = ln(pre)
    u = z3.Unit(ch)
    for nm in ('isalnum', 'isprintable'):
        yes = [k for k in range(128) if getattr(chr(k), nm)()]; c.fact(z3.Implies(ch < 128, CHARCLASS[nm](u) == z3.Or(*[z3.And(a <= ch, ch <= b) for a, b in models.runs(yes)])))
    e = esc(ch); forms = (z3.Concat(z3.Unit(BS), u), z3.Concat(z3.Unit(BS), z3.Unit(48 + ch / 100), z3.Unit(48 + ch / 10 % 10), z3.Unit(48 + ch % 10)), u)
    k = c.choose(3); f = forms[k]; c.assume(e == f)
    s = z3.Concat(pre, f, post)
    if k == 0: c.assume(z3.Not(digit(ch)))   # shown next
    for j, x in enumerate(((BS, ch), (BS, 48 + ch / 100, 48 + ch / 10 % 10, 48 + ch % 10), (ch,))[k]): c.fact(s[i + j] == x)
    c.fact(ln(s) == i + ln(f) + ln(post))
    unfold(c, s, i); j = i + ln(f)
    c.prove('it, and what follows', z3.And(WF(s, i) == WF(s, j), FIRST(s, i) == z3.Concat(u, FIRST(s, j)), REST(s, i) == REST(s, j)))
@proof('lemma: escaped forms: three digits only spell what they escape, no digit follows a bare backslash, the root names are never written')
def _(c):
    ch = c.fresh('character', I); c.assume(ch >= 0); u = z3.Unit(ch)
    for nm in ('isalnum', 'isprintable'):
        yes = [k for k in range(128) if getattr(chr(k), nm)()]; c.fact(z3.Implies(ch < 128, CHARCLASS[nm](u) == z3.Or(*[z3.And(a <= ch, ch <= b) for a, b in models.runs(yes)])))
    e = esc(ch)
    c.prove('no digit behind a bare backslash', z3.Implies(z3.And(e == z3.Concat(z3.Unit(BS), u)), z3.Not(digit(ch))))
    c.prove('a written character stands for itself', z3.Implies(e == u, z3.And(ch != DOT, ch != BS)))
    c.prove('never starts like the root', z3.And(e[0] != DOT, e[0] != 64)); c.prove('never empty', ln(e) > 0)
@proof('lemma: the dot between two labels ends a part; at the end of the text the part ends; a label is the label of its text')
def _(c):
    pre, post = c.fresh('before', SEQ), c.fresh('after', SEQ); s = z3.Concat(pre, lit('.'), post); i = ln(pre)
    c.fact(z3.And(s[i] == DOT, ln(s) == i + 1 + ln(post))); unfold(c, s, i)
    c.prove('the dot', z3.And(WF(s, i) == WF(s, i + 1), ln(FIRST(s, i)) == 0, REST(s, i) == z3.Concat(z3.Unit(FIRST(s, i + 1)), REST(s, i + 1))))
    t = c.fresh('text', SEQ); unfold(c, t, ln(t)); c.prove('the end', z3.And(WF(t, ln(t)), ln(FIRST(t, ln(t))) == 0, ln(REST(t, ln(t))) == 0))
    l = c.fresh('label', SEQ); c.assume(plain(l)); c.prove('a label is the label of its text', label_of(text_of(l)) == l)

# ---------------------------------------------------------------- native
RULE = 'texts of letters, dots, escapes (complete, cut, over 255, non-ASCII digits), special and non-ASCII characters against a reference reader; label lists built to text and read back; distinct by content'
SEARCH_S = 6
ALPH = ['a', 'Z', '0', '9', '1', '2', '5', '-', '_', '.', '.', '\\', '\\', '@', ';', '$', '(', '"', ' ', '\t', '\x7f', '\0', 'é', 'ü', '\u0660', '\xb2', '\xad', '\u3002', '!', '*', '\\.', '\\000', '\\255', '\\256', '\\09', 'xn--', '\u0378', '\u4e00']
def cases(rng, part, parts):
    while True:
        if rng.random() < .5: yield ['text', ''.join(rng.choice(ALPH) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9, rng.randint(60, 66)])))]
        else: yield ['labels', [(''.join(rng.choice(ALPH) for _ in range(rng.choice([1, 1, 2, 3, 5])))).encode('utf-8', 'replace').decode('latin-1') if rng.random() < .2 else ''.join(chr(rng.randint(0, 127)) if rng.random() < .5 else rng.choice('.\\@;$()" 0129a-') for _ in range(rng.choice([1, 1, 2, 3, 63]))) for _ in range(rng.choice([1, 1, 2, 3]))]]
def reference(t):
    """-> list of labels, None for the root, or 'bad'"""
    if t in ('', '.', '@', '@.'): return None
    parts = ['']; i = 0
    while i < len(t):
        ch = t[i]
        if ch == '.': parts.append(''); i += 1
        elif ch != '\\': parts[-1] += ch; i += 1
        elif i + 1 >= len(t): return 'bad'
        elif t[i + 1] not in '0123456789': parts[-1] += t[i + 1]; i += 2
        else:
            d = t[i + 1:i + 4]
            if len(d) < 3 or any(x not in '0123456789' for x in d) or int(d) > 255: return 'bad'
            parts[-1] += chr(int(d)); i += 4
    if not parts[-1]: parts.pop()
    if '' in parts: return 'bad'
    out = []
    for p in parts:
        if all(ord(x) < 128 for x in p): l = p.encode('ascii')
        else:
            try: l = p.encode('idna')
            except UnicodeError: return 'bad'
        if not 0 < len(l) <= 63: return 'bad'
        out.append(l)
    return out
def check_case(d):
    kind, x = d
    if kind == 'text':
        want = reference(x)
        try: got = HP.parse_labels_from_name(x)
        except ValueError: got = 'bad'
        except Exception as e: return f'{x!r}: raises {e!r}'
        if got is not None and got != 'bad': got = list(got)
        if got != want: return f'{x!r}: {got!r}, it is {want!r}'
        if not want or want == 'bad': return None
        labels = tuple(want)
    else: labels = tuple(l.encode('latin-1') for l in x)
    texts = []
    for l in labels:
        if all(b < 128 for b in l) and b'xn--' not in l: texts.append(l.decode('ascii')); continue
        try: t = l.decode('idna')
        except UnicodeError: return None
        if t.encode('ascii', 'ignore').decode() == t: return None
        try:
            if t.encode('idna') != l: return None
        except UnicodeError: return None
        texts.append(t)
    if any(not 0 < len(l) < 64 for l in labels): return None
    try: t = HP.build_name_from_labels(labels); back = HP.parse_labels_from_name(t)
    except Exception as e: return f'labels {labels!r}: {e!r}'
    if back != labels: return f'labels {labels!r} are written {t!r}, read back as {back!r}'
    if HP.build_name_from_labels(None) != '@': return 'the root is not written as "@"'
    return None
def shrink(d):
    kind, x = d
    if kind == 'text':
        for k in range(len(x)): yield [kind, x[:k] + x[k + 1:]]
    else:
        for k in range(len(x)): yield [kind, x[:k] + x[k + 1:]]
        for k in range(len(x)):
            for j in range(len(x[k])): yield [kind, x[:k] + [x[k][:j] + x[k][j + 1:]] + x[k + 1:]]
