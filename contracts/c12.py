"""C12: URL path normalisation removes dot segments exactly."""
from pv.lib import *
from scarletio.web_common.url.url_path import normalize_path_parts, URLPath

PROOFS, proof = proof_registry()
TRUSTED = []

LS = z3.SeqSort(SEQ)
E0 = z3.Empty(LS)
DOT, DOTDOT, EMPTY = lit('.'), lit('..'), z3.Empty(SEQ)

# specification functions, by recursion on the list of segments
NODOT = z3.Function('without_single_dots', LS, LS)      # drops every '.'
STACK = z3.Function('resolve', LS, LS)                  # pushes names, '..' pops
F = z3.Function('resolve_pending', LS, I, LS)           # the same from the right with p pending pops
DOTS = z3.Function('double_dots', I, LS)                # k times '..'

def at(s, k): return s[k]
def pre(s, k): return z3.Extract(s, 0, k)
def one(x): return z3.Unit(x)

def nodot_def(ctx, s, k):
    """NODOT(s[:k+1]) from NODOT(s[:k])"""
    ctx.fact(NODOT(E0) == E0)
    a, b = pre(s, k), pre(s, k + 1)
    ctx.fact(z3.Implies(z3.And(k >= 0, k < ln(s)), z3.And(b == z3.Concat(a, one(s[k])), NODOT(b) == z3.If(s[k] == DOT, NODOT(a), z3.Concat(NODOT(a), one(s[k]))))))

def f_def(ctx, s, i, p):
    """F(s[:i], p)"""
    a = pre(s, i); b = pre(s, i - 1); x = s[i - 1]
    ctx.fact(F(E0, p) == E0)
    ctx.fact(z3.Implies(z3.And(i > 0, i <= ln(s)), z3.And(a == z3.Concat(b, one(x)),
        F(a, p) == z3.If(x == DOTDOT, F(b, p + 1), z3.If(p == 0, z3.Concat(F(b, z3.IntVal(0)), one(x)), F(b, p - 1))))))

def dots_def(ctx, k):
    ctx.fact(DOTS(z3.IntVal(0)) == E0)
    ctx.fact(z3.Implies(k >= 0, z3.And(ln(DOTS(k)) == k, DOTS(k + 1) == z3.Concat(one(DOTDOT), DOTS(k)))))
    ctx.fact(z3.Implies(k > 0, DOTS(k) == z3.Concat(one(DOTDOT), DOTS(k - 1))))

def has(s, x): return z3.Contains(s, one(x))

def single_dots(orig):
    """what the first phase leaves: every '.' dropped, a final one after something replaced by the empty segment"""
    n = ln(orig)
    return z3.If(z3.And(n > 0, orig[n - 1] == DOT, ln(NODOT(pre(orig, n - 1))) > 0), z3.Concat(NODOT(pre(orig, n - 1)), one(EMPTY)), NODOT(orig))


def loop_contracts(c, orig, d):
    n = ln(orig)
    def inv0(L):
        ctx = L.ctx; parts = L.parts.as_term(StrC); index = L.t('index'); done = L.env['done']; k = n - ln(parts) + index
        nodot_def(ctx, orig, k)
        return {
            'bounds': z3.And(index >= 0, k >= 0, k <= n),
            'length tracked': L.t('parts_length') == ln(parts),
            'deletions counted': L.t('deleted_count') == n - ln(parts),
            'processed, unprocessed': parts == z3.Concat(done, z3.Extract(orig, k, n - k)),
            'split': ln(done) == index,
            'processed part': z3.Implies(k < n, done == NODOT(pre(orig, k))),
            'all processed': z3.Implies(k == n, done == d),
            'no single dot yet': z3.Not(has(done, DOT)),
        }
    def split0(L):
        ctx = L.ctx; done = ctx.fresh('done', LS); L.env['done'] = done; L.env['x'] = None
        k = ctx.fresh('k', I); ctx.fact(z3.And(k >= 0, k <= n))
        if ctx.branch(k < n):
            x = ctx.fresh('x', SEQ); rest = ctx.fresh('rest', LS)
            ctx.fact(z3.And(x == orig[k], z3.Extract(orig, k, n - k) == z3.Concat(one(x), rest), ln(rest) == n - k - 1, rest == z3.Extract(orig, k + 1, n - k - 1)))
            nodot_def(ctx, orig, k)
            L.env['x'] = x; L.env['last'] = k == n - 1
            ctx.fact(z3.Implies(k == n - 1, z3.And(pre(orig, k) == pre(orig, n - 1), orig[n - 1] == x, pre(orig, k + 1) == orig)))
            L.parts.set_seq(z3.Concat(done, one(x), rest))
        else:
            ctx.fact(k == n)
            L.parts.set_seq(done)
    def step0(L):
        x = L.env['x']; ctx = L.ctx
        if x is None: return
        if not ctx.branch(x == DOT): L.env['done'] = z3.Concat(L.env['done'], one(x))
        elif ctx.branch(z3.And(L.env['last'], ln(L.env['done']) > 0)): L.env['done'] = z3.Concat(L.env['done'], one(EMPTY))
        else: ctx.branch(L.env['last'])
    loop(c, 'normalize_path_parts', 0, Loop(inv=inv0, dec=lambda L: ln(L.parts.as_term(StrC)) - L.t('index'), lists={'parts': StrC}, havoc=split0, on_entry=lambda L: {'done': E0}, on_step=step0))
    def inv1(L):
        parts = L.parts.as_term(StrC); i = L._n - L._i; td = L.t('to_delete'); tail = L.env['tail']
        f_def(L.ctx, d, i, td); f_def(L.ctx, d, ln(d), z3.IntVal(0)); dots_def(L.ctx, td)
        return {
            'bounds': z3.And(td >= 0, i >= 0, i <= ln(d), L._n == ln(d)),
            'unprocessed, pending, finished': parts == z3.Concat(pre(d, i), DOTS(td), tail),
            'result so far': F(d, z3.IntVal(0)) == z3.Concat(F(pre(d, i), td), tail),
            'length tracked': L.t('parts_length') == ln(parts),
            'deletions counted': L.t('deleted_count') == n - ln(parts),
            'no dot segment in the finished part': z3.And(z3.Not(has(tail, DOTDOT)), z3.Not(has(tail, DOT))),
        }
    def split1(L):
        # the havocked list in the shape the invariant gives it: unprocessed . pending . finished
        ctx = L.ctx; i = L._n - L._i; td = L.t('to_delete')
        A = E0; DD = E0; tail = ctx.fresh('finished', LS)
        L.env['tail'] = tail
        L.env['x'] = None
        if ctx.branch(i > 0):
            a = ctx.fresh('a', LS); x = ctx.fresh('x', SEQ)
            ctx.fact(z3.Implies(z3.And(i > 0, i <= ln(d)), z3.And(pre(d, i) == z3.Concat(a, one(x)), ln(a) == i - 1, a == pre(d, i - 1), x == d[i - 1])))
            A = z3.Concat(a, one(x))
            L.env['x'] = x
        L.env['td'] = td
        if ctx.branch(td > 0): DD = z3.Concat(one(DOTDOT), DOTS(td - 1))
        L.parts.set_seq(z3.simplify(z3.Concat(A, DD, tail)))
    def step1(L):
        x = L.env['x']
        if not L.ctx.branch(x == DOTDOT) and not L.ctx.branch(L.env['td'] > 0): L.env['tail'] = z3.Concat(one(x), L.env['tail'])
    loop(c, 'normalize_path_parts', 1, Loop(inv=inv1, lists={'parts': StrC}, havoc=split1, on_entry=lambda L: {'tail': E0}, on_step=step1))
    def inv2(L):
        parts = L.parts.as_term(StrC); td = L.t('to_delete')
        dots_def(L.ctx, td)
        tail = z3.Extract(parts, td, ln(parts) - td)
        return {
            'bounds': z3.And(td >= 0, td <= ln(parts)),
            'pending, finished': parts == z3.Concat(DOTS(td), F(d, z3.IntVal(0))),
            'length tracked': L.t('parts_length') == ln(parts),
            'deletions counted': L.t('deleted_count') == n - ln(parts),
            'no dot segment in the result': z3.And(z3.Not(has(F(d, z3.IntVal(0)), DOTDOT)), z3.Not(has(F(d, z3.IntVal(0)), DOT))),
        }
    loop(c, 'normalize_path_parts', 2, Loop(inv=inv2, dec=lambda L: L.t('to_delete'), lists={'parts': StrC}))


@proof('normalize_path_parts resolves exactly the dot segments')
def _(c):
    orig = c.fresh('parts', LS)
    n = ln(orig)
    d = c.fresh('without_dots', LS)
    c.assume(d == single_dots(orig))
    parts = LList(c, seq=orig, codec=StrC)
    nodot_def(c, orig, z3.IntVal(0)); nodot_def(c, orig, n - 1)
    f_def(c, d, ln(d), z3.IntVal(0)); dots_def(c, z3.IntVal(0))
    loop_contracts(c, orig, d)
    r = attempt(c, normalize_path_parts, parts)
    no_raise(c, r)
    want = F(d, z3.IntVal(0))
    none = z3.Or(ln(want) == 0, z3.And(want == one(EMPTY), n > 1))
    if r.value is None: c.prove('None exactly when nothing (or only an empty last segment) is left', none)
    else:
        got = r.value.as_term(StrC)
        c.prove('not None otherwise', z3.Not(none))
        c.prove('result is the resolved path', got == want)
        c.prove('no dot segment is left', z3.And(z3.Not(has(got, DOT)), z3.Not(has(got, DOTDOT))))


@proof('lemma: resolving from the right equals the RFC 3986 stack, by induction on the segments')
def _(c):
    s = c.fresh('s', LS); x = c.fresh('x', SEQ); p = c.fresh('p', I); q = c.fresh('q', I)
    c.assume(p >= 0)
    def drop(t, k): return z3.If(k >= ln(t), E0, z3.Extract(t, 0, ln(t) - k))
    S = STACK(s)
    sx = z3.Concat(s, one(x))
    # definitions at s.x
    c.assume(STACK(sx) == z3.If(x == DOTDOT, drop(S, z3.IntVal(1)), z3.Concat(S, one(x))))
    c.assume(F(sx, p) == z3.If(x == DOTDOT, F(s, p + 1), z3.If(p == 0, z3.Concat(F(s, z3.IntVal(0)), one(x)), F(s, p - 1))))
    # induction hypothesis at the arguments used
    for a in (p + 1, p - 1, z3.IntVal(0)): c.assume(z3.Implies(a >= 0, F(s, a) == drop(S, a)))
    c.prove('step', F(sx, p) == drop(STACK(sx), p))
    c.assume(STACK(E0) == E0, F(E0, p) == E0)
    c.prove('base', F(E0, p) == drop(STACK(E0), p))


@proof('a path without dot segments is left alone (with the above: idempotent)')
def _(c):
    orig = c.fresh('parts', LS)
    n = ln(orig)
    c.assume(n > 0, z3.Not(has(orig, DOT)), z3.Not(has(orig, DOTDOT)))
    parts = LList(c, seq=orig, codec=StrC)
    def inv0(L):
        parts = L.parts.as_term(StrC); index = L.t('index')
        c.fact(z3.Implies(z3.And(index >= 0, index < n), z3.And(orig[index] != DOT, orig[index] != DOTDOT)))
        return {'unchanged': parts == orig, 'bounds': z3.And(index >= 0, index <= n), 'length': L.t('parts_length') == n, 'deleted': L.t('deleted_count') == 0}
    loop(c, 'normalize_path_parts', 0, Loop(inv=inv0, dec=lambda L: n - L.t('index'), lists={'parts': StrC}))
    def inv1(L):
        parts = L.parts.as_term(StrC); i = L._n - L._i
        c.fact(z3.Implies(z3.And(i > 0, i <= n), z3.And(orig[i - 1] != DOT, orig[i - 1] != DOTDOT)))
        return {'unchanged': parts == orig, 'none pending': L.t('to_delete') == 0, 'length': L.t('parts_length') == n, 'deleted': L.t('deleted_count') == 0, 'n': L._n == n}
    loop(c, 'normalize_path_parts', 1, Loop(inv=inv1, lists={'parts': StrC}))
    loop(c, 'normalize_path_parts', 2, Loop(inv=lambda L: {'none pending': L.t('to_delete') == 0, 'unchanged': L.parts.as_term(StrC) == orig, 'length': L.t('parts_length') == n, 'deleted': L.t('deleted_count') == 0}, lists={'parts': StrC}))
    r = attempt(c, normalize_path_parts, parts)
    no_raise(c, r)
    c.prove('returned', bv(r.value is not None))
    if r.value is not None: c.prove('unchanged', r.value.as_term(StrC) == orig)


RULE = 'random segment lists over {".", "..", "", names} and random path texts; distinct by content'
SEARCH_S = 5

def oracle(parts):
    n = len(parts)
    if parts and parts[-1] == '.' and any(p != '.' for p in parts): d = [p for p in parts if p != '.'] + ['']
    else: d = [p for p in parts if p != '.']
    out = []
    for p in d:
        if p == '..':
            if out: out.pop()
        else: out.append(p)
    if not out or (out == [''] and n > 1): return None
    return out

def cases(rng, part, parts):
    pool = ['.', '..', '', 'a', 'b', '...', '.a', 'c d']
    while True:
        l = [rng.choice(pool) for _ in range(rng.randint(0, 9))]
        yield ['parts', l]
        if rng.random() < .3: yield ['path', rng.choice(['', '/']) + '/'.join(l)]

def check_case(case):
    kind, v = case
    if kind == 'parts':
        want = oracle(v)
        got = normalize_path_parts(list(v))
        if got != want: return f'normalize_path_parts({v!r}) = {got!r}, expected {want!r}'
        if got is not None:
            again = normalize_path_parts(list(got))
            if again != got: return f'normalising {got!r} again gives {again!r}'
        return None
    got = URLPath._parse(v, False)
    t = v[1:] if v.startswith('/') else v
    l = t.split('/')
    if not l[0]: del l[0]
    want = oracle(l) if v else None
    want = None if want is None else tuple(want)
    if got != want: return f'parsing the path {v!r} gives {got!r}, expected {want!r}'
    return None

def shrink(case):
    kind, v = case
    if kind == 'parts':
        for k in range(len(v)): yield [kind, v[:k] + v[k + 1:]]
