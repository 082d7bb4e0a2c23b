"""C17: decoding a DNS name terminates, stays in bounds and decodes correctly."""
from contracts.dns import *
PROOFS, proof = proof_registry()
TRUSTED = ['the recursive definition of an encoded name in contracts/dns.py: a pointer has to go before the run of labels it is in (a prior occurrence, RFC 1035 4.1.4)', 'ResponseParsingError only stores what it is created with']
DESIGN = '''The name at a position is defined recursively (well-formed, labels, end). `_parse_labels` is proved to give exactly the defined labels and end, or an
error object exactly when the name is not well-formed; the variant (limit of the next jump, bytes left) proves termination for every
byte string, self-pointers and cycles included; every subscript is inside the data (an IndexError path is a failed obligation).'''

def error(ctx, cls, code, data, metadata):
    return Inst(ctx, ResponseParsingError, {'parsing_error_code': code, 'parsing_error_response_data': data, 'parsing_error_metadata': metadata})

def spec(c, d, i0, vars):
    """loop contract in terms of the local variables"""
    idx, lim, far, jumped, labels = vars
    def inv(L):
        p = L.t(idx); l = L.t(lim); f = L.t(far)
        j = L.env_jumped if False else truth(L.ctx, getattr(L, jumped))
        unfold(L.ctx, d, p, l)
        lt = labels_term(getattr(L, labels))
        return {
            'bounds': z3.And(p >= 0, l >= 0, l <= i0, p >= l),
            'well-formed exactly when the rest is': OK(d, i0, i0) == OK(d, p, l),
            'labels so far and the rest': z3.Implies(OK(d, p, l), LABELS(d, i0, i0) == z3.Concat(lt, LABELS(d, p, l))),
            'labels present': bv(getattr(L, labels) is None) if getattr(L, labels) is None else z3.Length(lt) >= 1,
            'end': z3.If(j, z3.And(f == END(d, i0)), END(d, i0) == END(d, p)),
            'the limit only sinks by jumps': z3.Implies(z3.Not(j), l == i0),
        }
    return Loop(inv=inv, dec=lambda L: (L.t(lim), z3.Length(d) - L.t(idx) + 1), shapes={labels: labels_shape})

@proof('a name is decoded exactly, or refused; reading it ends and stays in the data')
def _(c):
    data = c.bytes('data'); d = data.t
    i0 = c.int('index'); c.assume(i0.t >= 0)
    use(c, ResponseParsingError.__new__, error)
    unfold(c, d, i0.t, i0.t)
    loop(c, '_parse_labels', 0, spec(c, d, i0.t, ('index', 'start_index', 'furthest_index', 'jumped', 'labels')))
    r = attempt(c, D._parse_labels, data, i0)
    no_raise(c, r)
    v = r.value
    c.prove('a pair', bv(isinstance(v, tuple) and len(v) == 2))
    got, err = v
    if err is None:
        ok = isinstance(got, tuple) and len(got) == 2
        c.prove('labels and position', bv(ok))
        labels, end = got
        c.prove('well formed', OK(d, i0.t, i0.t))
        c.prove('exactly the labels spelled there', labels_term(labels) == LABELS(d, i0.t, i0.t))
        c.prove('none instead of no labels', bv(labels is None) == (z3.Length(LABELS(d, i0.t, i0.t)) == 0))
        c.prove('position right after the name', iterm(end) == END(d, i0.t))
    else:
        c.prove('an error object, and nothing else', bv(is_error(err) and got is None))
        c.prove('only when it is not well formed', z3.Not(OK(d, i0.t, i0.t)))
        c.prove('it carries the data', bv(err.fields.get('parsing_error_response_data') is data))

@proof('lemma: the position after a name is inside the data')
def _(c):
    # induction on the bytes left: from any position, given it for the later ones
    data = c.bytes('data'); d = data.t
    i = c.fresh('i', I); lim = c.fresh('lim', I)
    c.assume(i >= 0, OK(d, i, lim))
    unfold(c, d, i, lim)
    nx = i + 1 + d[i]; n = z3.Length(d)
    c.assume(z3.Implies(z3.And(nx > i, OK(d, nx, lim)), z3.And(END(d, nx) > nx, END(d, nx) <= n)))
    c.prove('after the name and inside', z3.And(END(d, i) > i, END(d, i) <= n))

@proof('pointer names: broken ones are none')
def _(c):
    data = c.bytes('data')
    use(c, D._parse_labels, parse_labels_contract)
    asked = []
    use(c, D.build_name_from_labels, lambda ctx, labels: asked.append(labels) or SSeq(ctx.fresh('name', SEQ), 'str'))
    given = None if c.choose(2) else data
    r = attempt(c, D.parse_domain_name_pointer_data, given)
    no_raise(c, r)
    z = z3.IntVal(0)
    if r.value is None:
        c.prove('none only when there is no name', z3.BoolVal(True) if given is None else z3.Or(z3.Length(data.t) == 0, z3.Not(OK(data.t, z, z)), z3.Length(LABELS(data.t, z, z)) == 0))
    else: c.prove('the text of its labels', z3.And(bv(len(asked) == 1), labels_term(asked[0]) == LABELS(data.t, z, z)))

# ---------------------------------------------------------------- native
RULE = 'byte strings built from labels, pointers (backward, self, cyclic, forward, out of range), broken lengths and random bytes, decoded at every position against an independent recursive decoder with a step limit; distinct by content'
SEARCH_S = 6
def reference(data, i):
    """-> (labels, end) or None"""
    labels = []; end = None; lim = i
    while True:
        if i >= len(data): return None
        b = data[i]
        if b == 0: return labels, (i + 1 if end is None else end)
        if b < 64:
            if i + 1 + b > len(data): return None
            labels.append(data[i + 1:i + 1 + b]); i += 1 + b; continue
        if b < 192 or i + 1 >= len(data): return None
        t = (b - 192) * 256 + data[i + 1]
        if end is None: end = i + 2
        if t >= lim: return None
        i = lim = t
def gen_data(rng):
    out = bytearray()
    for _ in range(rng.randint(1, 7)):
        k = rng.random()
        if k < .45:
            n = rng.choice([1, 1, 2, 3, 3, 63]); out.append(n); out += bytes(rng.choice(b'ab\0\xc0\1') for _ in range(n if rng.random() < .95 else n - 1))
        elif k < .65: out.append(0)
        elif k < .9:
            t = rng.choice([len(out), max(0, len(out) - 2), rng.randint(0, len(out) + 3), 0, 0, rng.randint(0, max(0, len(out) - 1))]); out += bytes([192 + (t >> 8), t & 255])
        else: out.append(rng.choice([64, 127, 128, 191, 192, 255, rng.randint(0, 255)]))
    if rng.random() < .05: out = bytearray(bytes([63]) + b'x' * 63) * rng.randint(4, 6) + out + bytes([193, 0])
    return bytes(out)
def cases(rng, part, parts):
    while True:
        d = gen_data(rng)
        yield [d, rng.choice([0, rng.randint(0, len(d) + 1)])]
def check_case(case):
    data, i = case
    want = reference(data, i)
    for x in (data, ):
        r = D._parse_labels(x, i)
        if not (isinstance(r, tuple) and len(r) == 2): return f'{data!r} at {i}: {r!r}'
        got, err = r
        if want is None:
            if got is not None or not isinstance(err, ResponseParsingError): return f'{data!r} at {i}: decoded as {got!r}, it is no name'
            try: repr(err), str(err)
            except Exception as e: return f'{data!r} at {i}: the error cannot be shown: {e!r}'
        else:
            if err is not None: return f'{data!r} at {i}: refused with {err!r}, it is {want!r}'
            if [bytes(l) for l in got[0] or ()] != want[0] or got[1] != want[1] or (got[0] is None) != (not want[0]): return f'{data!r} at {i}: decoded as {got!r}, it is {want!r}'
    if i == 0:
        try: r = D.parse_domain_name_pointer_data(data)
        except UnicodeError: return None
        if (r is None) != (not data or want is None or not want[0]): return f'pointer name {data!r}: {r!r}'
    return None
def shrink(case):
    d, i = case
    for k in range(len(d)): yield [d[:k] + d[k + 1:], i]
    if i: yield [d, i - 1]
    for k in range(len(d)):
        if d[k] not in (0, 97): yield [d[:k] + b'a' + d[k + 1:], i]
