"""C18: DNS messages: query layout and response parsing."""
from contracts.dns import *
from scarletio.dns_query.question import Question
from scarletio.dns_query.resource_record import ResourceRecord
from scarletio.dns_query.result import Result
from scarletio.dns_query.query import Query
PROOFS, proof = proof_registry()
TRUSTED = ['the recursive definitions of encoded names (see C17), question and record sections', 'int.to_bytes / int.from_bytes: big endian, exact', 'labels are legal: 1 to 63 bytes; types and classes are 16 bit, durations 32 bit, record data at most 65535 bytes, at most 65535 entries per section']
DESIGN = '''Sections are defined recursively (well-formed, entries, end), for questions and for records. The section parsers are proved against the
definition by loop invariants for every byte string and count; `parse_result_data` against their contracts; `build_query_data` is proved
to be the concatenation the message format prescribes for any number of questions, labels and additional records; a lemma by
induction shows that what is built reads back as the same labels and questions.'''

# ------------------------------------------------ entries as terms
QT = z3.Datatype('QuestionT'); QT.declare('question', ('q_labels', SEQ2), ('q_type', I), ('q_class', I)); QT = QT.create()
RT = z3.Datatype('RecordT'); RT.declare('record', ('r_labels', SEQ2), ('r_type', I), ('r_class', I), ('r_duration', I), ('r_data', SEQ)); RT = RT.create()
def dec_labels(ctx, t):
    if ctx.branch(z3.Length(t) == 0): return None
    return LList(ctx, seq=t, codec=LBL, kind='tuple')
class QuestionC(Codec):
    sort = QT; key = 'question'
    def enc(self, ctx, v):
        if not isinstance(v, Inst) or v.cls is not Question: raise Unsupported('question expected')
        ctx.prove('no labels are None, labels are a tuple', bv(v.fields['labels'] is None or getattr(v.fields['labels'], 'kind', None) == 'tuple'))
        return QT.question(labels_term(v.fields['labels']), iterm(v.fields['resource_record_type']), iterm(v.fields['class_code']))
    def dec(self, ctx, t):
        return Inst(ctx, Question, {'labels': LazyLabels(QT.q_labels(t)), 'resource_record_type': SInt(QT.q_type(t)), 'class_code': SInt(QT.q_class(t))})
class RecordC(Codec):
    sort = RT; key = 'record'
    def enc(self, ctx, v):
        if not isinstance(v, Inst) or v.cls is not ResourceRecord: raise Unsupported('record expected')
        f = v.fields
        ctx.prove('no labels are None, labels are a tuple', bv(f['labels'] is None or getattr(f['labels'], 'kind', None) == 'tuple'))
        return RT.record(labels_term(f['labels']), iterm(f['resource_record_type']), iterm(f['class_code']), iterm(f['validity_duration']), z3.Empty(SEQ) if f['data'] is None else sterm(f['data']))
    def dec(self, ctx, t):
        return Inst(ctx, ResourceRecord, {'labels': LazyLabels(RT.r_labels(t)), 'resource_record_type': SInt(RT.r_type(t)), 'class_code': SInt(RT.r_class(t)), 'validity_duration': SInt(RT.r_duration(t)), 'data': LazyData(RT.r_data(t))})
class LazyLabels(interp.LazyField):
    def __init__(self, t): self.t = t
    def make(self, ctx): return dec_labels(ctx, self.t)
class LazyData(interp.LazyField):
    def __init__(self, t): self.t = t
    def make(self, ctx): return None if ctx.branch(z3.Length(self.t) == 0) else SSeq(self.t, 'bytes')
QC, RC = QuestionC(), RecordC()
SQ, SR = z3.SeqSort(QT), z3.SeqSort(RT)

def be(d, i, n):
    r = z3.IntVal(0)
    for k in range(n): r = r * 256 + d[i + k]
    return r
def byte_facts(c, d, i, n):
    for k in range(n): c.fact(z3.Implies(z3.And(0 <= i + k, i + k < z3.Length(d)), z3.And(d[i + k] >= 0, d[i + k] <= 255)))

QOK = z3.Function('questions_well_formed', SEQ, I, I, B); QS = z3.Function('questions', SEQ, I, I, SQ); QEND = z3.Function('questions_end', SEQ, I, I, I)
ROK = z3.Function('records_well_formed', SEQ, I, I, B); RS = z3.Function('records', SEQ, I, I, SR); REND = z3.Function('records_end', SEQ, I, I, I)

def unfold_q(c, d, i, k):
    n = z3.Length(d); e = END(d, i)
    c.fact(z3.Implies(k == 0, z3.And(QOK(d, i, k), QS(d, i, k) == z3.Empty(SQ), QEND(d, i, k) == i)))
    c.fact(z3.Implies(k > 0, QOK(d, i, k) == z3.And(OK(d, i, i), e + 4 <= n, QOK(d, e + 4, k - 1))))
    c.fact(z3.Implies(z3.And(k > 0, OK(d, i, i), e + 4 <= n), z3.And(QS(d, i, k) == z3.Concat(z3.Unit(QT.question(LABELS(d, i, i), be(d, e, 2), be(d, e + 2, 2))), QS(d, e + 4, k - 1)), QEND(d, i, k) == QEND(d, e + 4, k - 1))))
    byte_facts(c, d, e, 4)
def unfold_r(c, d, i, k):
    n = z3.Length(d); e = END(d, i); ln = be(d, e + 8, 2); nx = e + 10 + ln
    c.fact(z3.Implies(k == 0, z3.And(ROK(d, i, k), RS(d, i, k) == z3.Empty(SR), REND(d, i, k) == i)))
    c.fact(z3.Implies(k > 0, ROK(d, i, k) == z3.And(OK(d, i, i), e + 10 <= n, nx <= n, ROK(d, nx, k - 1))))
    c.fact(z3.Implies(z3.And(k > 0, OK(d, i, i), e + 10 <= n, nx <= n), z3.And(
        RS(d, i, k) == z3.Concat(z3.Unit(RT.record(LABELS(d, i, i), be(d, e, 2), be(d, e + 2, 2), be(d, e + 4, 4), z3.Extract(d, e + 10, ln))), RS(d, nx, k - 1)), REND(d, i, k) == REND(d, nx, k - 1))))
    byte_facts(c, d, e, 10)

def section(c, name, fn, OKF, SF, ENDF, unf, codec, sort, var):
    data = c.bytes('data'); d = data.t
    i0 = c.int('index'); count = c.int('count'); c.assume(i0.t >= 0, count.t >= 0)
    use(c, D._parse_labels, parse_labels_contract)
    unf(c, d, i0.t, count.t)
    def shape(ctx): return LList(ctx, seq=ctx.fresh('entries', sort), codec=codec) if ctx.choose(2) else None
    def seq(v): return z3.Empty(sort) if v is None else v.as_term(codec)
    def inv(L):
        p = L.t('index'); left = count.t - L._i
        unf(L.ctx, d, p, left)
        v = getattr(L, var)
        return {'range': z3.And(p >= 0, L._i >= 0, left >= 0),
            'well-formed exactly when the rest is': OKF(d, i0.t, count.t) == OKF(d, p, left),
            'entries so far and the rest': z3.Implies(OKF(d, p, left), SF(d, i0.t, count.t) == z3.Concat(seq(v), SF(d, p, left))),
            'end': z3.Implies(OKF(d, p, left), ENDF(d, i0.t, count.t) == ENDF(d, p, left)),
            'number': z3.Length(seq(v)) == L._i, 'present': z3.BoolVal(True) if v is None else L._i >= 1}
    loop(c, fn.__qualname__, 0, Loop(inv=inv, shapes={var: shape}))
    r = attempt(c, fn, data, i0, count)
    no_raise(c, r)
    c.prove('a pair', bv(isinstance(r.value, tuple) and len(r.value) == 2))
    got, err = r.value
    if err is None:
        entries, end = got
        c.prove('well formed', OKF(d, i0.t, count.t))
        c.prove('exactly the entries spelled there', seq(entries) == SF(d, i0.t, count.t))
        c.prove('none instead of no entries, else a tuple', z3.And(bv(entries is None) == (count.t == 0), bv(entries is None or isinstance(entries, tuple) or entries.kind == 'tuple')))
        c.prove('position after them', iterm(end) == ENDF(d, i0.t, count.t))
    else:
        c.prove('an error object, and nothing else', bv(is_error(err) and got is None))
        c.prove('only when not well formed', z3.Not(OKF(d, i0.t, count.t)))

@proof('question section parsing is exact')
def _(c): section(c, 'questions', D._parse_questions, QOK, QS, QEND, unfold_q, QC, SQ, 'questions')

@proof('record section parsing is exact')
def _(c): section(c, 'records', D._parse_resource_records, ROK, RS, REND, unfold_r, RC, SR, 'resource_records')

def section_contract(OKF, SF, ENDF, codec):
    def h(ctx, data, index, count):
        d = sterm(data); i, k = iterm(index), iterm(count)
        ctx.prove('sections are asked for inside sensible bounds', z3.And(i >= 0, k >= 0))
        if ctx.branch(OKF(d, i, k)):
            s = SF(d, i, k); ctx.fact(z3.And(ENDF(d, i, k) >= i, z3.Length(s) == k))
            return ((None if ctx.branch(k == 0) else LList(ctx, seq=s, codec=codec, kind='tuple'), SInt(ENDF(d, i, k))), None)
        return (None, Inst(ctx, ResponseParsingError, {'parsing_error_response_data': data}))
    return h

@proof('a response is read as its header says, section by section, or refused')
def _(c):
    data = c.bytes('data'); d = data.t; n = z3.Length(d)
    use(c, D._parse_questions, section_contract(QOK, QS, QEND, QC))
    use(c, D._parse_resource_records, section_contract(ROK, RS, REND, RC))
    byte_facts(c, d, z3.IntVal(0), 12)
    z = lambda k: z3.IntVal(k)
    q, a, b, x = (be(d, z(k), 2) for k in (4, 6, 8, 10))
    i1 = QEND(d, z(12), q); i2 = REND(d, i1, a); i3 = REND(d, i2, b)
    ok = z3.And(n >= 12, QOK(d, z(12), q), ROK(d, i1, a), ROK(d, i2, b), ROK(d, i3, x))
    r = attempt(c, D.parse_result_data, data)
    no_raise(c, r)
    got, err = r.value
    if err is not None:
        c.prove('an error object, and nothing else', bv(is_error(err) and got is None))
        c.prove('only when a section is not well formed', z3.Not(ok)); return
    c.prove('well formed', ok)
    c.prove('a result', bv(isinstance(got, Inst) and got.cls is Result))
    f = got.fields
    def seq(v, codec, sort): return z3.Empty(sort) if v is None else v.as_term(codec)
    flag = lambda bit: (d[2 if bit >= 8 else 3] / (1 << (bit % 8))) % 2 == 1
    for k, v in {'truncated': flag(9), 'recursion_available': flag(7), 'data_verified': flag(5)}.items(): c.prove(f'flag {k}', truth(c, f[k]) == v)
    c.prove('transaction id', iterm(f['transaction_id']) == be(d, z(0), 2))
    c.prove('response code', iterm(f['response_code']) == d[3] % 16)
    for k, (w, kk) in {'questions': (z3.Implies(q > 0, seq(f['questions'], QC, SQ) == QS(d, z(12), q)), q), 'answers': (z3.Implies(a > 0, seq(f['answers'], RC, SR) == RS(d, i1, a)), a), 'authority_resource_records': (z3.Implies(b > 0, seq(f['authority_resource_records'], RC, SR) == RS(d, i2, b)), b), 'additional_resource_records': (z3.Implies(x > 0, seq(f['additional_resource_records'], RC, SR) == RS(d, i3, x)), x)}.items():
        c.prove(f'{k} as spelled', z3.And(w, bv(f[k] is None) == (kk == 0)))

# ------------------------------------------------ building
ENC = z3.Function('encoded_labels_from', SEQ2, I, SEQ)     # labels j.. and the closing zero
QENC = z3.Function('encoded_questions_from', SQ, I, SEQ)
RENC = z3.Function('encoded_records_from', SR, I, SEQ)
def tob(c, t, n): return sterm(mkseq(models.int_to_bytes_term(c, t, n, 'big'), 'bytes'))
def unfold_enc(c, l, j):
    n = z3.Length(l)
    c.fact(z3.Implies(z3.And(0 <= j, j < n), ENC(l, j) == z3.Concat(z3.Unit(z3.Length(l[j])), l[j], ENC(l, j + 1))))
    c.fact(z3.Implies(j == n, ENC(l, j) == z3.Unit(z3.IntVal(0))))
def unfold_qenc(c, q, i):
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(q)), QENC(q, i) == z3.Concat(ENC(QT.q_labels(q[i]), z3.IntVal(0)), tob(c, QT.q_type(q[i]), 2), tob(c, QT.q_class(q[i]), 2), QENC(q, i + 1))))
    c.fact(z3.Implies(i == z3.Length(q), QENC(q, i) == z3.Empty(SEQ)))
def unfold_renc(c, r, i):
    x = r[i]
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(r)), RENC(r, i) == z3.Concat(ENC(RT.r_labels(x), z3.IntVal(0)), tob(c, RT.r_type(x), 2), tob(c, RT.r_class(x), 2), tob(c, RT.r_duration(x), 4), tob(c, z3.Length(RT.r_data(x)), 2), RT.r_data(x), RENC(r, i + 1))))
    c.fact(z3.Implies(i == z3.Length(r), RENC(r, i) == z3.Empty(SEQ)))
LPRE = z3.Function('encoded_first_labels', SEQ2, I, SEQ)   # the first j labels
QPRE = z3.Function('encoded_first_questions', SQ, I, SEQ)
RPRE = z3.Function('encoded_first_records', SR, I, SEQ)
def unfold_lpre(c, l, j):
    c.fact(z3.Implies(z3.And(0 <= j, j < z3.Length(l)), LPRE(l, j + 1) == z3.Concat(LPRE(l, j), z3.Unit(z3.Length(l[j])), l[j])))
def unfold_qpre(c, q, i):
    l = QT.q_labels(q[i])
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(q)), QPRE(q, i + 1) == z3.Concat(QPRE(q, i), LPRE(l, z3.Length(l)), z3.Unit(z3.IntVal(0)), tob(c, QT.q_type(q[i]), 2), tob(c, QT.q_class(q[i]), 2))))
def unfold_rpre(c, r, i):
    x = r[i]; l = RT.r_labels(x)
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(r)), RPRE(r, i + 1) == z3.Concat(RPRE(r, i), LPRE(l, z3.Length(l)), z3.Unit(z3.IntVal(0)), tob(c, RT.r_type(x), 2), tob(c, RT.r_class(x), 2), tob(c, RT.r_duration(x), 4), tob(c, z3.Length(RT.r_data(x)), 2), RT.r_data(x))))
def legal(l):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.Length(l)), z3.And(z3.Length(l[j]) >= 1, z3.Length(l[j]) <= 63)), patterns=[l[j]])
def legal_q(c, q, i):
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(q)), z3.And(QT.q_type(q[i]) >= 0, QT.q_type(q[i]) < 65536, QT.q_class(q[i]) >= 0, QT.q_class(q[i]) < 65536)))
def legal_r(c, r, i):
    x = r[i]
    c.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(r)), z3.And(RT.r_type(x) >= 0, RT.r_type(x) < 65536, RT.r_class(x) >= 0, RT.r_class(x) < 65536, RT.r_duration(x) >= 0, RT.r_duration(x) < 2 ** 32, z3.Length(RT.r_data(x)) < 65536)))

@proof('a query is the message its questions and records make')
def _(c):
    c.ghost['abstract_to_bytes'] = True
    qs = c.fresh('questions', SQ); rs = c.fresh('records', SR)
    nq, nr = z3.Length(qs), z3.Length(rs)
    c.assume(nq < 65536, nr < 65536)
    tid = c.int('transaction_id'); c.assume(tid.t >= 0, tid.t < 65536)
    rd, dv, opt = c.bool('recursion_desired'), c.bool('data_verification_desired'), c.bool('option_set_verified_data_in_requests')
    query = inst(c, Query, transaction_id=tid, recursion_desired=rd, data_verification_desired=dv, questions=None if c.branch(nq == 0) else LList(c, seq=qs, codec=QC, kind='tuple'), additional_resource_records=None if c.branch(nr == 0) else LList(c, seq=rs, codec=RC, kind='tuple'))
    class ConfI(Iface):
        name = 'resolve configuration'
        def get_option_set_verified_data_in_requests(self, ctx, o): return opt
    conf = Opaque(c.fresh('conf', OBJ), ConfI())
    bit = lambda v: z3.If(v.t, 1, 0); z = z3.IntVal(0)
    head = z3.Concat(tob(c, tid.t, 2), tob(c, bit(rd) * 256 + bit(opt) * 32 + bit(dv) * 16, 2), tob(c, nq, 2), lit(bytes(4)), tob(c, nr, 2))
    c.fact(QPRE(qs, z) == z3.Empty(SEQ)); c.fact(RPRE(rs, z) == z3.Empty(SEQ))
    cur = {}
    def outer(ss, unf, leg, before, PRE, labels_of):
        def inv(L):
            i = L._i; cur['i'] = i
            l = labels_of(ss[i])
            unf(L.ctx, ss, i); leg(L.ctx, ss, i)
            L.ctx.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(ss)), legal(l))); L.ctx.fact(LPRE(l, z) == z3.Empty(SEQ))
            return {'written so far': flat_term(L.ctx, L.parts.as_term(BytesC)) == z3.Concat(*before, PRE(ss, i)), 'range': z3.And(i >= 0, i <= L._n, L._n == z3.Length(ss))}
        def step(L): unf(L.ctx, ss, L._i - 1)
        return Loop(inv=inv, lists={'parts': BytesC}, on_step=step)
    def inner(ss, before, PRE, labels_of):
        def inv(L):
            i = cur['i']; l = labels_of(ss[i]); j = L._i
            unfold_lpre(L.ctx, l, j)
            return {'written so far': flat_term(L.ctx, L.parts.as_term(BytesC)) == z3.Concat(*before, PRE(ss, i), LPRE(l, j)), 'range': z3.And(j >= 0, j <= L._n, L._n == z3.Length(l))}
        return Loop(inv=inv, lists={'parts': BytesC})
    f = D.build_query_data.__qualname__
    loop(c, f, 0, outer(qs, unfold_qpre, legal_q, [head], QPRE, QT.q_labels))
    loop(c, f, 1, inner(qs, [head], QPRE, QT.q_labels))
    loop(c, f, 2, outer(rs, unfold_rpre, legal_r, [head, QPRE(qs, nq)], RPRE, RT.r_labels))
    loop(c, f, 3, inner(rs, [head, QPRE(qs, nq)], RPRE, RT.r_labels))
    r = attempt(c, D.build_query_data, query, conf)
    no_raise(c, r)
    c.prove('the message', sterm(r.value) == z3.Concat(head, QPRE(qs, nq), RPRE(rs, nr)))

@proof('lemma: encoded labels read back as the labels, by induction on the labels')
def _(c):
    A, Bt = c.fresh('before', SEQ), c.fresh('after', SEQ); l = c.fresh('labels', SEQ2); j = c.fresh('j', I); lim = c.fresh('lim', I)
    n = z3.Length(l)
    c.assume(j >= 0, j <= n, z3.Implies(j < n, z3.And(z3.Length(l[j]) >= 1, z3.Length(l[j]) <= 63)))
    unfold_enc(c, l, j)
    if c.branch(j < n):
        d = z3.Concat(A, z3.Unit(z3.Length(l[j])), l[j], ENC(l, j + 1), Bt)
        p = z3.Length(A); nx = p + 1 + z3.Length(l[j])
        tail = z3.Extract(l, j, n - j); tail1 = z3.Extract(l, j + 1, n - j - 1)
        c.fact(tail == z3.Concat(z3.Unit(l[j]), tail1))
        # induction hypothesis for the next label, with the longer text before it
        c.assume(OK(d, nx, lim), LABELS(d, nx, lim) == tail1, END(d, nx) == nx + z3.Length(ENC(l, j + 1)))
        unfold(c, d, p, lim)
        c.prove('the first byte is the length', d[p] == z3.Length(l[j]))
        c.prove('the label follows', z3.Extract(d, p + 1, z3.Length(l[j])) == l[j])
        c.prove('well formed', OK(d, p, lim))
        c.prove('the labels', LABELS(d, p, lim) == tail)
        c.prove('the end', END(d, p) == p + z3.Length(ENC(l, j)))
    else:
        d = z3.Concat(A, z3.Unit(z3.IntVal(0)), Bt); p = z3.Length(A)
        unfold(c, d, p, lim)
        c.prove('the closing zero', d[p] == 0)
        c.prove('no more labels', z3.And(OK(d, p, lim), LABELS(d, p, lim) == z3.Empty(SEQ2), END(d, p) == p + 1))

@proof('lemma: encoded questions read back as the questions, by induction on the questions')
def _(c):
    A, Bt = c.fresh('before', SEQ), c.fresh('after', SEQ); q = c.fresh('questions', SQ); i = c.fresh('i', I)
    n = z3.Length(q); c.assume(i >= 0, i < n)
    x = q[i]; l = QT.q_labels(x); z = z3.IntVal(0)
    c.assume(QT.q_type(x) >= 0, QT.q_type(x) < 65536, QT.q_class(x) >= 0, QT.q_class(x) < 65536)
    E = ENC(l, z)
    t2, c2 = tob(c, QT.q_type(x), 2), tob(c, QT.q_class(x), 2)
    d = z3.Concat(A, E, t2, c2, QENC(q, i + 1), Bt)
    p = z3.Length(A); e = p + z3.Length(E)
    c.assume(OK(d, p, p), LABELS(d, p, p) == l, END(d, p) == e)      # the lemma on labels
    k = n - i; tail1 = z3.Extract(q, i + 1, n - i - 1)
    c.fact(z3.Extract(q, i, n - i) == z3.Concat(z3.Unit(x), tail1))
    c.assume(QOK(d, e + 4, k - 1), QS(d, e + 4, k - 1) == tail1, QEND(d, e + 4, k - 1) == e + 4 + z3.Length(QENC(q, i + 1)))
    unfold_q(c, d, p, k); unfold_qenc(c, q, i)
    c.prove('the four bytes', z3.Extract(d, e, z3.IntVal(4)) == z3.Concat(t2, c2))
    w = z3.Concat(t2, c2)
    for m in range(4):
        c.prove(f'byte {m}', d[e + m] == w[m]); c.assume(d[e + m] == w[m])
    c.prove('type and class', z3.And(be(d, e, 2) == QT.q_type(x), be(d, e + 2, 2) == QT.q_class(x)))
    c.assume(be(d, e, 2) == QT.q_type(x), be(d, e + 2, 2) == QT.q_class(x))
    c.prove('well formed', QOK(d, p, k))
    c.prove('the questions', QS(d, p, k) == z3.Extract(q, i, n - i))
    c.prove('the end', QEND(d, p, k) == p + z3.Length(QENC(q, i)))

@proof('lemma: the first entries and the rest make the whole, by induction')
def _(c):
    c.ghost['abstract_to_bytes'] = True
    z = z3.IntVal(0); i = c.fresh('i', I)
    w = c.choose(3)
    s = c.fresh('entries', [SEQ2, SQ, SR][w]); PRE = [LPRE, QPRE, RPRE][w]; SUF = [ENC, QENC, RENC][w]
    [unfold_lpre, unfold_qpre, unfold_rpre][w](c, s, i); [unfold_enc, unfold_qenc, unfold_renc][w](c, s, i)
    n = z3.Length(s); c.assume(0 <= i, i < n)
    if w:
        l = (QT.q_labels if w == 1 else RT.r_labels)(s[i])
        c.assume(ENC(l, z) == z3.Concat(LPRE(l, z3.Length(l)), z3.Unit(z)))          # the same for the labels
    c.assume(SUF(s, z) == z3.Concat(PRE(s, i), SUF(s, i)))
    c.prove('one further', SUF(s, z) == z3.Concat(PRE(s, i + 1), SUF(s, i + 1)))

# ---------------------------------------------------------------- native
from scarletio.dns_query.resolve_configuration import ResolveConfiguration
import contracts.c17 as c17
RULE = 'queries of random questions and additional records, written and compared with an independent encoder, and read back; response byte strings built by an independent encoder with pointers in the names, then truncated, extended and mutated, read and compared with an independent decoder; distinct by content'
SEARCH_S = 6
def n_int(rng, bits): return rng.choice([0, 1, 255, 256, (1 << bits) - 1, rng.getrandbits(bits), rng.getrandbits(bits)])
def n_labels(rng): return [bytes(rng.choice(b'abc-\0\xff') for _ in range(rng.choice([1, 1, 2, 3, 63]))) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
def n_data(rng): return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 0, 1, 4, 4, 16, 300])))
def n_question(rng): return [n_labels(rng), n_int(rng, 16), n_int(rng, 16)]
def n_record(rng): return [n_labels(rng), n_int(rng, 16), n_int(rng, 16), n_int(rng, 32), n_data(rng)]
def enc_labels(l): return b''.join(bytes([len(x)]) + x for x in l) + b'\0'
def enc_q(q): return enc_labels(q[0]) + q[1].to_bytes(2, 'big') + q[2].to_bytes(2, 'big')
def enc_r(r): return enc_q(r) + r[3].to_bytes(4, 'big') + len(r[4]).to_bytes(2, 'big') + r[4]
def dec(data):
    """-> the response, or None"""
    if len(data) < 12: return None
    w = [data[k] * 256 + data[k + 1] for k in range(0, 12, 2)]
    i = 12; sections = []
    for k in range(4):
        out = []
        for _ in range(w[2 + k]):
            r = c17.reference(data, i)
            if r is None: return None
            l, i = r
            m = 4 if k == 0 else 10
            if i + m > len(data): return None
            f = data[i:i + m]; i += m
            e = [l, f[0] * 256 + f[1], f[2] * 256 + f[3]]
            if k:
                n = f[8] * 256 + f[9]
                if i + n > len(data): return None
                e += [int.from_bytes(f[4:8], 'big'), data[i:i + n]]; i += n
            out.append(e)
        sections.append(out)
    fl = w[1]
    return [w[0], bool(fl & 32), bool(fl & 512), bool(fl & 128), fl & 15, sections]
def cases(rng, part, parts):
    while True:
        if rng.random() < .4:
            yield ['query', n_int(rng, 16), rng.random() < .5, rng.random() < .5, rng.random() < .5, [n_question(rng) for _ in range(rng.choice([0, 1, 1, 2]))], [n_record(rng) for _ in range(rng.choice([0, 0, 1, 2]))]]
        else:
            qs = [n_question(rng) for _ in range(rng.choice([0, 1, 1, 2]))]; rs = [[n_record(rng) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(3)]
            d = bytearray(n_int(rng, 16).to_bytes(2, 'big') + n_int(rng, 16).to_bytes(2, 'big') + b''.join(len(x).to_bytes(2, 'big') for x in [qs] + rs))
            names = []
            for e in [enc_q(q) for q in qs] + [enc_r(r) for s in rs for r in s]:
                if names and rng.random() < .6:
                    k = 0
                    while e[k]: k += 1 + e[k]
                    t = rng.choice(names); e = (b'\2pp' if rng.random() < .5 else b'') + bytes([192 + (t >> 8), t & 255]) + e[k + 1:]
                if len(d) < 16000: names.append(len(d))
                d += e
            m = rng.random()
            if m < .2: d = d[:rng.randint(0, len(d))]
            elif m < .3: d += bytes([rng.getrandbits(8)])
            elif m < .6 and d:
                for _ in range(rng.randint(1, 3)): d[rng.choice([rng.randrange(len(d)), rng.randrange(min(len(d), 12))])] = rng.choice([0, 1, 2, 192, 255, rng.getrandbits(8)])
            yield ['response', bytes(d)]
def plain_q(q): return [[bytes(x) for x in q.labels or ()], q.resource_record_type, q.class_code]
def plain_r(r): return plain_q(r) + [r.validity_duration, bytes(r.data or b'')]
def check_case(case):
    if case[0] == 'query':
        _, tid, rd, dv, opt, qs, rs = case
        q = Query(tid, rd, dv, tuple(Question(tuple(l) or None, t, k) for l, t, k in qs) or None, tuple(ResourceRecord(tuple(l) or None, t, k, u, d or None) for l, t, k, u, d in rs) or None)
        conf = ResolveConfiguration()
        conf.option_set_verified_data_in_requests = opt
        got = D.build_query_data(q, conf)
        want = tid.to_bytes(2, 'big') + bytes([int(rd), 32 * opt + 16 * dv]) + len(qs).to_bytes(2, 'big') + bytes(4) + len(rs).to_bytes(2, 'big') + b''.join(map(enc_q, qs)) + b''.join(map(enc_r, rs))
        if got != want: return f'query written as {got!r}, it is {want!r}'
        data = got
    else: data = case[1]
    want = dec(data)
    r = D.parse_result_data(data)
    if not (isinstance(r, tuple) and len(r) == 2): return f'{data!r}: {r!r}'
    got, err = r
    if want is None:
        if got is not None or not isinstance(err, ResponseParsingError): return f'{data!r}: read as {got!r}, it is no message'
        return None
    if err is not None: return f'{data!r}: refused with {err!r}'
    secs = (got.questions, got.answers, got.authority_resource_records, got.additional_resource_records)
    have = [got.transaction_id, got.data_verified, got.truncated, got.recursion_available, got.response_code, [[(plain_r if k else plain_q)(e) for e in s or ()] for k, s in enumerate(secs)]]
    if have != want: return f'{data!r}: read as {have!r}, it is {want!r}'
    if any(s is not None and not s for s in secs): return f'{data!r}: empty section instead of none'
    return None
def shrink(case):
    if case[0] == 'query':
        for k in (5, 6):
            for j in range(len(case[k])): yield case[:k] + [case[k][:j] + case[k][j + 1:]] + case[k + 1:]
        for k in (2, 3, 4):
            if case[k]: yield case[:k] + [False] + case[k + 1:]
        if case[1]: yield [case[0], 0] + case[2:]
    else:
        d = case[1]
        for k in range(len(d), 0, -1):
            yield ['response', d[:k - 1] + d[k:]]
