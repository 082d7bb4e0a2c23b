"""C09: heads of HTTP messages."""
import functools
from pv.lib import *
from pv import regex, models
from pv.models import flat_term
from contracts.streams import SEQ2, FLAT, PRE, unfold_pre, fld
from scarletio.web_common import helpers as H, http_protocol as HP
from scarletio.web_common.http_protocol import HttpReadProtocol, HttpReadWriteProtocol
from scarletio.web_common.http_message import RawRequestMessage, RawResponseMessage
from scarletio.core.protocols_and_transports.protocol import ReadProtocolBase
from scarletio.web_common.exceptions import PayloadError
from scarletio.utils import IgnoreCaseMultiValueDictionary
PROOFS, proof = proof_registry()
TRUSTED = ['bytes.find gives the first position at or after the given one, or -1', 'the matches of the two start line patterns (their texts are fixed in the contract; compared with a plain parser natively)',
    'decoding with surrogateescape never fails', 'the header map keeps what is stored (C02), reads until a boundary (C08)']
DESIGN = '''The header block is described by recursive functions of the offset: where its line ends, its colon, the folded lines, whether the rest is well-formed and which names
and values it spells. The parser's loops keep "stored so far ++ spelled by the rest == spelled by the whole" (and the same for well-formedness), with a variant, so
it terminates for all bytes, stores exactly what is spelled, or fails with a payload error exactly when a line is malformed. Start lines: the parts the patterns give are
what is returned. Writing: the text on the wire is the start line and one line per header; lemma: the recursive functions give one such line back.'''
COLON = lit(':'); CRLF = lit('\r\n'); SP = lit(' ')
EOL = z3.Function('line_end', I, I); COL = z3.Function('colon', I, I)
PART = z3.Function('part_stripped', I, I, SEQ); DECS = z3.Function('utf8_dec_surrogateescape', SEQ, SEQ)
NAMES = z3.Function('names_from', I, SEQ2); VALUES = z3.Function('values_from', I, SEQ2); OKH = z3.Function('headers_ok', I, B)
FOLD = z3.Function('folded_from', I, SEQ); FEND = z3.Function('fold_end', I, I)
JOIN = z3.Function('join', SEQ, SEQ2, SEQ)

class Head:
    """one text; its lines, seen from an offset"""
    def __init__(self, c):
        self.data = c.bytes('data'); self.s = self.data.t; self.n = z3.Length(self.s)
        c.ghost['find'] = self.find; c.ghost['stripped'] = self.stripped
    def stripped(self, ctx, t, codes, r):
        if codes == {9, 10, 11, 12, 13, 32} and z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT) and t.arg(0).eq(self.s):
            lo = t.arg(1); ctx.fact(r == PART(lo, z3.simplify(lo + t.arg(2))))
            l = ctx.ghost.get('list')
            if l is not None: ctx.fact(JOIN(SP, z3.Concat(l, z3.Unit(r))) == z3.Concat(JOIN(SP, l), SP, r))
    def find(self, ctx, t, sub_, lo, hi):
        if not z3.simplify(t).eq(z3.simplify(self.s)): return None
        n = self.n
        if sub_.eq(CRLF):
            if not ctx.implied(hi == n): return None
            e = EOL(lo)
            if ctx.choose(2): ctx.assume(e == n); return z3.IntVal(-1)
            ctx.assume(lo <= e, e + 2 <= n); return e
        if sub_.eq(COLON):
            if not ctx.implied(hi == EOL(lo)): return None
            m = COL(lo); ctx.assume(z3.Or(m == -1, z3.And(lo <= m, m < hi))); return m
    def cont(self, o): return z3.And(o < self.n, z3.Or(self.s[o] == 9, self.s[o] == 32))
    def fold(self, c, o):
        e = EOL(o); nx = e + 2
        c.fact(z3.Implies(z3.Not(self.cont(o)), z3.And(FOLD(o) == empty(), FEND(o) == o)))
        c.fact(z3.Implies(self.cont(o), z3.And(FOLD(o) == z3.Concat(SP, PART(o, e), FOLD(nx)), FEND(o) == FEND(nx))))
    def unfold(self, c, o, ok):
        """what is spelled from here on; whether it is well-formed is known"""
        e, m = EOL(o), COL(o); nx = e + 2
        name, value = PART(o, m), z3.Concat(PART(m + 1, e), FOLD(nx)); rest = FEND(nx); good = z3.And(m > o, z3.Length(name) > 0)
        c.fact(z3.Implies(e <= o, z3.And(OKH(o), NAMES(o) == z3.Empty(SEQ2), VALUES(o) == z3.Empty(SEQ2))))
        c.fact(z3.Implies(e > o, OKH(o) == z3.And(good, OKH(rest))))
        if ok: c.fact(z3.Implies(e > o, z3.And(NAMES(o) == z3.Concat(z3.Unit(DECS(name)), NAMES(rest)), VALUES(o) == z3.Concat(z3.Unit(DECS(value)), VALUES(rest)))))

class StoreI(Iface):
    """the header map: what is stored, in order"""
    name = 'header map'
    types = (IgnoreCaseMultiValueDictionary,)
    def setitem(self, ctx, o, k, v): g = ctx.ghost; g['names'] = z3.Concat(g['names'], z3.Unit(sterm(k))); g['values'] = z3.Concat(g['values'], z3.Unit(sterm(v)))
STORE = StoreI()
class NewStoreI(Iface):
    name = 'IgnoreCaseMultiValueDictionary'
    def call(self, ctx, o, args, kwargs):
        ctx.prove('made empty', bv(not args and not kwargs and 'names' not in ctx.ghost)); ctx.ghost['names'] = ctx.ghost['values'] = z3.Empty(SEQ2)
        return Opaque(ctx.fresh('headers', OBJ), STORE)
def new_store(c): c.ghost.setdefault('globals', {})[None, 'IgnoreCaseMultiValueDictionary'] = Opaque(c.fresh('new', OBJ), NewStoreI())

@proof('the header block: exactly what is spelled, or a payload error')
def _(c):
    new_store(c)
    h = Head(c); g = c.ghost; n = h.n
    o0 = c.int('offset'); c.assume(o0.t >= 0, o0.t <= n); o0t = o0.t
    wf = c.branch(OKH(o0t))
    def inv(L):
        o = L.t('offset')
        d = {'in the data': z3.And(o >= 0, o <= n + 2), 'well-formed if the rest is': OKH(o) if wf else z3.Not(OKH(o))}
        if wf: d.update({'names': z3.Concat(g['names'], NAMES(o)) == NAMES(o0t), 'values': z3.Concat(g['values'], VALUES(o)) == VALUES(o0t)})
        return d
    def head(L): h.unfold(L.ctx, L.t('offset'), wf)
    def step(L): h.fold(L.ctx, L.t('offset'))
    def havoc(L):
        for k in ('names', 'values'): g[k] = L.ctx.fresh(k, SEQ2)
    def entry(L): g['fold0'] = (L.t('offset'), sterm(L.value))
    def inv2(L):
        ctx = L.ctx; o = L.t('offset'); o1, v = g['fold0']
        t = L.value_continuous.as_term(BytesC); t = z3.simplify(t)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT): ctx.fact(JOIN(SP, t) == t.arg(0))
        return {'in the data': z3.And(o >= o1, h.cont(o)), 'parts': z3.Length(t) > 0, 'joined so far': z3.Concat(JOIN(SP, t), FOLD(o)) == z3.Concat(v, FOLD(o1)), 'end': FEND(o) == FEND(o1)}
    def head2(L): h.fold(L.ctx, L.t('offset')); g['list'] = L.value_continuous.as_term(BytesC)
    def dec(L): return n + 2 - L.t('offset')
    # a folded header only ever moves forward
    loop(c, 'parse_http_headers', 0, Loop(inv=inv, dec=dec, havoc=havoc, on_head=head, on_step=step))
    loop(c, 'parse_http_headers', 1, Loop(inv=inv2, dec=dec, on_entry=entry, on_head=head2, lists={'value_continuous': BytesC}))
    r = attempt(c, H.parse_http_headers, h.data, o0)
    if r.raised: c.prove('a payload error', bv(r.is_a(PayloadError))); c.prove('only for malformed headers', bv(not wf)); return
    c.prove('well-formed', bv(wf))
    c.prove('the header map', bv(isinstance(r.value, Opaque) and r.value.iface is STORE))
    if wf: c.prove('every name in order', g['names'] == NAMES(o0t)); c.prove('every value in order', g['values'] == VALUES(o0t))

# ---- start lines
DIGITS = models.all_in(b'0123456789'); BLANKS = models.all_in(b' \t'); NOBREAK = z3.Function('no_line_break', SEQ, B)
UPPER = z3.Function('str_upper', SEQ, SEQ)
def digits(c, name, lo, hi):
    t = c.fresh(name, SEQ); c.assume(DIGITS(t), z3.Length(t) >= lo, z3.Length(t) <= hi)
    c.fact(z3.And(models.PY_INT_OK(t, z3.IntVal(10)), models.PY_INT(t, z3.IntVal(10)) >= 0)); return t
def blanks(c, name, lo):
    t = c.fresh(name, SEQ); c.assume(BLANKS(t), z3.Length(t) >= lo); return t
def tail(c):
    """what ends a start line: a line end, or the end of the text (with at most one newline left)"""
    k = c.choose(3)
    rest = (c.fresh('rest', SEQ), lit('\n'), empty())[k]
    return (CRLF if k == 0 else empty()), rest
def bts(t): return SSeq(t, 'bytes')
def start_line(c, kind):
    """the two patterns: what they match"""
    data = c.bytes('data'); g = c.ghost
    def match(ctx, s, pos=0):
        ctx.prove('the whole text is looked at', bv(s is data and pos == 0))
        if ctx.choose(2): g['no_match'] = True; return None
        end, rest = tail(ctx); b0, b1, b3 = blanks(ctx, 'b0', 0), blanks(ctx, 'b1', 1), blanks(ctx, 'b3', 0)
        major, minor = digits(ctx, 'major', 1, 9), digits(ctx, 'minor', 1, 9)
        ver = z3.Concat(lit('HTTP/'), major, lit('.'), minor)
        if kind == 'response':
            status = digits(ctx, 'status', 3, 3)
            if ctx.choose(2): b2, reason = blanks(ctx, 'b2', 1), ctx.fresh('reason', SEQ)
            else: b2, reason = empty(), None
            head = z3.Concat(b0, ver, b1, status, b2, empty() if reason is None else reason, b3, end)
            g['parts'] = (major, minor, status, reason)
            groups = (bts(major), bts(minor), bts(status), None if reason is None else bts(reason))
        else:
            method, path = ctx.fresh('method', SEQ), ctx.fresh('path', SEQ); b2 = blanks(ctx, 'b2', 1)
            ctx.assume(z3.Length(method) > 0, z3.Length(path) > 0)
            head = z3.Concat(b0, method, b1, path, b2, ver, b3, end)
            g['parts'] = (major, minor, method, path); groups = (bts(method), bts(path), bts(major), bts(minor))
        ctx.assume(data.t == z3.Concat(head, rest)); g['end'] = z3.Length(head)
        return regex.make_match(ctx, groups, bts(head), (0, SInt(z3.Length(head))))
    pat = dict(response=b'[ \t]*HTTP/(\\d{1,9})\\.(\\d{1,9})[ \t]+(\\d\\d\\d)(?:[ \t]+(.*?))?[ \t]*(?:\r\n|$)', request=b'[ \t]*([^ \t\r\n]+)[ \t]+([^ \t\r\n]+)[ \t]+HTTP/(\\d{1,9})\\.(\\d{1,9})[ \t]*(?:\r\n|$)')[kind]
    regex.contract(c, pat, 'match', match)
    def headers(ctx, d, offset):
        ctx.prove('the headers are read from behind the start line', z3.And(bv(d is data), it(offset) == g['end']))
        if ctx.choose(2): g['bad headers'] = True; raise PyExc(Inst(ctx, PayloadError, {'args': ()}))
        g['headers'] = Opaque(ctx.fresh('headers', OBJ), STORE); return g['headers']
    use(c, H.parse_http_headers, headers)
    use(c, H.HttpVersion.__new__, lambda ctx, cls, major, minor: (major, minor))
    return data
def it(x): return x.t if isinstance(x, SInt) else z3.IntVal(x)
def check_version(c, v, major, minor):
    ten = z3.IntVal(10)
    a, b = v
    c.prove('its version', z3.And(it(a) == models.PY_INT(major, ten), it(b) == models.PY_INT(minor, ten)))

@proof('the status line: version, status and reason as spelled, or a payload error')
def _(c):
    data = start_line(c, 'response'); g = c.ghost
    r = attempt(c, H.parse_http_response, data)
    if r.raised: c.prove('a payload error', bv(r.is_a(PayloadError))); c.prove('only if there is no such start line or the headers are malformed', bv(bool(g.get('no_match') or g.get('bad headers')))); return
    c.prove('a start line was found', bv('parts' in g and 'headers' in g))
    m = r.value; major, minor, status, reason = g['parts']
    c.prove('a response', bv(isinstance(m, Inst) and m.cls is RawResponseMessage)); check_version(c, m.fields['version'], major, minor)
    c.prove('its status', it(m.fields['status']) == models.PY_INT(status, z3.IntVal(10)))
    got = m.fields['reason']
    if got is None: c.prove('no reason', bv(True) if reason is None else z3.Length(reason) == 0)
    else: c.prove('its reason', bv(reason is not None and is_str(got)) if reason is None else z3.And(z3.Length(reason) > 0, sterm(got) == DECS(reason)))
    c.prove('its headers', bv(m.fields['headers'] is g['headers']))

@proof('the request line: method, path and version as spelled, or a payload error')
def _(c):
    data = start_line(c, 'request'); g = c.ghost
    r = attempt(c, H.parse_http_request, data)
    if r.raised: c.prove('a payload error', bv(r.is_a(PayloadError))); c.prove('only if there is no such start line or the headers are malformed', bv(bool(g.get('no_match') or g.get('bad headers')))); return
    c.prove('a start line was found', bv('parts' in g and 'headers' in g))
    m = r.value; major, minor, method, path = g['parts']
    c.prove('a request', bv(isinstance(m, Inst) and m.cls is RawRequestMessage)); check_version(c, m.fields['version'], major, minor)
    c.prove('its method', sterm(m.fields['method']) == UPPER(DECS(method)))
    c.prove('its path', sterm(m.fields['path']) == DECS(path))
    c.prove('its headers', bv(m.fields['headers'] is g['headers']))

for _kind, _read, _parse in (('response', HttpReadProtocol.read_http_response, H.parse_http_response), ('request', HttpReadProtocol.read_http_request, H.parse_http_request)):
    @proof(f'reading a {_kind}: exactly the bytes up to the blank line are parsed')
    def _(c, _read=_read, _parse=_parse):
        g = c.ghost; p = inst(c, HttpReadProtocol)
        c.await_handler = lambda ctx, v: v
        head = c.bytes('head')
        def until(ctx, self, b):
            ctx.prove('up to the blank line, once', z3.And(bv(self is p and 'read' not in g), sterm(b) == lit('\r\n\r\n'))); g['read'] = k = ctx.choose(4)
            if k == 0: return head
            cause = None if k == 1 else Inst(ctx, (EOFError, OSError)[k - 2], {'args': ()})
            g['lost'] = Inst(ctx, ConnectionError, {'args': (), '__cause__': cause}); raise PyExc(g['lost'])
        use(c, ReadProtocolBase.read_until, until)
        def parse(ctx, data):
            ctx.prove('what was read is parsed', bv(data is head)); g['message'] = ctx.choose(2)
            if g['message']: g['error'] = Inst(ctx, PayloadError, {'args': ()}); raise PyExc(g['error'])
            g['value'] = Opaque(ctx.fresh('message', OBJ), None); return g['value']
        use(c, _parse, parse)
        r = attempt(c, _read, p); k = g.get('read')
        c.prove('it reads', bv(k is not None))
        if r.raised:
            if k == 0: c.prove("the parser's error", bv(g.get('message') == 1 and r.exc is g['error']))
            elif k == 2: c.prove('a head which is cut short is a payload error', bv(r.is_a(PayloadError)))
            else: c.prove('any other loss is passed on', bv(r.exc is g['lost']))
            return
        c.prove('the message read', bv(k == 0 and g.get('message') == 0 and r.value is g['value']))

# ---- writing
KEYT = z3.Function('name_at', I, SEQ); VALT = z3.Function('value_at', I, SEQ); WIRE = z3.Function('lines_before', I, SEQ)
FLATS = models.FLAT
COLSP = lit(': ')
def line_text(i): return z3.Concat(KEYT(i), COLSP, VALT(i), CRLF)
class ItemsI(Iface):
    name = 'headers to write'
    def m_items(self, ctx, o): return Opaque(ctx.fresh('items', OBJ), ITEMS)
    def symiter(self, ctx, o): return SymIter(ctx.ghost['count'], lambda i: SSeq(KEYT(i), 'str'))
class PairsI(Iface):
    name = 'header items'
    def symiter(self, ctx, o): return SymIter(ctx.ghost['count'], lambda i: (SSeq(KEYT(i), 'str'), SSeq(VALT(i), 'str')))
ITEMS = PairsI(); HEADERS = ItemsI()
class TransI(Iface):
    name = 'transport'
    def m_write(self, ctx, o, data): ctx.ghost['written'].append(sterm(data))
TRANS = TransI()
class VersionI(Iface):
    name = 'version'
    def get_major(self, ctx, o): return SInt(o.extra['major'])
    def get_minor(self, ctx, o): return SInt(o.extra['minor'])
VERSION = VersionI()
class StatusI(Iface):
    name = 'status'
    def get_value(self, ctx, o): return SInt(o.extra['value'])
    def get_phrase(self, ctx, o): return SSeq(o.extra['phrase'], 'str')
STATUS = StatusI()
def writing(c):
    g = c.ghost; g['written'] = []
    n = g['count'] = c.fresh('count', I); c.assume(n >= 0); c.fact(WIRE(z3.IntVal(0)) == empty())
    connected = c.choose(2) == 0
    p = inst(c, HttpReadWriteProtocol, _transport=Opaque(c.fresh('transport', OBJ), TRANS) if connected else None)
    v = Opaque(c.fresh('version', OBJ), VERSION); v.extra.update(major=c.fresh('major', I), minor=c.fresh('minor', I)); c.assume(v.extra['major'] >= 0, v.extra['minor'] >= 0)
    return p, v, Opaque(c.fresh('headers', OBJ), HEADERS), connected
def header_loop(c, fname):
    g = c.ghost
    def text(L): return flat_term(L.ctx, L.result.as_term(StrC))
    def entry(L): g['start text'] = text(L)
    def head(L):
        i = L.t('_i'); L.ctx.fact(z3.Implies(i < L.ctx.ghost['count'], WIRE(i + 1) == z3.Concat(WIRE(i), line_text(i))))
    loop(c, fname, 0, Loop(inv=lambda L: {'lines so far': text(L) == z3.Concat(g['start text'], WIRE(L.t('_i')))}, on_entry=entry, on_head=head, lists={'result': StrC}))
def check_written(c, r, connected, start, body=None):
    g = c.ghost; w = g['written']
    if not connected: c.prove('refused without a transport', bv(r.raised and r.is_a(RuntimeError) and not w)); return
    text = z3.Concat(start, CRLF, WIRE(g['count']), CRLF)
    if r.raised: c.prove('only for text which cannot be encoded', z3.And(bv(r.is_a(UnicodeEncodeError) and not w), z3.Not(models.UTF8_OK(text)))); return
    c.prove('written', bv(len(w) >= 1)); c.prove('the start line, one line per header in order, a blank line', w[0] == models.UTF8(text))
    if body is None: c.prove('and nothing else', bv(len(w) == 1))
    else: c.prove('then the body', z3.And(bv(len(w) <= 2), w[1] == body if len(w) == 2 else z3.Length(body) == 0))

@proof('writing a request: the start line and one line per header, in order')
def _(c):
    p, v, headers, connected = writing(c); method, path = c.str('method'), c.str('path')
    header_loop(c, 'write_http_request')
    r = attempt(c, HttpReadWriteProtocol.write_http_request, p, method, path, headers, v)
    istr = lambda t: models.int_str(c.it, t)
    check_written(c, r, connected, z3.Concat(method.t, SP, path.t, lit(' HTTP/'), istr(v.extra['major']), lit('.'), istr(v.extra['minor'])))

for _body in (False, True):
    @proof('writing a response: the start line and one line per header, in order' + (', the body behind it' if _body else ''))
    def _(c, _body=_body):
        p, v, headers, connected = writing(c); s = Opaque(c.fresh('status', OBJ), STATUS); s.extra.update(value=c.fresh('value', I), phrase=c.fresh('phrase', SEQ)); c.assume(s.extra['value'] >= 0)
        body = c.bytes('body') if _body else None
        header_loop(c, 'write_http_response')
        r = attempt(c, HttpReadWriteProtocol.write_http_response, p, s, headers, v, body)
        istr = lambda t: models.int_str(c.it, t)
        check_written(c, r, connected, z3.Concat(lit('HTTP/'), istr(v.extra['major']), lit('.'), istr(v.extra['minor']), SP, istr(s.extra['value']), SP, s.extra['phrase']), None if body is None else body.t)

# ---- what is written reads back
NAMECH = z3.Function('no_colon_or_line_end', SEQ, B); VALCH = z3.Function('no_line_end', SEQ, B)
WS = {9, 10, 11, 12, 13, 32}
def edge(t): return z3.Implies(z3.Length(t) > 0, z3.And(*[z3.And(t[0] != k, t[z3.Length(t) - 1] != k) for k in WS]))
for _end in (False, True):
    @proof('a written header line reads back as that header' + (' (the last one)' if _end else ''))
    def _(c, _end=_end):
        name, value, pre = (c.fresh(k, SEQ) for k in ('name', 'value', 'before')); rest = empty() if _end else c.fresh('rest', SEQ)
        c.assume(z3.Length(name) > 0, edge(name), edge(value))
        c.assume(NAMECH(name), VALCH(value))
        o = z3.Length(pre); m = o + z3.Length(name); e = m + 2 + z3.Length(value)
        s = z3.Concat(pre, name, COLSP, value, *([] if _end else [CRLF, rest])); n = z3.Length(s)
        h = Head.__new__(Head); h.s, h.n = s, n
        if not _end: c.assume(z3.Length(rest) > 0, rest[0] != 9, rest[0] != 32)
        # the line end: the first CRLF, or the end; the colon: the first one
        E_, M_ = EOL(o), COL(o)
        c.fact(z3.And(E_ >= o, E_ <= n, z3.Implies(E_ < n, z3.And(E_ + 2 <= n, s[E_] == 13, s[E_ + 1] == 10))))
        c.fact(z3.Implies(z3.And(e < n, s[e] == 13, s[e + 1] == 10), E_ <= e))
        i = E_ - o
        c.fact(z3.Implies(z3.And(NAMECH(name), i >= 0, i < z3.Length(name)), z3.And(name[i] != 13, name[i] != 10, name[i] != 58)))
        j = E_ - m - 2
        c.fact(z3.Implies(z3.And(VALCH(value), j >= 0, j < z3.Length(value)), z3.And(value[j] != 13, value[j] != 10)))
        at = lambda k: s[k]
        c.fact(z3.Implies(z3.And(i >= 0, i < z3.Length(name)), s[E_] == name[i])); c.fact(z3.Implies(z3.And(j >= 0, j < z3.Length(value)), s[E_] == value[j]))
        c.fact(s[m] == 58); c.fact(s[m + 1] == 32)
        if not _end: c.fact(z3.And(s[e] == 13, s[e + 1] == 10, s[e + 2] == rest[0]))
        c.prove('the line ends where it was ended', E_ == e); c.fact(E_ == e)
        q = M_ - o
        c.fact(z3.Or(z3.And(M_ == -1, z3.Not(z3.And(m >= o, m < E_, s[m] == 58))), z3.And(M_ >= o, M_ < E_, s[M_] == 58, z3.Implies(z3.And(m >= o, m < E_, s[m] == 58), M_ <= m))))
        c.fact(z3.Implies(z3.And(NAMECH(name), q >= 0, q < z3.Length(name)), z3.And(name[q] != 58, s[M_] == name[q])))
        c.prove('the name ends at its colon', M_ == m); c.fact(M_ == m)
        # trimming: a trimmed text stays, a blank in front of it goes
        c.fact(z3.Implies(edge(name), PART(o, m) == name)); c.fact(z3.Implies(edge(value), PART(m + 1, e) == value))
        h.unfold(c, o, True); h.fold(c, e + 2)
        if _end: c.fact(z3.Implies(e + 2 >= n, z3.And(OKH(e + 2), NAMES(e + 2) == z3.Empty(SEQ2), VALUES(e + 2) == z3.Empty(SEQ2))))
        c.prove('well-formed if the rest is', OKH(o) == OKH(e + 2))
        c.prove('its name, then those of the rest', NAMES(o) == z3.Concat(z3.Unit(DECS(name)), NAMES(e + 2)))
        c.prove('its value, then those of the rest', VALUES(o) == z3.Concat(z3.Unit(DECS(value)), VALUES(e + 2)))

# ---------------------------------------------------------------- native
RULE = 'heads built from fragments (hostile and well-formed) parsed and compared with a plain parser without patterns, in random cuts with bytes of a body behind them; random heads written and read back; distinct by content'
SEARCH_S = 6
class _T:
    def __init__(self): self.wire = b''
    def is_closing(self): return False
    def write(self, x): self.wire += bytes(x)
class _Status:
    def __init__(self, value, phrase): self.value, self.phrase = value, phrase
def _digits(t, lo, hi): return lo <= len(t) <= hi and all(48 <= x <= 57 for x in t)
def _version(t):
    if not t.startswith(b'HTTP/'): return None
    a, dot, b = t[5:].partition(b'.')
    return (int(a), int(b)) if dot and _digits(a, 1, 9) and _digits(b, 1, 9) else None
def _fields(t): return [x for x in t.replace(b'\t', b' ').split(b' ') if x]
def plain_headers(t):
    out = []; lines = t.split(b'\r\n')
    k = 0
    while k < len(lines) and lines[k]:
        name, colon, value = lines[k].partition(b':'); k += 1
        if not colon or not name.strip(): return None
        value = value.strip()
        while k < len(lines) and lines[k][:1] in (b'\t', b' '): value += b' ' + lines[k].strip(); k += 1
        out.append((name.strip().decode('utf-8', 'surrogateescape'), value.decode('utf-8', 'surrogateescape')))
    return out
def plain(t, kind):
    """-> start line and headers, or None"""
    k = t.find(b'\n')
    if k < 0: line, at = t, len(t)
    elif t[k - 1:k] == b'\r': line, at = t[:k - 1], k + 1
    elif k == len(t) - 1: line, at = t[:k], k
    else: return None
    d = lambda x: x.decode('utf-8', 'surrogateescape')
    if kind == 'request':
        f = _fields(line)
        if len(f) != 3 or b'\r' in line or not _version(f[2]): return None
        start = (d(f[0]).upper(), d(f[1]), _version(f[2]))
    else:
        line = line.strip(b' \t').replace(b'\t', b' ')
        v, _, rest = line.partition(b' '); rest = rest.strip(b' '); status = rest[:3]
        if not _version(v) or not _digits(status, 3, 3) or rest[3:4] not in (b'', b' '): return None
        line = t[:len(t)]
        start = (_version(v), int(status), None)
    h = plain_headers(t[at:])
    return None if h is None else (start, h)
def reason_of(t):
    k = t.find(b'\n')
    line = (t if k < 0 else t[:k - 1] if t[k - 1:k] == b'\r' else t[:k]).strip(b' \t')
    f = _fields(line); p = line.index(f[1], len(f[0])) + 3
    return line[p:].strip(b' \t').decode('utf-8', 'surrogateescape') or None
def grouped(h):
    d = {}
    for k, v in h:
        l = d.setdefault(k.casefold(), (k, []))[1]
        if v not in l: l.append(v)
    return [(k.casefold(), v) for k, l in d.values() for v in l]
def run_coro(co):
    try: co.send(None)
    except StopIteration as e: return e.value
    co.close(); raise RuntimeError('waits')
def read_head(t, cut, kind):
    p = HttpReadProtocol(None)
    for k in range(0, len(t), cut): p.data_received(t[k:k + cut])
    if t.find(b'\r\n\r\n') < 0: p.eof_received()
    m = run_coro(p.read_http_request() if kind == 'request' else p.read_http_response())
    return m, b''.join(p._chunks)[p._offset:]
def start_of(m, kind): return (m.method, m.path, tuple(m.version)) if kind == 'request' else (tuple(m.version), m.status, m.reason)
def cases(rng, part, parts):
    frag = [b'GET', b'get', b'/', b'/a?b=c', b'HTTP/1.1', b'HTTP/1.0', b'HTTP/10.02', b'HTTP/1', b'http/1.1', b'HTTP/1.1x', b'HTTP/' + b'1' * 10 + b'.1', b'200', b'204', b'2000', b'20', b'+20', b'OK', b'Not Found', b'\xc3\xa9', b'\xff', b'\r', b'\n', b'\r\n', b':', b'\t', b' ', b'  ']
    word = lambda: bytes(rng.choice(b'abAB-9') for _ in range(rng.randint(1, 4)))
    while True:
        kind = rng.choice(['request', 'response'])
        if rng.random() < .35:
            text = lambda: ''.join(rng.choice('ab Cé€\t:,;=\x0b\x85') for _ in range(rng.randint(0, 6))).strip()
            yield dict(do='write', kind=kind, method=rng.choice(['GET', 'POST', 'X-Y']), path=rng.choice(['/', '/a?b=ü', '*', 'http://h/']), version=rng.choice([(1, 1), (1, 0), (2, 0), (1, 12)]), status=rng.choice([100, 200, 404, 599]), phrase=rng.choice(['OK', 'Not Found', '', 'é']),
                headers=[(word().decode(), text()) for _ in range(rng.randint(0, 4))], body=rng.choice([b'', b'body', b'\r\n\r\n']), cut=rng.choice([1, 2, 5, 1000]))
            continue
        if rng.random() < .5:
            sp = lambda: rng.choice([b' ', b' ', b'  ', b'\t'])
            t = rng.choice([b'', b'', b' ']) + (sp().join([rng.choice([b'GET', b'get', b'\xc3\xa9']), b'/', b'HTTP/1.1']) if kind == 'request' else sp().join([b'HTTP/1.1', rng.choice([b'200', b'200', b'101', b'304', b'404', b'503', b'999'])] + ([rng.choice([b'OK', b'Not  Found', b'a\rb', b'\xff'])] if rng.random() < .7 else []))) + rng.choice([b'', b'', b' ', b'x']) + rng.choice([b'\r\n', b'\r\n', b'\r\n', b'\n', b''])
        else: t = b''.join(rng.choice(frag) + rng.choice([b' ', b' ', b'']) for _ in range(rng.randint(0, 6)))
        for _ in range(rng.randint(0, 4)):
            t += rng.choice([b'', b'', b'', b' ', b'\t']) + rng.choice([word(), word(), word(), b'', b'\xff', b'\x0b', b'\r', b'a b']) + rng.choice([b':', b': ', b': ', b' : ', b'', b' ']) + rng.choice([word(), b'', b'a:b', b'\xc3\xa9', b'\x0b', b'a\rb', b'\r', b'a\nb', b' \t']) + rng.choice([b'\r\n', b'\r\n', b'\r\n', b'\n', b'\r\n \t', b'\r\n '])
        yield dict(do='read', kind=kind, text=t, cut=rng.choice([1, 2, 3, 1000]), body=rng.choice([b'', b'body', b'\r\n\r\nx']))
def parse(t, kind):
    try: return (H.parse_http_request if kind == 'request' else H.parse_http_response)(t)
    except PayloadError: return None
def check_case(d):
    kind = d['kind']
    if d['do'] == 'read':
        t = d['text']; want = plain(t, kind); m = parse(t, kind)
        if (m is None) != (want is None): return f'{t!r}: should {"fail" if want is None else "parse"}'
        if m is not None:
            start = want[0] if kind == 'request' else (*want[0][:2], reason_of(t))
            if start_of(m, kind) != start: return f'{t!r}: {start_of(m, kind)!r}'
            if [(k.casefold(), v) for k, v in m.headers.items()] != grouped(want[1]): return f'{t!r}: {list(m.headers.items())!r}, not {want[1]!r}'
        full = t + b'\r\n\r\n' + d['body']; head, _, body = full.partition(b'\r\n\r\n')
        try: m2, left = read_head(full, d['cut'], kind)
        except PayloadError: m2 = None
        m = parse(head, kind)
        if (m is None) != (m2 is None): return f'{full!r}: read and parsed differ'
        if m2 is not None and (start_of(m, kind), list(m.headers.items())) != (start_of(m2, kind), list(m2.headers.items())): return f'{full!r}: read and parsed differ'
        if m2 is not None and left != body: return f'{full!r}: left {left!r}'
        return None
    p = HttpReadWriteProtocol(None); p._transport = _T()
    h = IgnoreCaseMultiValueDictionary()
    for k, v in d['headers']: h[k] = v
    v = H.HttpVersion(*d['version'])
    if kind == 'request': p.write_http_request(d['method'], d['path'], h, v); start = (d['method'], d['path'], d['version'])
    else: p.write_http_response(_Status(d['status'], d['phrase']), h, v, d['body'] or None); start = (d['version'], d['status'], d['phrase'] or None)
    wire = p._transport.wire + (d['body'] if kind == 'request' else b'')
    try: m, left = read_head(wire, d['cut'], kind)
    except PayloadError as e: return f'{wire!r} does not read back: {e!r}'
    if start_of(m, kind) != start: return f'{wire!r}: {start_of(m, kind)!r}'
    if list(m.headers.items()) != list(h.items()): return f'{wire!r}: {list(m.headers.items())!r}'
    if left != d['body']: return f'{wire!r}: left {left!r}'
    return None
def shrink(d):
    if d['do'] == 'read':
        for k in range(len(d['text'])): yield {**d, 'text': d['text'][:k] + d['text'][k + 1:]}
        if d['body']: yield {**d, 'body': b''}
    else:
        for k in range(len(d['headers'])): yield {**d, 'headers': d['headers'][:k] + d['headers'][k + 1:]}
