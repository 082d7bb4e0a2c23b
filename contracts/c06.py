"""C06: chunked transfer coding - what is written, what is read."""
import functools
from contracts.streams import *
from pv.models import PY_INT, PY_INT_OK, HEX_STR, all_in
from scarletio.web_common import http_protocol as HP, http_stream_writer as SW
from scarletio.web_common.http_protocol import HttpReadProtocol
from scarletio.web_common.http_stream_writer import HTTPStreamWriter
from scarletio.web_common.http_message import RawMessage, RawRequestMessage, RawResponseMessage
from scarletio.web_common.exceptions import PayloadError
PROOFS, proof = proof_registry()
TRUSTED = ["format(n, 'x') is hexadecimal digits which int(.., 16) reads back, for n >= 0", 'a compressor turns what it is given into bytes; its flush is not empty and ends its stream', 'the contracts of exact reads (C07) and of reads until a boundary (C08)',
    'between two calls on one writer nothing else writes to the transport']
DESIGN = '''Reading: the received stream is known by what its readers give from a position (line up to the next CRLF, n bytes), their contracts proved in C07 and C08. Whether
a chunked body starts at a position, what it decodes to and where it ends are recursive functions of the position; the reader's loop keeps "out ++ body from here == body
from the start" and the same for end and well-formedness, so it yields exactly the chunk data, stops right behind the terminator and fails with a payload error
exactly when the body is malformed. Writing: every write adds one chunk of exactly its bytes (compressed: of exactly the compressor's output) or nothing, the
closing adds one zero chunk, once. Lemma: from where such a chunk was written, the recursive functions give its data followed by what comes after.'''
CRLF = lit('\r\n')
HEXDIGITS = all_in(b'0123456789abcdefABCDEF')
LINE = z3.Function('line_at', I, SEQ)          # from p to the next CRLF
SIZE = z3.Function('size_text_of', SEQ, SEQ)    # the line before its first ';', blanks around dropped
BYTES = z3.Function('bytes_at', I, I, SEQ)
OK = z3.Function('chunked_body_ok', I, B); BODY = z3.Function('chunked_body', I, SEQ); END = z3.Function('chunked_end', I, I)
def size_ok(c, s):
    c.fact(z3.Implies(z3.And(HEXDIGITS(s), z3.Length(s) > 0), z3.And(PY_INT_OK(s, z3.IntVal(16)), PY_INT(s, z3.IntVal(16)) >= 0)))
    return z3.And(z3.Length(s) > 0, HEXDIGITS(s))
def unfold(c, p):
    ln_ = LINE(p); s = SIZE(ln_); d = p + z3.Length(ln_) + 2; n = PY_INT(s, z3.IntVal(16)); ok = size_ok(c, s)
    nxt = d + n + 2
    c.fact(OK(p) == z3.And(ok, BYTES(d + n, z3.IntVal(2)) == CRLF, z3.Implies(n > 0, OK(nxt))))
    c.fact(z3.Implies(z3.And(ok, n == 0), z3.And(BODY(p) == empty(), END(p) == d + 2)))
    c.fact(z3.Implies(z3.And(ok, n > 0), z3.And(BODY(p) == z3.Concat(BYTES(d, n), BODY(nxt)), END(p) == END(nxt))))
def ended_early(ctx):
    """the stream ends or the reader is closed while it waits"""
    k = ctx.choose(2); ctx.ghost['early'] = k
    raise PyExc(Inst(ctx, (EOFError, GeneratorExit)[k], {'args': (b'',)}))
def reader(c):
    c.await_handler = lambda ctx, v: v
    g = c.ghost
    p = inst(c, HttpReadProtocol)
    g['pos'] = g['start'] = c.fresh('start', I); g['out'] = empty(); c.assume(g['start'] >= 0)
    def until(ctx, self, b):
        ctx.prove('reads up to the end of the line', bv(self is p)); ctx.prove('a line', sterm(b) == CRLF)
        if ctx.choose(2): ended_early(ctx)
        q = g['pos']; t = LINE(q)
        g['line_at'] = q; g['pos'] = z3.simplify(q + z3.Length(t) + 2)
        semi = lit(';')
        if ctx.choose(2):
            a, b_ = ctx.fresh('before', SEQ), ctx.fresh('extension', SEQ)
            ctx.assume(t == cat(a, semi, b_), z3.Not(z3.Contains(a, semi)))
            v = SSeq(cat(a, semi, b_), 'bytes')
        else:
            a = t; ctx.assume(z3.Not(z3.Contains(t, semi))); v = SSeq(t, 'bytes')
        def find(ctx, t_, sub_, lo, hi):
            if t_.eq(v.t) and sub_.eq(semi) and z3.is_int_value(lo) and lo.as_long() == 0: return z3.Length(a) if a is not t else z3.IntVal(-1)
        ctx.ghost['find'] = find
        ctx.ghost['size_text'] = a; ctx.ghost['size_of'] = SIZE(t)
        return v
    use(c, ReadProtocolBase._read_until_as_one, until)
    def strip_hook(ctx, t, codes, r):
        """the specification's size text is what is left without blanks (there is only one such text)"""
        if codes == {32, 9} and 'size_of' in ctx.ghost:
            ctx.fact(z3.Implies(t == ctx.ghost['size_text'], r == ctx.ghost['size_of']))
    g['stripped'] = strip_hook
    def one(ctx, self, n):
        n = iterm(n); ctx.prove('a count', z3.And(n > 0, bv(self is p)))
        if ctx.choose(2): ended_early(ctx)
        q = g['pos']; g['pos'] = z3.simplify(q + n)
        ctx.fact(z3.Length(BYTES(q, n)) == n)
        return SSeq(BYTES(q, n), 'bytes')
    use(c, ReadProtocolBase._read_exactly_as_one, one)
    def pieces(ctx, self, n):
        n = iterm(n); ctx.prove('a count', z3.And(n > 0, bv(self is p)))
        q = g['pos']; s = ctx.fresh('pieces', SEQ2); exc = None; k = ctx.choose(3)
        if k == 0: ctx.fact(FLAT(s) == BYTES(q, n)); g['pos'] = z3.simplify(q + n)
        else: ctx.fact(z3.PrefixOf(FLAT(s), BYTES(q, n))); g['early'] = k - 1; exc = Inst(ctx, (EOFError, GeneratorExit)[k - 1], {'args': (b'',)})
        g['given'] = s; g['all'] = FLAT(s) if k else BYTES(q, n)
        return Opaque(ctx.fresh('reader', OBJ), PiecesI(LList(ctx, seq=s, codec=BytesC), exc))
    use(c, ReadProtocolBase._read_exactly_by_chunk, pieces)
    return p
def piece(ctx, v): ctx.ghost['out'] = cat(ctx.ghost['out'], sterm(v))

@proof('reading: the chunk data, up to right behind the terminator; malformed bodies are refused')
def _(c):
    p = reader(c); g = c.ghost; p0 = g['start']
    def inv(L):
        q = g['pos']; unfold(L.ctx, q)
        return {'decoded so far': z3.Implies(OK(p0), z3.Concat(g['out'], BODY(q)) == BODY(p0)), 'well-formed if the rest is': OK(q) == OK(p0), 'ends where the rest ends': z3.Implies(OK(p0), END(q) == END(p0))}
    def havoc(L): g['out'] = L.ctx.fresh('out', SEQ); g['pos'] = L.ctx.fresh('pos', I)
    def entry(L): g['out0'] = g['out']
    def exit2(L):
        all_ = cat(g['out0'], g['all']); unfold_pre(L.ctx, g['given'], L._i); L.ctx.prove('all of the chunk is yielded', g['out'] == all_); g['out'] = all_
    def inv2(L): unfold_pre(L.ctx, g['given'], L._i); return {'yielded in order': g['out'] == cat(g['out0'], PRE(g['given'], L._i))}
    def havoc2(L): g['out'] = L.ctx.fresh('out', SEQ)
    loop(c, '_read_chunked_by_chunk', 0, Loop(inv=inv, havoc=havoc))
    loop(c, '_read_chunked_by_chunk', 1, Loop(inv=inv2, havoc=havoc2, on_entry=entry, at_exit=exit2))
    c.yield_stack.append(piece)
    try: r = Outcome(value=c.it.run_gen(c.it.call(HttpReadProtocol._read_chunked_by_chunk, [p], {})))
    except PyExc as e: r = Outcome(exc=e.value)
    c.yield_stack.pop()
    if r.ok:
        c.prove('a well-formed body', OK(p0)); c.prove('exactly its data', g['out'] == BODY(p0)); c.prove('stops right behind it', g['pos'] == END(p0))
    elif 'early' in g: c.prove('fails as the reads fail', bv(r.is_a((EOFError, GeneratorExit)[g['early']])))
    else: c.prove('a payload error', bv(r.is_a(PayloadError))); c.prove('only for a malformed body', z3.Not(OK(p0)))

def chunks_contract(c):
    """proved above: the data of the body, or a failure"""
    def h(ctx, self):
        s = ctx.fresh('pieces', SEQ2); k = ctx.choose(4); ctx.ghost['given'] = s; ctx.ghost['end'] = (None, EOFError, GeneratorExit, PayloadError)[k]
        exc = None if k == 0 else Inst(ctx, ctx.ghost['end'], {'args': (b'',)})
        return Opaque(ctx.fresh('reader', OBJ), PiecesI(LList(ctx, seq=s, codec=BytesC), exc))
    use(c, HttpReadProtocol._read_chunked_by_chunk, h)
    def n(ctx, self, n): ctx.prove('reads the announced length', eqv(ctx, n, ctx.ghost['n'])); return h(ctx, self)
    use(c, ReadProtocolBase._read_exactly_by_chunk, n)

@proof('a chunked body is passed on piece by piece, in order')
def _(c):
    c.await_handler = lambda ctx, v: v
    p = inst(c, HttpReadProtocol); s = Opaque(c.fresh('stream', OBJ), STREAM); g = c.ghost; g['out'] = empty()
    chunks_contract(c)
    def inv(L): unfold_pre(L.ctx, g['given'], L._i); return {'passed on': g['out'] == PRE(g['given'], L._i)}
    loop(c, '_read_chunked', 0, Loop(inv=inv, havoc=lambda L: g.update(out=L.ctx.fresh('out', SEQ))))
    r = attempt(c, HttpReadProtocol._read_chunked, p, s)
    c.prove('all pieces, in order', g['out'] == FLAT(g['given']))
    if g['end'] is None: no_raise(c, r)
    else: c.prove('fails as the read fails', bv(r.is_a(g['end'])))

class DecoderI(Iface):
    """turns pieces into pieces, or refuses them"""
    name = 'decompressor'
    def some(self, ctx):
        if not ctx.choose(2): ctx.ghost['refused'] = True; raise PyExc(Inst(ctx, HP.COMPRESSION_ERRORS if isinstance(HP.COMPRESSION_ERRORS, type) else HP.COMPRESSION_ERRORS[0], {'args': ()}))
        v = ctx.bytes('decoded'); ctx.ghost['decoded'] = cat(ctx.ghost['decoded'], v.t); return v
    def m_decompress(self, ctx, o, x): ctx.ghost['fed'] = cat(ctx.ghost['fed'], sterm(x)); ctx.prove('nothing is fed after the flush', bv(not ctx.ghost.get('flushed'))); return self.some(ctx)
    def m_flush(self, ctx, o): ctx.ghost['flushed'] = True; return self.some(ctx)
DECODER = DecoderI()

for NAME in ('_read_chunked_encoded', '_read_exactly_encoded'):
    @proof(f'an encoded body is decoded as a whole, in order ({NAME[6:]})')
    def _(c, NAME=NAME):
        c.await_handler = lambda ctx, v: v
        p = inst(c, HttpReadProtocol); s = Opaque(c.fresh('stream', OBJ), STREAM); d = Opaque(c.fresh('decoder', OBJ), DECODER); g = c.ghost
        g.update(out=empty(), fed=empty(), decoded=empty()); n = g['n'] = c.int('n'); c.assume(n.t > 0)
        chunks_contract(c)
        def inv(L): unfold_pre(L.ctx, g['given'], L._i); return {'fed in order': g['fed'] == PRE(g['given'], L._i), 'passed on': g['out'] == g['decoded']}
        def havoc(L):
            for k in ('out', 'fed', 'decoded'): g[k] = L.ctx.fresh(k, SEQ)
        loop(c, NAME, 0, Loop(inv=inv, havoc=havoc))
        r = attempt(c, getattr(HttpReadProtocol, NAME), p, *([n] if 'exactly' in NAME else []), d, s)
        c.prove('what is decoded is passed on', g['out'] == g['decoded'])
        if g.get('refused'): c.prove('undecodable bodies fail with a payload error', bv(r.is_a(PayloadError))); return
        c.prove('all is fed, in order', g['fed'] == FLAT(g['given']))
        if g['end'] is None: no_raise(c, r); c.prove('and flushed', bv(g.get('flushed') is True))
        else: c.prove('fails as the read fails', bv(r.is_a(g['end'])))

# ---------------------------------------------------------------- writing
class TransportI(Iface):
    name = 'transport'
    def m_is_closing(self, ctx, o): b = ctx.bool('is_closing'); ctx.ghost['closing'] = b.t; return b
    def m_write(self, ctx, o, x):
        ctx.prove('writes only to a transport which is not closing', z3.Not(ctx.ghost['closing'])); ctx.ghost['wire'] = cat(ctx.ghost['wire'], sterm(x)); ctx.ghost['writes'] += 1
TRANSPORT = TransportI()
class ProtocolI(Iface):
    name = 'protocol'
    def m_get_transport(self, ctx, o): return Opaque(ctx.fresh('transport', OBJ), TRANSPORT) if ctx.choose(2) else None
    def m__drain_helper(self, ctx, o):
        ctx.ghost['drained'] = ctx.ghost['wire']
        if ctx.choose(2): ctx.ghost['drain_failed'] = True; raise PyExc(Inst(ctx, ConnectionResetError, {'args': ()}))
PROTOCOL = ProtocolI()
class CompressorI(Iface):
    name = 'compressor'
    def m_compress(self, ctx, o, x):
        ctx.prove('nothing is compressed after the flush', bv(not ctx.ghost.get('flushed'))); ctx.ghost['fed'] = cat(ctx.ghost['fed'], sterm(x))
        v = ctx.bytes('compressed'); ctx.ghost['compressed'] = cat(ctx.ghost['compressed'], v.t); return v
    def m_flush(self, ctx, o):
        ctx.ghost['flushed'] = True
        v = ctx.bytes('flushed'); ctx.assume(z3.Length(v.t) > 0); ctx.ghost['compressed'] = cat(ctx.ghost['compressed'], v.t); return v
COMPRESSOR = CompressorI()
def hexa(c, n):
    h = HEX_STR(n); c.fact(z3.Implies(n >= 0, z3.And(z3.Length(h) > 0, HEXDIGITS(h), PY_INT(h, z3.IntVal(16)) == n))); return h
def chunk_of(c, d): return cat(hexa(c, z3.Length(d)), CRLF, d, CRLF)
LAST = lit('0\r\n\r\n')
def writer(c):
    c.await_handler = lambda ctx, v: v
    comp = c.choose(2); chunked = c.choose(2); open_ = c.choose(2)
    eof = c.bool('at_eof'); c.assume(z3.Implies(eof.t, bv(not open_)))
    w = inst(c, HTTPStreamWriter, _at_eof=eof, size=c.int('size'), chunked=bool(chunked), compressor=Opaque(c.fresh('compressor', OBJ), COMPRESSOR) if comp else None,
        protocol=Opaque(c.fresh('protocol', OBJ), PROTOCOL), transport=Opaque(c.fresh('transport', OBJ), TRANSPORT) if open_ else None)
    c.ghost.update(wire=empty(), fed=empty(), compressed=empty(), writes=0)
    return w, comp, chunked, open_, eof
def refused(c, r, open_, closing=None):
    g = c.ghost
    if g.get('drain_failed'): c.prove('the failure of draining goes through', bv(r.is_a(ConnectionResetError))); return False
    if r.raised:
        c.prove('a connection error', bv(r.is_a(ConnectionResetError))); c.prove('only for closed or closing connections', bv(True) if not open_ else g.get('closing', z3.BoolVal(False))); c.prove('nothing is written', g['wire'] == empty())
        return True
    return False

@proof('a write puts one chunk of what is written on the wire')
def _(c):
    w, comp, chunked, open_, eof = writer(c); g = c.ghost
    d = c.bytes('data')
    r = attempt(c, HTTPStreamWriter.write, w, d)
    if comp: c.prove('all of it is compressed', g['fed'] == d.t)
    D = g['compressed'] if comp else d.t
    if refused(c, r, open_): return
    if not g.get('drain_failed'): no_raise(c, r)
    want = z3.If(z3.Length(D) == 0, empty(), chunk_of(c, D) if chunked else D)
    c.prove('what is on the wire', g['wire'] == want)
    c.prove('a closed writer writes nothing', z3.Implies(eof.t, z3.Length(D) == 0))
    c.prove('the writer stays open', bv(fld(w, 'transport') is not None) == bv(bool(open_)))

@proof('closing puts the rest and one terminator on the wire, once')
def _(c):
    w, comp, chunked, open_, eof = writer(c); g = c.ghost
    d = c.bytes('data') if c.choose(2) else None
    r = attempt(c, HTTPStreamWriter.write_eof, w, *([] if d is None else [d]))
    if c.branch(eof.t):
        no_raise(c, r); c.prove('a closed writer does nothing', bv(g['writes'] == 0 and 'drained' not in g and not g.get('flushed'))); return
    dt = empty() if d is None else d.t
    if comp:
        c.prove('all of it is compressed, and flushed', z3.And(bv(g.get('flushed') is True), g['fed'] == dt))
    D = g['compressed'] if comp else dt
    if refused(c, r, open_): return
    want = D if not chunked else z3.If(z3.Length(D) == 0, LAST, cat(chunk_of(c, D), LAST))
    c.prove('what is on the wire', g['wire'] == want)
    if g.get('drain_failed'): return
    no_raise(c, r)
    c.prove('closed', z3.And(truth(c, fld(w, '_at_eof')), bv(fld(w, 'transport') is None)))
    if 'drained' in g: c.prove('drained after it is written', bv(g['drained'] is g['wire']))

@proof('a new writer compresses as asked')
def _(c):
    class NewI(Iface):
        name = 'zlib.compressobj'
        def call(self, ctx, o, args, kwargs): ctx.ghost['wbits'] = kwargs.get('wbits'); return Opaque(ctx.fresh('compressor', OBJ), COMPRESSOR)
    c.ghost['globals'] = {(None, 'ZLIB_COMPRESSOR'): Opaque(c.fresh('new', OBJ), NewI())}
    comp = (None, 'gzip', 'deflate', 'br')[c.choose(4)]; chunked = c.bool('chunked'); proto = Opaque(c.fresh('protocol', OBJ), PROTOCOL)
    w = c.it.call(HTTPStreamWriter, [proto, comp, chunked], {})
    c.prove('chunked as asked', truth(c, fld(w, 'chunked')) == chunked.t)
    c.prove('not closed', z3.Not(truth(c, fld(w, '_at_eof'))))
    c.prove('the compression asked for, none for unknown ones', bv(c.ghost.get('wbits') == {'gzip': 31, 'deflate': 15}.get(comp) and (fld(w, 'compressor') is None) == (comp not in ('gzip', 'deflate'))))

# ---------------------------------------------------------------- there and back
def text_at(c, T, p):
    """LINE and BYTES of a stream T"""
    ln_ = LINE(p); n = z3.Length(ln_)
    c.fact(z3.And(p + n + 2 <= z3.Length(T), ln_ == z3.Extract(T, p, n), T[p + n] == 13, T[p + n + 1] == 10))
def first_line(c, T, p, k):
    """the line is the first: no CRLF starts at k bytes behind p inside it"""
    c.fact(z3.Implies(z3.And(0 <= k, k < z3.Length(LINE(p))), z3.Not(z3.And(T[p + k] == 13, T[p + k + 1] == 10))))

for CLOSING in (False, True):
    @proof('lemma: reading where ' + ('the terminator' if CLOSING else 'a chunk') + ' was written')
    def _(c, CLOSING=CLOSING):
        pre, D, rest = c.fresh('pre', SEQ), c.fresh('D', SEQ), c.fresh('rest', SEQ); p = z3.Length(pre); n = z3.Length(D)
        h = lit('0') if CLOSING else hexa(c, n); hn = z3.Length(h)
        if CLOSING: c.fact(z3.And(HEXDIGITS(h), PY_INT(h, z3.IntVal(16)) == 0))
        else: c.assume(n > 0)
        T = cat(pre, h, CRLF, rest) if CLOSING else cat(pre, h, CRLF, D, CRLF, rest)
        if CLOSING: c.assume(z3.PrefixOf(CRLF, rest))
        q = c.fresh('q', I); c.assume(q == p)
        text_at(c, T, q); ln_ = LINE(q); m = z3.Length(ln_)
        first_line(c, T, q, hn)
        c.fact(z3.And(T[q + hn] == 13, T[q + hn + 1] == 10)); c.fact(z3.Implies(z3.And(0 <= m, m < hn), z3.And(T[q + m] == h[m], h[m] != 13)))     # digits are no CR
        c.prove('the line ends behind the size', m == hn)
        c.prove('the line is the size', ln_ == h)
        c.fact(z3.Implies(HEXDIGITS(h), SIZE(h) == h))        # neither ; nor blanks in it
        unfold(c, q)
        d = q + hn + 2
        if CLOSING:
            c.fact(BYTES(d, z3.IntVal(2)) == z3.Extract(T, d, 2))
            c.prove('a well-formed empty rest, ending behind the terminator', z3.And(OK(q), BODY(q) == empty(), END(q) == d + 2)); return
        c.fact(BYTES(d + n, z3.IntVal(2)) == z3.Extract(T, d + n, 2)); c.fact(BYTES(d, n) == z3.Extract(T, d, n))
        c.prove('its data', BYTES(d, n) == D); c.prove('its end', BYTES(d + n, z3.IntVal(2)) == CRLF)
        nxt = q + z3.Length(chunk_of(c, D))
        c.prove('the data, then what follows', BODY(q) == z3.Concat(D, BODY(nxt)))
        c.prove('well-formed and ending as what follows', z3.And(OK(q) == OK(nxt), z3.Implies(OK(q), END(q) == END(nxt))))

# ---------------------------------------------------------------- which body a message has
class HeadersI(Iface):
    name = 'headers'
    def m_get(self, ctx, o, k, d=None): ctx.prove('the content length', bv(k == HP.CONTENT_LENGTH)); return ctx.ghost['length']
HEADERS = HeadersI()
LENGTHY = z3.Function('content_length_ok', SEQ, B)
for REQUEST in (False, True):
    @proof('which reader a ' + ('request' if REQUEST else 'response') + ' gets')
    def _(c, REQUEST=REQUEST):
        g = c.ghost
        up, ch = c.bool('upgraded'), c.bool('chunked')
        enc = c.choose(2)
        dec = Opaque(c.fresh('decoder', OBJ), DECODER)
        use(c, RawMessage.upgraded.fget, lambda ctx, self: up); use(c, RawMessage.chunked.fget, lambda ctx, self: ch); use(c, RawMessage.encoding.fget, lambda ctx, self: 'gzip' if enc else None)
        def setup(ctx, self, v): g['set_upgraded'] = v
        use(c, RawMessage.upgraded.fset, setup)
        use(c, HP.get_decompressor_for, lambda ctx, e: dec if e == 'gzip' else None)
        has = c.choose(2); ln_ = c.str('length') if has else None; g['length'] = ln_
        hd = Opaque(c.fresh('headers', OBJ), HEADERS)
        status, method = c.int('status'), c.str('method')
        m = inst(c, RawRequestMessage, headers=hd, method=method, path='/') if REQUEST else inst(c, RawResponseMessage, headers=hd, status=status, reason='')
        p = inst(c, HttpReadProtocol)
        which = []
        def rec(nm): return lambda ctx, self, *a: which.append((nm, a))
        for nm in ('_read_chunked', '_read_chunked_encoded', '_read_exactly_encoded'): use(c, getattr(HttpReadProtocol, nm), rec(nm))
        for nm in ('_read_exactly', '_read_until_eof'): use(c, getattr(ReadProtocolBase, nm), rec(nm))
        if has: dig = z3.And(models.CHARCLASS['isascii'](ln_.t), models.CHARCLASS['isdigit'](ln_.t)); c.fact(z3.Implies(z3.And(dig, z3.Length(ln_.t) > 0), z3.And(PY_INT_OK(ln_.t, z3.IntVal(10)), PY_INT(ln_.t, z3.IntVal(10)) >= 0))); c.fact(z3.Implies(models.CHARCLASS['isdigit'](ln_.t), z3.Length(ln_.t) > 0))
        r = attempt(c, HttpReadProtocol.get_payload_reader_task, p, m)
        if r.raised: c.prove('a payload error', bv(r.is_a(PayloadError) and bool(has))); c.prove('only for a malformed length', z3.Or(z3.Not(dig), z3.Length(ln_.t) > 20)); return
        if has: c.prove('malformed lengths are refused', dig)
        n = PY_INT(ln_.t, z3.IntVal(10)) if has else z3.IntVal(0)
        bodyless = z3.BoolVal(False) if REQUEST else z3.Or(status.t == 204, status.t == 304, z3.And(status.t >= 100, status.t < 200))
        if r.value is None: got = 'none'; a = ()
        else:
            s = Opaque(c.fresh('stream', OBJ), STREAM)
            c.it.call(r.value, [s], {}); (got, a), = which
            c.prove('it reads into its stream', bv(a[-1] is s)); a = a[:-1]
        plain = z3.And(z3.Not(up.t), z3.Not(bodyless))
        c.prove('bodyless responses have none', z3.Implies(z3.And(z3.Not(up.t), bodyless), bv(got == 'none')))
        c.prove('chunked bodies are read as such, whatever the length header says', z3.Implies(z3.And(plain, ch.t), bv(got == ('_read_chunked_encoded' if enc else '_read_chunked'))))
        c.prove('only chunked ones', z3.Implies(bv('chunked' in got), ch.t))
        sized = bv(got == ('_read_exactly_encoded' if enc else '_read_exactly') and len(a) >= 1)
        if 'exactly' in got: sized = z3.And(sized, iterm(a[0]) == n, bv(enc or a[1] is False), n > 0)
        c.prove('bodies with a length are read to that length', z3.Implies(z3.And(plain, z3.Not(ch.t), n > 0), sized))
        c.prove('empty ones are not read', z3.Implies(z3.And(plain, z3.Not(ch.t), bv(bool(has)), n == 0), bv(got == 'none') if not REQUEST else bv(got in ('none', '_read_until_eof'))))
        if 'encoded' in got: c.prove('with the decoder of the encoding', bv(a[-1] is dec))
        if not REQUEST: c.prove('else up to the end', z3.Implies(z3.And(plain, z3.Not(ch.t), bv(not has)), bv(got == '_read_until_eof')))
        else: c.prove('else nothing, or all that follows a tunnel request', z3.Implies(bv(got == '_read_until_eof'), method.t == lit('CONNECT')))

# ---------------------------------------------------------------- native
RULE = 'bodies written in random pieces, compressed or not, decoded by a plain decoder and by the reader in random cuts; hostile chunked texts against the plain decoder; distinct by content'
SEARCH_S = 6
import zlib, re
def decode(t):
    """a plain decoder -> (data, position behind) | 'bad' | 'short'"""
    out = b''; p = 0
    while True:
        q = t.find(b'\r\n', p)
        if q < 0: return 'short'
        m = re.fullmatch(rb'[ \t]*([0-9a-fA-F]+)[ \t]*', t[p:q].split(b';')[0])
        if m is None: return 'bad'
        n = int(m[1], 16); p = q + 2
        if len(t) < p + n + 2: return 'bad?' if len(t) >= p + n + 1 else 'short'
        if t[p + n:p + n + 2] != b'\r\n': return 'bad'
        out += t[p:p + n]; p += n + 2
        if not n: return out, p
def cases(rng, part, parts):
    while True:
        if rng.random() < .5:
            yield dict(kind='write', pieces=[bytes(rng.choice(b'ab\r\n;0') for _ in range(rng.choice([0, 0, 1, 2, 9, 10, 16, 17, 300, 66000 if rng.random() < .01 else 5]))) for _ in range(rng.randint(0, 6))], last=rng.choice([None, b'', b'x', b'0\r\n\r\n']),
                comp=rng.choice([None, None, 'gzip', 'deflate']), chunked=rng.random() < .8, cut=rng.choice([1, 2, 3, 7, 1000]))
        else:
            t = b''
            for _ in range(rng.randint(0, 5)):
                d = bytes(rng.choice(b'ab\r\n') for _ in range(rng.choice([0, 1, 2, 3, 10, 17])))
                size = rng.choice([b'%x', b'%X', b'%x', b'00%x', b' %x', b'%x ', b'+%x', b'-%x', b'0x%x', b'%x_0', b'%x;ext', b'%x ;a=b;c', b'%xg', b';%x', b'%x\t', b'\xb2', b'']) if rng.random() < .4 else b'%x'
                t += (size % len(d) if b'%' in size else size) + (b'\r\n' if rng.random() < .95 else b'\n') + d + (b'\r\n' if rng.random() < .93 else rng.choice([b'', b'\r', b'\n\n', b'ab']))
            t += rng.choice([b'0\r\n\r\n', b'0\r\n\r\nGET', b'0\r\n', b'', b'00;x\r\n\r\n', b'-0\r\n\r\n', b'0\r\nX: y\r\n\r\n'])
            yield dict(kind='read', text=t, cut=rng.choice([1, 2, 3, 5, 1000]))
class _T:
    def __init__(self): self.wire = b''
    def is_closing(self): return False
    def write(self, x): self.wire += bytes(x)
class _P:
    def __init__(self): self.t = _T()
    def get_transport(self): return self.t
    async def _drain_helper(self): pass
def run_coro(co):
    try: co.send(None)
    except StopIteration as e: return e.value
    raise RuntimeError('waits')
def read_it(t, cut):
    p = HttpReadProtocol(None)
    s = p.set_payload_reader(p._read_chunked)
    for k in range(0, len(t), cut): p.data_received(t[k:k + cut])
    if p._payload_reader is not None: return 'short', None
    if s._exception is not None: return ('bad' if isinstance(s._exception, PayloadError) else repr(s._exception)), None
    return b''.join(s._chunks), b''.join(p._chunks)[p._offset:]
def check_case(d):
    if d['kind'] == 'read':
        t = d["text"]; want = decode(t); got, left = read_it(t, d['cut'])
        if want == 'bad?': return None if got in ('short', 'bad') else f'{t!r}: {got!r}'
        if isinstance(want, str): return None if got == want else f'{t!r} is {want}, read as {got!r}'
        if (got, left) != (want[0], t[want[1]:]): return f'{t!r}: read {got!r}, unread {left!r}'
        return None
    p = _P(); w = HTTPStreamWriter(p, d['comp'], d['chunked'])
    body = b''
    for x in d['pieces']: run_coro(w.write(x)); body += x
    run_coro(w.write_eof(*([] if d['last'] is None else [d['last']]))); body += d['last'] or b''
    wire = p.t.wire
    run_coro(w.write_eof(b'more'))
    if p.t.wire != wire: return 'closing twice writes twice'
    got = wire
    if d['chunked']:
        r = decode(wire)
        if isinstance(r, str) or r[1] != len(wire): return f'not a chunked coding: {wire[:200]!r}'
        got = r[0]
        if read_it(wire + b"NEXT", max(d["cut"], len(wire) // 500)) != (got, b'NEXT'): return f'the reader disagrees on {wire[:200]!r}'
    if d['comp']:
        z = zlib.decompressobj(31 if d['comp'] == 'gzip' else 15); got = z.decompress(got)
        if not z.eof: return 'the compressed body is not complete'
    return None if got == body else f'wrote {body[:100]!r}, the wire has {got[:100]!r}'
def shrink(d):
    if d['kind'] == 'read':
        for k in range(len(d['text'])): yield {**d, 'text': d['text'][:k] + d['text'][k + 1:]}
        return
    for k in range(len(d['pieces'])):
        yield {**d, 'pieces': d['pieces'][:k] + d['pieces'][k + 1:]}
        if len(d['pieces'][k]) > 1: yield {**d, 'pieces': d['pieces'][:k] + [d['pieces'][k][:1]] + d['pieces'][k + 1:]}
