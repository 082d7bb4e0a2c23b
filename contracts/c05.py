"""C05: WebSocket frames - wire layout, masking, round trip, protocol checks."""
from pv.lib import *
import random as RND
from scarletio.web_common import web_socket_frame as WF, http_protocol as HP
from scarletio.web_common.web_socket_frame import WebSocketFrame, apply_web_socket_mask
from scarletio.web_common.http_protocol import HttpReadWriteProtocol, HttpReadProtocol
from scarletio.core.protocols_and_transports.protocol import ReadProtocolBase
from scarletio.web_common.exceptions import WebSocketProtocolError, PayloadError
PROOFS, proof = proof_registry()
TRUSTED = ['struct packing / unpacking of unsigned big-endian fields (modelled byte by byte)', 'bytearray(data), extended slices and bytes.translate (modelled byte by byte)', 'random.getrandbits(32) gives some number below 2**32',
    'reading exactly n bytes gives the next n bytes of the stream or fails (C07)']
DESIGN = '''Masking is proved byte by byte for every mask and every payload of any length: byte k of the result is byte k of the payload xor mask byte k mod 4 (the xor
table is checked entry by entry), so masking twice is the identity. The frame writer is proved to put on the wire exactly the RFC 6455 layout as a function of first
byte, side, payload length (all lengths below 2**64) and mask; the frame reader is proved over an arbitrary byte stream to compute the inverse layout, to consume exactly
that many bytes, and to refuse exactly the wrongly masked and the over-long. Reading what the writer wrote, with anything following, gives the frame back - for both
directions and all three length forms. `check` is proved to refuse exactly the frames RFC 6455 forbids, for every first byte and every payload length.'''
XOR = z3.Function('xor_byte', I, I, I)

# ---------------------------------------------------------------- masking
class RowI(Iface):
    name = 'row of the xor table'
class TableI(Iface):
    name = 'xor table'
    def getitem(self, ctx, o, k):
        x = iterm(k); ctx.prove('a row of the table', z3.And(x >= 0, x < 256))
        h = Opaque(ctx.fresh('row', OBJ), RowI()); ctx.ghost['rows'][str(h.t)] = x
        return h
    def len_(self, ctx, o): return 256
class ArrI(Iface):
    """bytes given position by position"""
    name = 'bytes'
    def pos(self, ctx, o): return ctx.ghost['arr'][str(o.t)]
    def len_(self, ctx, o): return mkint(self.pos(ctx, o)[0])
    def m_translate(self, ctx, o, row):
        n, at = self.pos(ctx, o)
        if not (isinstance(row, Opaque) and isinstance(row.iface, RowI)): raise Unsupported('translate')
        m = ctx.ghost['rows'][str(row.t)]
        return arr(ctx, n, lambda k: XOR(m, at(k)))
    def slice(self, ctx, n, s):
        if not isinstance(s.step, int) or s.step < 1: raise Unsupported('slice step')
        lo = 0 if s.lo is None else s.lo
        if s.hi is not None or not isinstance(lo, int) or lo < 0: raise Unsupported('slice')
        st = s.step
        return lo, st, z3.If(n > lo, (n - lo + (st - 1)) / st, 0)
    def getitem(self, ctx, o, k):
        n, at = self.pos(ctx, o)
        if not hasattr(k, 'step'): raise Unsupported('byte of an abstract array')
        lo, st, m = self.slice(ctx, n, k)
        return arr(ctx, m, lambda j: at(lo + st * j))
    def setitem(self, ctx, o, k, v):
        n, at = self.pos(ctx, o)
        lo, st, m = self.slice(ctx, n, k)
        if not (isinstance(v, Opaque) and isinstance(v.iface, ArrI)): raise Unsupported('slice assignment')
        vn, vat = self.pos(ctx, v)
        ctx.prove('an extended slice takes as many bytes as it has', vn == m)
        ctx.ghost['arr'][str(o.t)] = (n, lambda j: z3.If(z3.And(j >= lo, (j - lo) % st == 0), vat((j - lo) / st), at(j)))
ARR = ArrI()
def arr(ctx, n, at):
    h = Opaque(ctx.fresh('array', OBJ), ARR); ctx.ghost.setdefault('arr', {})[str(h.t)] = (n, at); return h
def xor_tables():
    return [k for k, v in vars(WF).items() if isinstance(v, (list, tuple)) and len(v) == 256 and all(isinstance(r, (bytes, bytearray)) and len(r) == 256 for r in v)]
@proof('the xor table')
def _(c):
    for k in xor_tables(): c.prove('entry by entry', bv(all(WF.__dict__[k][b][a] == a ^ b for b in range(256) for a in range(256))))
    x, m = z3.BitVecs('x m', 8)
    c.prove('xor twice is the identity', (x ^ m) ^ m == x)
@proof('masking: byte k is xored with mask byte k mod 4')
def _(c):
    d, m = c.bytes('data'), c.bytes('mask'); n = z3.Length(d.t); c.assume(z3.Length(m.t) == 4)
    c.ghost['rows'] = {}; c.ghost['arr'] = {}
    c.ghost['globals'] = {(None, k): Opaque(c.fresh('table', OBJ), TableI()) for k in xor_tables()}
    def mk(ctx, v=None):
        if not (isinstance(v, SSeq) and v.t.eq(d.t)): raise Unsupported('another bytearray')
        return arr(ctx, n, lambda k: d.t[k])
    use(c, bytearray, mk); use(c, bytes, mk)
    r = attempt(c, apply_web_socket_mask, m, d); no_raise(c, r)
    if not (isinstance(r.value, Opaque) and isinstance(r.value.iface, ArrI)): raise Unsupported('another way of masking')
    ln_, at = ARR.pos(c, r.value); k = c.fresh('k', I)
    c.prove('same length', ln_ == n)
    c.prove('byte k', z3.Implies(z3.And(0 <= k, k < n), z3.And(*[z3.Implies(k % 4 == j, at(k) == XOR(m.t[j], d.t[k])) for j in range(4)])))

MASKED = z3.Function('masked', SEQ, SEQ, SEQ)
def mask_contract(c):
    def h(ctx, m, d):
        mt, dt = sterm(m), sterm(d)
        ctx.prove('a mask has four bytes', z3.Length(mt) == 4)
        t = MASKED(mt, dt); ctx.fact(z3.Length(t) == z3.Length(dt)); ctx.fact(MASKED(mt, t) == dt)
        return LBytes(ctx, t)
    use(c, apply_web_socket_mask, h)

# ---------------------------------------------------------------- layout
def frame(c, h0, d): return inst(c, WebSocketFrame, head_0=h0, data=d)
def u(x): return z3.Unit(x)
def be(x, n): return z3.Concat(*[u((x / 256 ** (n - 1 - k)) % 256 if k < n - 1 else x % 256) for k in range(n)])
def head(form, h0, side, n):
    s = 128 if side else 0
    if form == 0: return z3.Concat(u(h0), u(s + n))
    if form == 1: return z3.Concat(u(h0), u(z3.IntVal(s + 126)), be(n, 2))
    return z3.Concat(u(h0), u(z3.IntVal(s + 127)), be(n, 8))
def in_form(form, n): return (n < 126, z3.And(n >= 126, n < 65536), z3.And(n >= 65536, n < 2 ** 64))[form]
class TransportI(Iface):
    name = 'transport'
    def m_write(self, ctx, o, d): ctx.ghost['wire'] = z3.Concat(ctx.ghost['wire'], sterm(d))
    def m_writelines(self, ctx, o, ds):
        for d in ctx.it.iter_concrete(ds): self.m_write(ctx, o, d)
def written(c, side, form):
    """runs the writer on any frame; -> first byte, payload, mask, wire"""
    h0 = c.int('head_0'); d = c.bytes('data'); n = z3.Length(d.t); c.assume(z3.And(h0.t >= 0, h0.t < 256, in_form(form, n)))
    mask_contract(c); c.ghost['wire'] = empty(); c.ghost['masks'] = []
    def bits(ctx, k):
        ctx.prove('32 random bits', bv(k == 32)); x = ctx.fresh('mask_bits', I); ctx.fact(z3.And(x >= 0, x < 2 ** 32)); ctx.ghost['masks'].append(x); return SInt(x)
    use(c, RND.getrandbits, bits)
    p = inst(c, HttpReadWriteProtocol, _transport=Opaque(c.fresh('transport', OBJ), TransportI()))
    r = attempt(c, HttpReadWriteProtocol.write_web_socket_frame, p, frame(c, h0, d), side); no_raise(c, r)
    return h0.t, d.t, n, c.ghost['wire']
for side in (True, False):
    for form in range(3):
        @proof(f'written frame: layout, {"client" if side else "server"}, length form {form}')
        def _(c, side=side, form=form):
            h0, d, n, w = written(c, side, form); ms = c.ghost['masks']
            if side:
                c.prove('one fresh mask', bv(len(ms) == 1)); m = be(ms[0], 4) if ms else empty()
                c.prove('layout', w == z3.Concat(head(form, h0, True, n), m, MASKED(m, d)))
            else: c.prove('layout', w == z3.Concat(head(form, h0, False, n), d))
@proof('writing without a transport is a runtime error')
def _(c):
    p = inst(c, HttpReadWriteProtocol, _transport=None)
    r = attempt(c, HttpReadWriteProtocol.write_web_socket_frame, p, frame(c, c.int('h'), c.bytes('d')), bool(c.choose(2)))
    c.prove('runtime error', bv(r.raised and r.is_a(RuntimeError)))

def stream(c, t):
    """a byte stream t that may end at any point"""
    g = c.ghost; g['t'] = t; g['pos'] = z3.IntVal(0); g['eof'] = False
    c.await_handler = lambda ctx, v: v
    def h(ctx, self, n):
        k = iterm(n)
        ctx.prove('no negative read', k >= 0)
        p = g['pos']
        if not ctx.branch(p + k <= z3.Length(t)):
            g['eof'] = True; raise PyExc(Inst(ctx, ConnectionError, {'args': ()}))
        r = seqnorm.extract(ctx, t, z3.simplify(p), z3.simplify(k)); g['pos'] = z3.simplify(p + k)
        return SSeq(r, 'bytes')
    use(c, ReadProtocolBase.read_exactly, h)
from pv import seqnorm
def at(t, k): return t[k]
for side in (True, False):
    @proof(f'reading any stream, {"client" if side else "server"}: exactly the frame its bytes spell', budget=200)
    def _(c, side=side):
        T = c.bytes('stream').t; stream(c, T); mask_contract(c)
        mx = None if c.choose(2) else c.int('max_size')
        p = inst(c, HttpReadWriteProtocol)
        r = attempt(c, HttpReadProtocol.read_web_socket_frame, p, side, mx)
        g = c.ghost
        for k in range(14): c.fact(z3.And(T[k] >= 0, T[k] < 256))
        L = z3.Length(T); l7 = T[1] % 128; bit = T[1] >= 128
        u16 = T[2] * 256 + T[3]; u64 = sum(T[2 + k] * 256 ** (7 - k) for k in range(8))
        hl = z3.If(l7 == 126, z3.IntVal(4), z3.If(l7 == 127, z3.IntVal(10), z3.IntVal(2))); n = z3.If(l7 == 126, u16, z3.If(l7 == 127, u64, l7))
        over = z3.BoolVal(False) if mx is None else n > mx.t
        wrong = bit == bv(side)      # a client must get unmasked frames, a server masked ones
        ml = 0 if side else 4
        if g['eof']:
            c.prove('fails', bv(r.raised and r.is_a(ConnectionError)))
            c.prove('only when the stream ends inside the frame', z3.Or(L < 2, z3.And(z3.Not(wrong), z3.Or(L < hl, z3.And(z3.Not(over), L < hl + ml + n))))); return
        if r.raised:
            c.prove('a protocol or payload error', bv(r.is_a(WebSocketProtocolError) or r.is_a(PayloadError)))
            if r.is_a(WebSocketProtocolError): c.prove('wrongly masked', z3.And(L >= 2, wrong))
            else: c.prove('too long', z3.And(L >= hl, z3.Not(wrong), over))
            return
        f = r.value
        c.prove('rightly masked, not too long, complete', z3.And(z3.Not(wrong), z3.Not(over), L >= hl + ml + n))
        c.prove('first byte', iterm(c.it.getattr(f, 'head_0')) == T[0])
        c.prove('consumed exactly', g['pos'] == hl + ml + n)
        d = sterm(c.it.getattr(f, 'data'))
        raw = z3.Extract(T, hl + ml, n)
        c.prove('payload', d == (raw if side else MASKED(z3.Extract(T, hl, 4), raw)))
    for form in range(3):
        @proof(f'round trip, written by the {"client" if side else "server"}, length form {form}', budget=200)
        def _(c, side=side, form=form):
            # the layout (proved above) with the digits of the length as variables; that they are what `be` says is the lemma below
            h0 = c.int('head_0').t; d = c.bytes('data').t; n = z3.Length(d); mask_contract(c); tail = c.bytes('following').t; m = [c.fresh('m', I) for _ in range(4)]
            for x in (h0, *m): c.assume(z3.And(x >= 0, x < 256))
            c.assume(in_form(form, n)); k = (0, 2, 8)[form]
            ds = [c.fresh('digit', I) for _ in range(k)]
            for x in ds: c.assume(z3.And(x >= 0, x < 256))
            if k: c.assume(n == sum(x * 256 ** (k - 1 - j) for j, x in enumerate(ds)))
            s = 128 if side else 0
            mt = z3.Concat(*[u(x) for x in m]); pay = MASKED(mt, d) if side else d
            c.fact(z3.Length(MASKED(mt, d)) == n); c.fact(MASKED(mt, MASKED(mt, d)) == d)
            T = z3.Concat(u(h0), u(s + n) if form == 0 else u(z3.IntVal(s + 125 + form)), *[u(x) for x in ds], *([mt] if side else []), pay, tail)
            stream(c, z3.simplify(T))
            p = inst(c, HttpReadWriteProtocol)
            mx = None if c.choose(2) else c.int('max_size')
            if mx is not None: c.assume(n <= mx.t)
            r = attempt(c, HttpReadProtocol.read_web_socket_frame, p, not side, mx); no_raise(c, r)
            f = r.value
            c.prove('first byte', iterm(c.it.getattr(f, 'head_0')) == h0); c.prove('payload', sterm(c.it.getattr(f, 'data')) == d)
            c.prove('the rest stays', c.ghost['pos'] == 2 + k + (4 if side else 0) + n)
@proof('digits of a length')
def _(c):
    q, r, x, y = (c.fresh(v, I) for v in 'qrxy')
    c.prove('division with remainder is unique', z3.Implies(z3.And(r >= 0, r < 256, x == 256 * q + r), z3.And(x % 256 == r, x / 256 == q)))
    for p in range(1, 8):
        c.prove(f'dividing by 256**{p} is dividing by 256, {p} times', z3.Implies(x >= 0, (x / 256 ** p) / 256 == x / 256 ** (p + 1)))

# ---------------------------------------------------------------- frames
@proof('a frame is what it is made of')
def _(c):
    fin = bool(c.choose(2)) if c.choose(2) else c.int('final'); op = c.int('operation_code'); d = c.bytes('data')
    c.assume(z3.And(op.t >= 0, op.t < 16))
    ft = iterm(fin)
    if not isinstance(fin, bool): c.assume(z3.And(ft >= 0, ft <= 1))
    r = attempt(c, WebSocketFrame, fin, op, d); no_raise(c, r); f = r.value
    g = lambda k: c.it.getattr(f, k)
    c.prove('first byte', iterm(g('head_0')) == 128 * ft + op.t); c.prove('payload', eqv(c, g('data'), d))
    c.prove('final', truth(c, g('final')) == (ft == 1)); c.prove('operation code', iterm(g('operation_code')) == op.t)
    h = c.int('head'); c.assume(z3.And(h.t >= 0, h.t < 256))
    r = attempt(c, WebSocketFrame._from_fields, h, d); no_raise(c, r); f = r.value
    c.prove('from fields', z3.And(iterm(g('head_0')) == h.t, eqv(c, g('data'), d))); c.prove('final bit', truth(c, g('final')) == (h.t >= 128)); c.prove('low four bits', iterm(g('operation_code')) == h.t % 16)
@proof('check refuses exactly what RFC 6455 forbids')
def _(c):
    h = c.int('head'); d = c.bytes('data'); c.assume(z3.And(h.t >= 0, h.t < 256))
    r = attempt(c, WebSocketFrame.check, frame(c, h, d))
    op = h.t % 16; ctrl = z3.Or(op == 8, op == 9, op == 10)
    bad = z3.Or((h.t / 16) % 8 != 0, z3.Not(z3.Or(op <= 2, ctrl)), z3.And(ctrl, z3.Or(h.t < 128, z3.Length(d.t) > 125)))
    if r.raised: c.prove('refused with a protocol error', bv(r.is_a(WebSocketProtocolError))); c.prove('only a forbidden frame', bad)
    else: c.prove('no forbidden frame passes', z3.Not(bad))

# ---------------------------------------------------------------- native
RULE = 'frames of all first bytes, payload lengths around 0, 1-8, 125-127, 65535-65537, both sides, masks, chunkings of the wire, hostile heads; distinct by content'
SEARCH_S = 6
class Tr:
    def __init__(self): self.out = []
    def write(self, d): self.out.append(bytes(d))
    def writelines(self, ds): [self.write(d) for d in ds]
    def resume_reading(self): pass
    def pause_reading(self): pass
    def get_extra_info(self, *a): return None
def cases(rng, part, parts):
    n = 0
    while True:
        n += 1
        ln_ = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 124, 125, 126, 127, 128, 255, 256, 65535, 65536, 65537, 70000] if n % 40 == 0 else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 124, 125, 126, 127, 300])
        kind = rng.choice(['trip', 'trip', 'trip', 'raw', 'check', 'new'])
        yield [kind, rng.randint(0, 1), rng.choice([0x81, 0x82, 0x80, 1, 2, 0, 0x88, 0x89, 0x8a, rng.randint(0, 255)]), ln_, rng.randint(0, 2 ** 32 - 1), [rng.randint(1, 9) for _ in range(rng.randint(0, 4))], rng.choice([None, ln_, ln_ - 1, ln_ + 1, 2 ** 26]), rng.randint(0, 12)]
def ref_parse(b, client, mx):
    """-> ('frame', head, data, used) / ('more',) / ('protocol',) / ('payload',)"""
    if len(b) < 2: return ('more',)
    if bool(b[1] & 128) == bool(client): return ('protocol',)
    l = b[1] & 127; p = 2
    for code, size in ((126, 2), (127, 8)):
        if l == code:
            if len(b) < 2 + size: return ('more',)
            l = int.from_bytes(b[2:2 + size], 'big'); p = 2 + size; break
    if mx is not None and l > mx: return ('payload',)
    if client: m = bytes(4)
    else:
        if len(b) < p + 4: return ('more',)
        m = b[p:p + 4]; p += 4
    if len(b) < p + l: return ('more',)
    return ('frame', b[0], bytes(x ^ m[k % 4] for k, x in enumerate(b[p:p + l])), p + l)
def check_case(case):
    from contracts.loops import FakeLoop
    from scarletio.core.traps.task import Task
    kind, client, h0, n, mask, cuts, mx, extra = case
    client = bool(client)
    d = bytes((k * 7 + mask) % 256 for k in range(n))
    op = h0 & 15
    if kind == 'new':
        f = WebSocketFrame(bool(h0 & 128), op, d)
        return None if f.head_0 == (h0 & 0x8f) and f.data == d and f.final is bool(h0 & 128) and f.operation_code == op else f'frame fields {f.head_0:#x} for {h0 & 0x8f:#x}'
    f = WebSocketFrame._from_fields(h0, d)
    if kind == 'check':
        bad = bool(h0 & 0x70) or op not in (0, 1, 2, 8, 9, 10) or op >= 8 and (not h0 & 128 or n > 125)
        try: f.check(); got = False
        except WebSocketProtocolError: got = True
        return None if got == bad else f'check of {h0:#x} with {n} bytes refuses: {got}'
    lp = FakeLoop()
    if kind == 'trip':
        p = HttpReadWriteProtocol(lp); tr = Tr(); p._transport = tr
        HP.getrandbits, saved = (lambda k: mask), HP.getrandbits
        try: p.write_web_socket_frame(f, client)
        finally: HP.getrandbits = saved
        w = b''.join(tr.out)
        form = bytes([h0]) + (bytes([n | client << 7]) if n < 126 else bytes([126 | client << 7]) + n.to_bytes(2, 'big') if n < 65536 else bytes([127 | client << 7]) + n.to_bytes(8, 'big'))
        mb = mask.to_bytes(4, 'big')
        want = form + (mb + bytes(x ^ mb[k % 4] for k, x in enumerate(d)) if client else d)
        if w != want: return f'wire {w[:24].hex()} ({len(w)} bytes), want {want[:24].hex()} ({len(want)})'
        side = not client
    else:
        import random
        w = bytes([h0, mask % 256]) + random.Random(mask).randbytes(n); side = client
        if mask % 256 & 127 == 127: w = w[:2] + (bytes(6) if extra % 2 else b'') + w[2:]
    tail = bytes(range(extra)) if kind == 'trip' else b''
    b = w + tail
    p = HttpReadWriteProtocol(lp); tr = Tr(); p._transport = tr
    t = Task(lp, p.read_web_socket_frame(side, mx)); lp.turn()
    pos = 0
    for k in cuts: 
        if pos < len(b): p.data_received(b[pos:pos + k]); pos += k; lp.turn()
    if pos < len(b): p.data_received(b[pos:]); lp.turn()
    r = ref_parse(b, side, mx); err = None
    if r[0] == 'more':
        if t.is_done(): err = f'ends on an incomplete frame: {t!r}'
    elif not t.is_done(): err = f'hangs, want {r[0]}'
    else:
        e = t.get_exception()
        if r[0] == 'frame':
            if e is not None: err = f'fails with {e!r}'
            else:
                g = t.get_result()
                if (g.head_0, bytes(g.data)) != r[1:3]: err = f'frame {g.head_0:#x} {bytes(g.data)[:20].hex()}, want {r[1]:#x} {r[2][:20].hex()}'
                rest = b''.join(bytes(x) for x in p._chunks)[p._offset:] if p._chunks else b''
                if not err and rest != b[r[3]:]: err = f'consumed {len(b) - len(rest)} bytes, want {r[3]}'
        elif type(e) is not (WebSocketProtocolError if r[0] == 'protocol' else PayloadError): err = f'{e!r}, want a {r[0]} error'
    t.silence(); t._callbacks.clear(); 
    if not t.is_done(): p.eof_received(); lp.turn()
    return err
def shrink(case):
    kind, client, h0, n, mask, cuts, mx, extra = case
    if n > 0 and kind != 'raw':
        for m in {0, n // 2, n - 1}: yield [kind, client, h0, m, mask, cuts, mx, extra]
    if cuts: yield [kind, client, h0, n, mask, [], mx, extra]
    if mask: yield [kind, client, h0, n, 1, cuts, mx, extra]
    if extra: yield [kind, client, h0, n, mask, cuts, mx, 0]
