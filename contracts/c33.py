"""C33: a socket transport sends what is written, in order and once."""
from contracts.streams import *
from contracts.loops import *
import ast, reprlib, itertools, os, errno
from scarletio.core.protocols_and_transports import transport_layer as TL, unix_pipe_transport_layer as UP
from scarletio.core.protocols_and_transports.transport_layer import SocketTransportLayer, SocketTransportLayerBase, TransportLayerBase
from scarletio.core.protocols_and_transports.unix_pipe_transport_layer import UnixWritePipeTransportLayer
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: between two events nothing else runs', 'socket.send / sendmsg / os.write take a prefix of what they are given (possibly nothing) and say how long it is, or raise', 'the loop calls the writer while it is registered and the file is writable (C27)',
    'what is written is bytes, a bytearray or a memoryview of bytes that nobody changes afterwards', 'reporting an exception (write_exception_async) does not raise', 'itertools.islice']
DESIGN = '''State of a transport: g['sent'], the bytes the file took, and the buffer. Every operation is proved from any consistent state - no empty chunk, the writer registered exactly while
something is buffered - to a consistent state with: sent ++ flat(buffer) afterwards = sent ++ flat(buffer) before ++ what was accepted. The loop that drops sent chunks has the invariant
that the part of the buffer it dropped and the number of bytes left to drop make up the prefix the socket took. The end of writing and the end of the connection are proved to come
only when nothing is buffered (or after an error or abort), pausing and resuming the protocol to follow the marks, and the protocol may write, close or abort from within resume_writing.'''
unfold = unfold_flat
class SockI(Iface):
    name = 'socket'
    def took(self, ctx, all_):
        g = ctx.ghost; k = ctx.choose(3)
        if k == 1: raise PyExc(Inst(ctx, BlockingIOError if ctx.choose(2) else InterruptedError, {'args': ()}))
        if k == 2: raise PyExc(g.setdefault('send error', Inst(ctx, (ConnectionResetError, ValueError)[ctx.choose(2)], {'args': ()})))
        n = ctx.int('taken'); T, R = ctx.fresh('T', SEQ), ctx.fresh('R', SEQ)
        ctx.assume(z3.And(0 <= n.t, n.t <= z3.Length(all_))); ctx.fact(z3.And(all_ == z3.Concat(T, R), z3.Length(T) == n.t, z3.Extract(all_, n.t, z3.Length(all_) - n.t) == R))
        g['sent'] = cat(g['sent'], T); g['taken'] = n.t; g['rest'] = R
        return n
    def m_send(self, ctx, o, data):
        ctx.prove('the socket is open', bv(not ctx.ghost['socket closed'])); ctx.prove('nothing older is buffered', z3.Length(seq(ctx.ghost['t'])) == 0 if not ctx.ghost.get('ready') else bv(True)); return self.took(ctx, sterm(data))
    def m_sendmsg(self, ctx, o, part):
        g = ctx.ghost; ctx.prove('the socket is open', bv(not g['socket closed']))
        ctx.prove('from the start of the buffer', bv(isinstance(part, Opaque) and 'prefix' in part.extra))
        n = self.took(ctx, part.extra['prefix']); g['rest'] = R = cat(g['rest'], part.extra['more']); ctx.fact(z3.Extract(part.extra['all'], n.t, z3.Length(R)) == R); return n
    def m_recv(self, ctx, o, size):
        g = ctx.ghost; k = ctx.choose(4); g['received'] = None
        if k == 1: raise PyExc(Inst(ctx, BlockingIOError if ctx.choose(2) else InterruptedError, {'args': ()}))
        if k == 2: raise PyExc(g.setdefault('recv error', Inst(ctx, (ConnectionResetError, ValueError)[ctx.choose(2)], {'args': ()})))
        d = ctx.bytes('received'); ctx.assume(z3.Length(d.t) > 0 if k == 0 else z3.Length(d.t) == 0); g['received'] = d; return d
    def m_shutdown(self, ctx, o, how):
        g = ctx.ghost; ctx.prove('the end of writing is told when nothing is buffered', z3.Length(seq(g['t'])) == 0); g['shut'] += 1
    def m_close(self, ctx, o): ctx.ghost['socket closed'] += 1
SOCK = SockI()
class LpI(Iface):
    name = 'loop'
    def m_add_writer(self, ctx, o, fd, f, *a): ctx.prove('the writer', bv(is_method(f, ctx.ghost['t'], '_write_ready') and not a)); ctx.ghost['writer'] = z3.BoolVal(True); return None
    def m_remove_writer(self, ctx, o, fd): ctx.ghost['writer'] = z3.BoolVal(False); return True
    def m_add_reader(self, ctx, o, fd, f, *a): ctx.ghost['reader'] = True
    def m_remove_reader(self, ctx, o, fd): ctx.ghost['reader'] = False; return True
    def m_call_soon(self, ctx, o, f, *a):
        g = ctx.ghost; t = g['t']
        if not isinstance(f, Bound): f, a = Bound(f, a[0]), a[1:]
        ctx.prove('the loss of the connection is scheduled', bv(is_method(f, t, '_call_connection_lost') and len(a) == 1)); g['due'].append(a[0])
LPI = LpI()
def is_method(f, o, name): return isinstance(f, Bound) and f.self is o and getattr(f.fn, '__name__', None) == name
class PrI(Iface):
    name = 'protocol'
    def m_connection_lost(self, ctx, o, e):
        g = ctx.ghost; g['lost'].append(e); ctx.prove('nothing is buffered when the connection is lost', z3.Length(seq(g['t'])) == 0)
        if ctx.choose(2): raise PyExc(g.setdefault('lost error', Inst(ctx, ValueError, {'args': ()})))
    def m_pause_writing(self, ctx, o):
        ctx.ghost['told'].append('pause')
        if ctx.choose(2): raise PyExc(Inst(ctx, ValueError, {'args': ()}))
    def m_resume_writing(self, ctx, o):
        g = ctx.ghost; g['told'].append('resume'); t = g['t']; k = ctx.choose(4)
        if k == 1: raise PyExc(Inst(ctx, ValueError, {'args': ()}))
        if k == 2:      # it writes
            d = ctx.bytes('more'); n = ctx.int('more_taken'); ctx.assume(z3.Length(d.t) > 0)
            l = t.fields['_buffer']; b = l.as_term(BytesC); g['accepted'] = cat(g['accepted'], d.t)
            if ctx.branch(z3.Length(b) == 0):
                ctx.assume(z3.And(0 <= n.t, n.t <= z3.Length(d.t))); g['sent'] = cat(g['sent'], z3.Extract(d.t, 0, n.t))
                if ctx.branch(n.t == z3.Length(d.t)): return
                rest = z3.Extract(d.t, n.t, z3.Length(d.t) - n.t); g['writer'] = z3.BoolVal(True)
                ctx.touch(l, 'content'); l.set_seq(z3.Unit(rest)); return
            ctx.touch(l, 'content'); l.set_seq(z3.Concat(b, z3.Unit(d.t)))
        if k == 3: t.fields['_closing'] = True      # it closes; what is buffered is still sent
    def m_data_received(self, ctx, o, d): ctx.ghost['given'].append(d)
    def m_eof_received(self, ctx, o): ctx.ghost['given'].append(None); return SBool(ctx.ghost.setdefault('keep', ctx.fresh('keep_open', B)))
PRI = PrI()
class SrvI(Iface):
    name = 'server'
    def m__detach(self, ctx, o): ctx.ghost['detached'] += 1
SRV = SrvI()
class PrefixI(Iface): name = 'the first chunks of the buffer'
PREFIX = PrefixI()
def seq(t): return t.fields['_buffer'].as_term(BytesC)
def flat(c, t): return flat_term(c, z3.simplify(seq(t)))
def total(c, t): return cat(c.ghost['sent'], flat(c, t))
def transport(c, full=None, lost=None, closing=None, eof=None, lean=False):
    """any consistent state; `full`: whether something is buffered"""
    g = c.ghost; full = c.choose(2) if full is None else full
    lost = bool(c.choose(2)) if lost is None else lost
    if lost: full = 0; closing = True
    closing = bool(c.choose(2)) if closing is None else closing
    if closing and not full: lost = True
    b = z3.Empty(SEQ2)
    if full: b = z3.Concat(z3.Unit(c.bytes('chunk').t), c.fresh('chunks', SEQ2))
    lo, hi = c.int('low'), c.int('high'); c.assume(z3.And(0 <= lo.t, lo.t <= hi.t))
    eof = bool(c.choose(2)) if eof is None else eof; gone = lost and bool(c.choose(2)); pp = bool(c.choose(2)); g['gone'] = gone
    t = inst(c, SocketTransportLayer, _buffer=LList(c, seq=b, codec=BytesC, kind='deque'), _closing=closing, _connection_lost=lost, _file_descriptor=c.int('fd'), _high_water=hi, _low_water=lo,
        _paused=not lean and bool(c.choose(2)), _protocol=None if gone else Opaque(c.fresh('protocol', OBJ), PRI), _protocol_paused=pp, _socket=None if gone else Opaque(c.fresh('socket', OBJ), SOCK),
        _at_eof=eof, _server=Opaque(c.fresh('server', OBJ), SRV) if not lean and not gone and c.choose(2) else None, _loop=Opaque(c.fresh('loop', OBJ), LPI), _extra=None)
    g.update(t=t, sent=c.fresh('sent', SEQ), accepted=empty(), writer=z3.BoolVal(bool(full)), reader=not closing, lost=[], told=[], due=[], shut=0, given=[], detached=0)
    g['socket closed'] = 1 if gone else 0
    unfold(c, b); c.assume(none_empty(c, b))
    if not lost and pp: c.assume(z3.Length(flat_term(c, b)) > lo.t)
    if not lost and not pp: c.assume(z3.Length(flat_term(c, b)) <= hi.t)
    g['start'] = total(c, t); g['buffer0'] = b
    use(c, SocketTransportLayerBase.__repr__, lambda ctx, self: 'transport'); use(c, TransportLayerBase._fatal_error, lambda ctx, self, e, m=None: None)
    use(c, TL.write_exception_async, lambda ctx, *a, **k: None); use(c, reprlib.repr, lambda ctx, v: 'data')
    size_contract(c)
    return t
def size_contract(c):
    def h(ctx, self): f = flat(ctx, self); return SInt(z3.Length(f))
    use(c, SocketTransportLayer.get_write_buffer_size, h)
def nothing_lost(c, t, accepted=None):
    g = c.ghost
    c.prove('sent and buffered: what was before and what was accepted, in order', total(c, t) == cat(g['start'], g['accepted'] if accepted is None else cat(accepted, g['accepted'])))
def consistent_state(c, t):
    g = c.ghost; b = seq(t)
    c.prove('no chunk is empty', none_empty(c, b))
    c.prove('the writer is registered while something is buffered', g['writer'] == (z3.Length(b) > 0))
def pausing(c, t, may_pause=True):
    """the protocol is paused beyond the high mark and not below the low one"""
    g = c.ghost; p = t.fields['_protocol_paused']; n = z3.Length(flat(c, t))
    c.prove('beyond the high mark it is paused', z3.Or(truth(c, p), n <= t.fields['_high_water'].t))
def stopped(c, t, e):
    """after an error or an abort"""
    g = c.ghost
    c.prove('nothing is buffered any more', z3.Length(seq(t)) == 0); c.prove('no writer', z3.Not(g['writer']))
    c.prove('closing', truth(c, t.fields['_closing'])); c.prove('lost', truth(c, t.fields['_connection_lost']))
    c.prove('the loss is told once, with the error', bv(len(g['due']) + len(g['lost']) == 1 and (g['due'] + g['lost'])[0] is e))

@proof('write: what is accepted is sent or buffered, after everything before; what is not is refused', budget=120)
def _(c):
    t = transport(c); g = c.ghost; k = c.choose(2); lost0, eof0 = t.fields['_connection_lost'], t.fields['_at_eof']; b0 = seq(t); s0 = g['sent']
    pp0 = t.fields['_protocol_paused']
    d = c.bytes('data') if k == 0 else 'text'
    r = attempt(c, SocketTransportLayer.write, t, d)
    if k: c.prove('TypeError', bv(r.raised and r.is_a(TypeError))); nothing_lost(c, t); return
    if eof0: c.prove('refused after the end of writing', bv(r.raised and r.is_a(RuntimeError))); nothing_lost(c, t); return
    no_raise(c, r)
    if lost0: c.prove('nothing happens after the loss', z3.And(g['sent'] == s0, z3.Length(seq(t)) == 0, bv(not g['due'] and not g['lost']))); return
    if 'send error' in g: stopped(c, t, g['send error']); return
    nothing_lost(c, t, d.t); consistent_state(c, t); pausing(c, t)
    c.prove('not lost', z3.And(z3.Not(truth(c, t.fields['_connection_lost'])), bv(not g['due'] and not g['lost'])))
    c.prove('paused at most once', bv(g['told'] in ([], ['pause']) and (g['told'] != ['pause'] or not pp0)))

def levi(x, f, m, R, D):
    """x ++ f without its first m is R: either the first m end inside x, or x is dropped"""
    a = z3.Concat(x, f); n = z3.Length
    given = z3.And(0 < m, n(a) == m + n(R), z3.Extract(a, m, n(R)) == R)
    return given, [z3.Implies(z3.And(given, n(x) > m), z3.Concat(z3.Extract(x, m, n(x) - m), f) == R), z3.Implies(z3.And(given, n(x) <= m), z3.And(n(f) == m - n(x) + n(R), z3.Extract(f, m - n(x), n(R)) == R, z3.Implies(n(x) == m, f == R)))]
@proof('dropping the first bytes of a list of chunks (lemma)')
def _(c):
    x, f, R, D = (c.fresh(k, SEQ) for k in 'xfRD'); m = c.fresh('m', I)
    for k in levi(x, f, m, R, D)[1]: c.prove('by cases', k)
@proof('the writer: exactly what the socket took leaves the buffer; then the end is told when nothing is left', budget=300)
def _(c):
    t = transport(c, full=1, lean=True); g = c.ghost; lst = t.fields['_buffer']; b0 = g['buffer0']; F0 = flat_term(c, b0); g['ready'] = True
    lost0 = t.fields['_connection_lost']; pp0 = t.fields['_protocol_paused']
    def islice(ctx, l, n):
        ctx.prove('of the buffer', bv(l is lst)); ctx.prove('at least one chunk', iterm(n) > 0)
        o = Opaque(ctx.fresh('prefix', OBJ), PREFIX); p, q = ctx.fresh('first', SEQ), ctx.fresh('more', SEQ); ctx.assume(z3.And(F0 == z3.Concat(p, q), z3.Length(p) > 0)); o.extra.update(prefix=p, more=q, all=F0); return o
    use(c, itertools.islice, islice)
    def cur(L): return lst.as_term(BytesC)
    def left(L): return iterm(L.get('bytes_sent'))
    def inv(L):
        ctx = L.ctx; b = cur(L); m = left(L); f = flat_term(ctx, z3.simplify(b)); R = g['rest']
        some = z3.And(z3.Length(b) > 0, 0 < m) if isinstance(L._test, ast.Constant) else 0 <= m        # a loop with a condition may have nothing left to drop
        return {'what is left to drop is in the buffer': z3.And(some, m <= g['taken'], z3.Length(f) == m + z3.Length(R)),
            'the rest of the buffer': z3.Extract(f, m, z3.Length(R)) == R, 'no chunk is empty': none_empty(ctx, b)}
    def head(L):
        ctx = L.ctx; b = cur(L); x, q, D = ctx.fresh('x', SEQ), ctx.fresh('q', SEQ2), ctx.fresh('D', SEQ); m = left(L); R = g['rest']; f = FLAT(q)
        unfold(ctx, b); ctx.fact(z3.Implies(z3.Length(b) > 0, z3.And(b == z3.Concat(z3.Unit(x), q), FLAT(b) == z3.Concat(x, f), z3.Extract(b, 1, z3.Length(b) - 1) == q))); unfold(ctx, q)
        for k in levi(x, f, m, R, D)[1]: ctx.fact(k)
        if ctx.implied(b == z3.Concat(z3.Unit(x), q)): lst.set_seq(z3.Concat(z3.Unit(x), q))       # the loop works on the parts
    loop(c, '_write_ready', 0, Loop(inv=inv, dec=left, on_head=head))
    s0 = g['sent']
    r = attempt(c, SocketTransportLayer._write_ready, t)
    if 'lost error' in g: c.prove('the failure of the protocol goes through', bv(r.raised and r.exc is g['lost error'])); c.prove('the socket is closed all the same', bv(g['socket closed'] == 1)); return
    no_raise(c, r)
    if lost0: c.prove('nothing happens after the loss', z3.And(g['sent'] == s0, bv(not g['due'] and not g['lost']))); return
    if 'send error' in g: stopped(c, t, g['send error']); return
    nothing_lost(c, t)
    consistent_state(c, t)
    done = z3.Length(seq(t)) == 0
    if g['lost']:
        c.prove('the connection is lost when it was closing and nothing is left', z3.And(truth(c, t.fields['_closing']), done, bv(len(g['lost']) == 1 and g['lost'][0] is None and g['socket closed'] == 1 and not g['shut']))); return
    c.prove('closing ends when nothing is left', z3.Not(z3.And(truth(c, t.fields['_closing']), done)))
    c.prove('the end of writing is told once nothing is left', z3.And(bv(g['shut'] in (0, 1)), bv(g['shut'] == 1) == z3.And(done, truth(c, t.fields['_at_eof']))) if 'taken' in g else bv(not g['shut']))
    n = z3.Length(flat(c, t))
    c.prove('resumed only when paused', bv(g['told'] in ([], ['resume']) and (g['told'] == [] or pp0)))
    if 'taken' in g and not g['told']: c.prove('below the low mark it is not paused', z3.Or(z3.Not(truth(c, t.fields['_protocol_paused'])), n > t.fields['_low_water'].t))

@proof('close: at once when nothing is buffered, else after it is sent; closing again does nothing')
def _(c):
    t = transport(c); g = c.ghost; cl0 = t.fields['_closing']; lost0 = t.fields['_connection_lost']; b0 = seq(t)
    r = attempt(c, SocketTransportLayer.close, t); no_raise(c, r); nothing_lost(c, t); consistent_state(c, t)
    c.prove('closing', truth(c, t.fields['_closing']))
    if cl0: c.prove('nothing more', bv(not g['due'] and not g['lost'])); return
    c.prove('no more is read', bv(g['reader'] is False))
    c.prove('the loss is told once nothing is buffered', z3.And(bv(g['due'] in ([], [None])), bv(len(g['due']) == 1) == (z3.Length(b0) == 0), truth(c, t.fields['_connection_lost']) == (z3.Length(b0) == 0)))

@proof('abort: what is buffered is dropped, the loss is told once')
def _(c):
    t = transport(c); g = c.ghost; lost0 = t.fields['_connection_lost']; e = c.choose(2) and Inst(c, ValueError, {'args': ()}) or None
    r = attempt(c, SocketTransportLayer.abort, t, e); no_raise(c, r)
    if lost0: c.prove('nothing more', bv(not g['due'] and not g['lost'])); return
    stopped(c, t, e); c.prove('no more is read', bv(g['reader'] is False))

@proof('the end of writing: told at once when nothing is buffered, once')
def _(c):
    t = transport(c); g = c.ghost; e0 = t.fields['_at_eof']; b0 = seq(t); l0 = t.fields['_connection_lost']
    r = attempt(c, SocketTransportLayer.write_eof, t); no_raise(c, r); nothing_lost(c, t); consistent_state(c, t)
    c.prove('no more can be written', truth(c, t.fields['_at_eof']))
    c.prove('told when nothing is buffered', bv(g['shut'] == 1) == z3.And(bv(not e0 and not l0), z3.Length(b0) == 0)); c.prove('once', bv(g['shut'] <= 1))

@proof('the loss of the connection: the protocol is told once, the socket closed and the server told whatever it does')
def _(c):
    t = transport(c, lost=True); g = c.ghost; gone = g['gone']; s0 = t.fields['_server']; e = c.choose(2) and Inst(c, ValueError, {'args': ()}) or None
    r = attempt(c, SocketTransportLayer._call_connection_lost, t, e)
    if 'lost error' in g: c.prove('its failure goes through', bv(r.raised and r.exc is g['lost error']))
    else: no_raise(c, r)
    c.prove('the protocol is told once', bv(g['lost'] == ([] if gone else [e]) if e is None else len(g['lost']) == (0 if gone else 1) and all(x is e for x in g['lost'])))
    c.prove('the socket is closed once', bv(g['socket closed'] == 1 and t.fields['_socket'] is None)); c.prove('the protocol is let go', bv(t.fields['_protocol'] is None))
    c.prove('the server is told once', bv(g['detached'] == (s0 is not None) and t.fields['_server'] is None))

@proof('reading: what the socket gives goes to the protocol, once; its end closes unless the protocol keeps the connection')
def _(c):
    t = transport(c, eof=False); g = c.ghost; lost0 = t.fields['_connection_lost']; cl0 = t.fields['_closing']; b0 = seq(t)
    r = attempt(c, SocketTransportLayer._read_ready, t); no_raise(c, r)
    if lost0: c.prove('nothing happens after the loss', bv(not g['given'] and not g['due'])); return
    if 'recv error' in g: stopped(c, t, g['recv error']); return
    nothing_lost(c, t); consistent_state(c, t); d = g.get('received')
    if d is None: c.prove('nothing came', bv(not g['given'] and not g['due'])); return
    c.prove('given once', bv(len(g['given']) == 1))
    if c.branch(z3.Length(d.t) > 0): c.prove('that', bv(g['given'][0] is d)); c.prove('it stays open', truth(c, t.fields['_closing']) == bv(cl0)); return
    c.prove('the end', bv(g['given'][0] is None))
    if c.branch(g['keep']): c.prove('it stays open, nothing more is read', z3.And(truth(c, t.fields['_closing']) == bv(cl0), bv(g['reader'] is False)))
    else: c.prove('it closes', z3.And(truth(c, t.fields['_closing']), bv(g['reader'] is False)))

@proof('the marks: low is at most high and not negative, the protocol is paused when beyond')
def _(c):
    t = transport(c, lost=False, closing=False, lean=True); g = c.ghost; h, l = (c.int(n) if c.choose(2) else None for n in ('new_high', 'new_low'))
    pp0 = t.fields['_protocol_paused']; old = t.fields['_low_water'].t, t.fields['_high_water'].t
    r = attempt(c, SocketTransportLayer.set_write_buffer_limits, t, h, l)
    nothing_lost(c, t); lo, hi = iterm(t.fields['_low_water']), iterm(t.fields['_high_water'])
    if r.raised: c.prove('ValueError, nothing changes', z3.And(bv(r.is_a(ValueError)), lo == old[0], hi == old[1], z3.Or(bv(l is not None) if l is None else l.t < 0, bv(False) if h is None else h.t < (z3.IntVal(0) if l is None else l.t)))); return
    c.prove('ordered', z3.And(0 <= lo, lo <= hi))
    if h is not None: c.prove('the high one', hi == h.t)
    if l is not None: c.prove('the low one', lo == l.t)
    c.prove('beyond the high mark it is paused', z3.Or(truth(c, t.fields['_protocol_paused']), z3.Length(flat(c, t)) <= hi)); c.prove('paused at most once', bv(g['told'] in ([], ['pause']) and (not g['told'] or not pp0)))

@proof('reading is paused and resumed')
def _(c):
    t = transport(c); g = c.ghost; p0 = t.fields['_paused']; cl = t.fields['_closing']; k = c.choose(2); g['reader'] = not cl and not p0
    r = attempt(c, (SocketTransportLayer.pause_reading, SocketTransportLayer.resume_reading)[k], t); no_raise(c, r); nothing_lost(c, t)
    if k == 0: c.prove('paused when it was reading', z3.And(truth(c, r.value) == bv(not cl and not p0), bv(not g['reader']), truth(c, t.fields['_paused']) == bv(p0 or not cl)))
    else: c.prove('resumed when it was paused', z3.And(truth(c, r.value) == bv(p0), z3.Not(truth(c, t.fields['_paused'])), bv(g['reader'] == (not cl))))

@proof('the size of what is buffered')
def _(c):
    t = transport(c, full=1, lost=False, closing=False, eof=False, lean=True); lst = t.fields['_buffer']; b = seq(t); c.it.ctx.handlers.pop(SocketTransportLayer.get_write_buffer_size, None)
    SIZE = lambda k: z3.Length(FLAT(z3.Extract(b, 0, k)))
    def head(L):
        ctx = L.ctx; i = L._i; P, x = ctx.fresh('P', SEQ2), ctx.fresh('x', SEQ)
        ctx.fact(z3.Implies(i < z3.Length(b), z3.And(z3.Extract(b, 0, i) == P, b[i] == x, z3.Extract(b, 0, i + 1) == z3.Concat(P, z3.Unit(x)), FLAT(z3.Concat(P, z3.Unit(x))) == z3.Concat(FLAT(P), x))))
    c.fact(z3.Extract(b, 0, z3.Length(b)) == b); c.fact(FLAT(z3.Empty(SEQ2)) == empty()); c.fact(z3.Extract(b, 0, z3.IntVal(0)) == z3.Empty(SEQ2))
    loop(c, 'get_write_buffer_size', 0, Loop(inv=lambda L: {'the size of those before': iterm(L.get('size')) == SIZE(L._i)}, on_head=head))
    r = attempt(c, SocketTransportLayer.get_write_buffer_size, t); no_raise(c, r)
    c.prove('all of it', iterm(r.value) == z3.Length(FLAT(b)))

# ---------------------------------------------------------------- the write end of a pipe
def pipe(c):
    g = c.ghost; full = c.choose(2); closing = bool(c.choose(2)); gone = closing and not full and bool(c.choose(2)); pp = bool(c.choose(2))
    lo, hi = c.int('low'), c.int('high'); c.assume(z3.And(0 <= lo.t, lo.t <= hi.t)); b = c.fresh('buffer', SEQ) if full else empty(); c.assume(z3.Length(b) > 0) if full else None
    buf = LBytes(c, b)
    t = inst(c, UnixWritePipeTransportLayer, _buffer=buf, _extra=None, _high_water=hi, _low_water=lo, _closing=closing, _file_descriptor=c.int('fd'), _loop=Opaque(c.fresh('loop', OBJ), LPI),
        _pipe=None if gone else Opaque(c.fresh('pipe', OBJ), SOCK), _protocol=None if gone else Opaque(c.fresh('protocol', OBJ), PPI), _protocol_paused=pp)
    g.update(t=t, sent=c.fresh('sent', SEQ), accepted=empty(), writer=z3.BoolVal(bool(full)), reader=not closing, lost=[], told=[], due=[], shut=0, given=[], detached=0, gone=gone)
    g['socket closed'] = 1 if gone else 0; g['start'] = cat(g['sent'], b)
    def write(ctx, fd, d):
        ctx.prove('that file', eqv(ctx, fd, t.fields['_file_descriptor'])); x = d.as_term() if isinstance(d, LBytes) else sterm(d)
        return SOCK.took(ctx, x)
    use(c, os.write, write)
    use(c, UnixWritePipeTransportLayer.__repr__, lambda ctx, self: 'transport'); use(c, UP.write_exception_async, lambda ctx, *a, **k: None)
    return t
class PpI(Iface):
    name = 'protocol'
    def m_connection_lost(self, ctx, o, e):
        g = ctx.ghost; g['lost'].append(e); ctx.prove('nothing is buffered when the connection is lost', z3.Length(held(g['t'])) == 0)
        if ctx.choose(2): raise PyExc(g.setdefault('lost error', Inst(ctx, ValueError, {'args': ()})))
    def m_pause_writing(self, ctx, o):
        ctx.ghost['told'].append('pause')
        if ctx.choose(2): raise PyExc(Inst(ctx, ValueError, {'args': ()}))
    def m_resume_writing(self, ctx, o):
        ctx.ghost['told'].append('resume')
        if ctx.choose(2): raise PyExc(Inst(ctx, ValueError, {'args': ()}))
PPI = PpI()
def held(t): return sterm(t.fields['_buffer'])
def pipe_after(c, t, accepted=None):
    g = c.ghost; c.prove('sent and buffered: what was before and what was accepted, in order', cat(g['sent'], held(t)) == (g['start'] if accepted is None else cat(g['start'], accepted)))
    c.prove('the writer is registered while something is buffered', g['writer'] == (z3.Length(held(t)) > 0))
def pipe_stopped(c, t, e):
    g = c.ghost
    c.prove('nothing is buffered any more', z3.Length(held(t)) == 0); c.prove('no writer', z3.Not(g['writer'])); c.prove('closing', truth(c, t.fields['_closing']))
    c.prove('the loss is told, with the error', bv(len(g['due']) == 1 and g['due'][0] is e and not g['lost']))
@proof('pipe: what is written is sent or buffered, in order; after closing it is dropped')
def _(c):
    t = pipe(c); g = c.ghost; cl = t.fields['_closing']; d = c.bytes('data'); pp0 = t.fields['_protocol_paused']
    r = attempt(c, UnixWritePipeTransportLayer.write, t, d); no_raise(c, r)
    if cl: pipe_after(c, t); c.prove('nothing is told', bv(not g['due'] and not g['told'])); return
    if 'send error' in g: pipe_stopped(c, t, g['send error']); return
    pipe_after(c, t, d.t); c.prove('nothing ends', bv(not g['due'] and not g['lost']))
    c.prove('beyond the high mark it is paused', z3.Or(truth(c, t.fields['_protocol_paused']), z3.Length(held(t)) <= t.fields['_high_water'].t, z3.Length(d.t) == 0)); c.prove('paused once', bv(g['told'] in ([], ['pause']) and (not g['told'] or not pp0)))
@proof('pipe: the writer drops exactly what was taken; a closing pipe is lost when nothing is left')
def _(c):
    t = pipe(c); g = c.ghost; c.assume(z3.Length(held(t)) > 0); pp0 = t.fields['_protocol_paused']
    r = attempt(c, UnixWritePipeTransportLayer._write_ready, t)
    if 'lost error' in g: c.prove('the failure of the protocol goes through', bv(r.raised and r.exc is g['lost error'])); c.prove('the pipe is closed all the same', bv(g['socket closed'] == 1)); return
    no_raise(c, r)
    if 'send error' in g: pipe_stopped(c, t, g['send error']); return
    pipe_after(c, t); done = z3.Length(held(t)) == 0; n = z3.Length(held(t))
    c.prove('lost exactly when closing and nothing is left', bv(len(g['lost']) == 1) == z3.And(truth(c, t.fields['_closing']), done)); c.prove('once, without error', bv(g['lost'] in ([], [None]) and len(g['lost']) == g['socket closed']))
    c.prove('resumed only when paused', bv(g['told'] in ([], ['resume']) and (g['told'] == [] or pp0)))
    if 'taken' in g: c.prove('below the low mark it is not paused', z3.Or(z3.Not(truth(c, t.fields['_protocol_paused'])), n > t.fields['_low_water'].t))
@proof('pipe: closing, the end of writing, abort, loss')
def _(c):
    t = pipe(c); g = c.ghost; k = c.choose(4); cl = t.fields['_closing']; b0 = held(t); gone = g['gone']
    if k < 2:
        r = attempt(c, (UnixWritePipeTransportLayer.close, UnixWritePipeTransportLayer.write_eof)[k], t); no_raise(c, r); pipe_after(c, t)
        c.prove('closing', truth(c, t.fields['_closing'])); c.prove('the loss is told when nothing is buffered', bv(g['due'] == [None]) == z3.And(bv(not cl), z3.Length(b0) == 0)); c.prove('at most once', bv(len(g['due']) <= 1))
    elif k == 2:
        e = c.choose(2) and Inst(c, ValueError, {'args': ()}) or None
        r = attempt(c, UnixWritePipeTransportLayer.abort, t, e); no_raise(c, r); pipe_stopped(c, t, e)
    else:
        c.assume(z3.Length(b0) == 0)
        r = attempt(c, UnixWritePipeTransportLayer._call_connection_lost, t, None)
        if 'lost error' not in g: no_raise(c, r)
        c.prove('told once', bv(len(g['lost']) == (0 if gone else 1))); c.prove('the pipe is closed once', bv(g['socket closed'] == 1 and t.fields['_pipe'] is None and t.fields['_protocol'] is None))

# ---------------------------------------------------------------- real transports on a file that takes what it likes
RULE = 'writes (bytes, bytearray, views, empty), ends, closing, aborting, marks, pauses at any moment on a file that takes any part, blocks or fails; a protocol that raises, writes or closes when told; bytes coming in; socket and pipe transports; distinct by content'
SEARCH_S = 8
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(2, 22)):
            x = rng.random()
            ops.append(['write', rng.choice([0, 1, 1, 2, 3, 5, 9, 20]), rng.randint(0, 2)] if x < .42 else ['ready', rng.choice([1, 1, 2, 9])] if x < .72 else ['turn'] if x < .8
                else ['marks', rng.choice([None, 0, 4, 10]), rng.choice([None, 0, 2, 4])] if x < .85 else ['in', rng.randint(0, 3)] if x < .9 else [rng.choice(['pause', 'resume', 'lines'])] if x < .95 else [rng.choice(['eof', 'close', 'close', 'abort'])])
        yield [rng.random() < .7, [rng.choice([-1, 0, 1, 1, 2, 3, 4, 7, 12, 99] if rng.random() < .97 else [-2]) for _ in range(40)], rng.choice([0, 0, 0, 1, 2, 3, 4]), rng.randint(0, 1), ops]
class File:
    """takes a part of what it is given, as the plan says"""
    family = type = proto = None
    def __init__(self, plan): self.plan = list(plan); self.data = bytearray(); self.shut = 0; self.closed = 0; self.incoming = []; self.failed = False
    def fileno(self): return 7
    def getsockname(self): return 'here'
    def getpeername(self): return 'there'
    def take(self, d):
        if self.closed: self.failed = True; raise OSError(errno.EBADF, 'closed')
        k = self.plan.pop(0) if self.plan else 99
        if k == -1: raise BlockingIOError
        if k == -2: self.failed = True; raise ConnectionResetError
        d = bytes(d)[:k]; self.data += d
        if self.shut and d: raise AssertionError('data after the end of writing')
        return len(d)
    def send(self, d): return self.take(d)
    def sendmsg(self, l): return self.take(b''.join(bytes(x) for x in l))
    def recv(self, n):
        k = self.incoming.pop(0)
        if k is None: raise BlockingIOError
        if k is OSError: raise ConnectionResetError
        return k
    def shutdown(self, how): self.shut += 1
    def close(self): self.closed += 1
class Sel:
    def get_key(self, fd): raise KeyError
def check_case(case):
    sock, plan, react, keep, ops = case
    lp = FakeLoop(); lp.selector = Sel(); f = File(plan); bad = []; log = []; got = []; written = bytearray(); W = {}; n = [0]; over = [False]
    lp.add_writer = lambda fd, fn, *a: W.__setitem__('w', (fn, a)); lp.remove_writer = lambda fd: W.pop('w', None) is not None
    lp.add_reader = lambda fd, fn, *a: W.__setitem__('r', (fn, a)); lp.remove_reader = lambda fd: W.pop('r', None) is not None
    class Proto:
        paused = False; lost = 0
        def connection_made(self, t): log.append('made')
        def connection_lost(self, e):
            self.lost += 1
            if self.lost > 1: bad.append('the loss is told twice')
            if e is None and not over[0] and not f.failed and bytes(f.data) != bytes(written): bad.append('the connection is lost before everything is sent')
            if react == 1: raise ValueError
        def pause_writing(self):
            if self.paused: bad.append('paused twice')
            self.paused = True
            if react == 2: raise ValueError
        def resume_writing(self):
            if not self.paused: bad.append('resumed without being paused')
            self.paused = False
            if react == 2: raise ValueError
            if react == 3 and not ended(): write(b'more')
            if react == 4: t.close()
        def data_received(self, d): got.append(d)
        def eof_received(self): got.append(None); return keep
    p = Proto()
    saved = TL.write_exception_async, UP.write_exception_async, os.write
    TL.write_exception_async = UP.write_exception_async = lambda *a, **k: None
    os.write = lambda fd, d: f.take(d)
    eofed = [False]
    def ended(): return eofed[0]
    def write(d):
        before = len(f.data) + t.get_write_buffer_size(); m = len(written); written.extend(d); t.write(d); k = len(f.data) + t.get_write_buffer_size() - before
        if k == 0 and t.is_closing(): del written[m:]
    def step(op):
        if op[0] in ('write', 'lines'):
            d = bytes((n[0] + i) % 251 for i in range(op[1] if op[0] == 'write' else 6)); n[0] += len(d)
            if sock and eofed[0]:
                try: t.write(d)
                except RuntimeError: return
                bad.append('written after the end'); return
            before = t.is_closing() and (not sock or not t.get_write_buffer_size())
            if not before: written.extend(d)
            if op[0] == 'lines': t.writelines([d[:2], d[2:]])
            else: t.write((d, bytearray(d), memoryview(d))[op[2]])
        elif op[0] == 'ready':
            for _ in range(op[1]):
                if 'w' in W:
                    fn, a = W['w']
                    try: fn(*a)
                    except ValueError:
                        if react != 1: raise
        elif op[0] == 'turn': turn()
        elif op[0] == 'marks':
            try:
                t.set_write_buffer_limits(high=op[1], low=op[2])
                lo, hi = t.get_write_buffer_limits()
                if not 0 <= lo <= hi or op[1] not in (None, hi) or op[2] not in (None, lo): bad.append(f'marks {lo}, {hi}')
            except ValueError:
                if not (op[1] is not None and op[2] is not None and op[1] < op[2]): bad.append('marks refused')
        elif op[0] == 'in' and sock:
            x = [b'abc', b'', None, OSError][op[1]]; f.incoming.append(x)
            if 'r' in W:
                k = len(got); fn, a = W['r']; fn(*a)
                if x is OSError: over[0] = True
                if got[k:] != ([x] if isinstance(x, bytes) and x else [None] if x == b'' else []): bad.append(f'{x!r} came, {got[k:]!r} was given')
            f.incoming.clear()
        elif op[0] == 'pause' and sock:
            t.pause_reading()
            if 'r' in W: bad.append('still reading')
        elif op[0] == 'resume' and sock: t.resume_reading()
        elif op[0] == 'eof':
            t.write_eof(); eofed[0] = sock
        elif op[0] == 'close': t.close()
        elif op[0] == 'abort': t.abort(); over[0] = True
        size = t.get_write_buffer_size()
        if f.failed: over[0] = True
        if not over[0]:
            if len(f.data) + size != len(written): bad.append(f'{len(written)} bytes written, {len(f.data)} sent, {size} buffered')
            if bytes(f.data) != bytes(written[:len(f.data)]): bad.append(f'sent {bytes(f.data)} of {bytes(written)}')
            if ('w' in W) != (size > 0): bad.append(f'the writer is {"" if "w" in W else "not "}registered with {size} bytes buffered')
            lo, hi = t.get_write_buffer_limits()
            if size > hi and not p.paused and t.get_protocol() is not None: bad.append('not paused beyond the high mark')
            if op[0] == 'ready' and p.paused and size <= lo and not size: bad.append('still paused with nothing buffered') if t.get_protocol() is not None else None
            if f.shut and size: bad.append('the end of writing is told before everything is sent')
            if f.shut > 1: bad.append('the end of writing is told twice')
            if sock and eofed[0] and not size and not f.shut and not t.is_closing(): bad.append('the end of writing is not told')
        elif size and not t.is_closing(): bad.append('open after an error')
    def turn():
        for _ in range(50):
            try: lp.turn(); break
            except ValueError:
                if react != 1: raise
    try:
        if sock:
            t = SocketTransportLayer(lp, None, f, p, None, None)
        else:
            t = object.__new__(UnixWritePipeTransportLayer)
            for k, v in dict(_extra=None, _loop=lp, _protocol_paused=False, _pipe=f, _file_descriptor=7, _protocol=p, _buffer=bytearray(), _closing=False, _high_water=65536, _low_water=16384).items(): setattr(t, k, v)
        turn()
        if not sock and react in (3, 4): react = 0
        for op in ops:
            step(op)
            if bad: return f'{bad[0]} after {op}'
        f.plan = []
        for _ in range(200):
            if 'w' not in W: break
            step(['ready', 1])
        turn()
        if bad: return bad[0]
        if not over[0] and bytes(f.data) != bytes(written): return f'sent {bytes(f.data)} of {bytes(written)}'
        if 'w' in W: return 'never done writing'
        if t.is_closing() and (p.lost != 1 or f.closed != 1): return f'closed: the loss was told {p.lost} times, the file closed {f.closed} times'
        if not t.is_closing() and (p.lost or f.closed): return 'lost without being closed'
    finally: TL.write_exception_async, UP.write_exception_async, os.write = saved
    return None
def shrink(case):
    sock, plan, react, keep, ops = case
    for k in range(len(ops)): yield [sock, plan, react, keep, ops[:k] + ops[k + 1:]]
    if react: yield [sock, plan, 0, keep, ops]
    for k in range(min(8, len(plan))): yield [sock, plan[:k] + [99] + plan[k + 1:], react, keep, ops]
