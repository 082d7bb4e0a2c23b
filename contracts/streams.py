"""Shared: the state of a reading protocol (C06, C07, C08)."""
from pv.lib import *
from scarletio.core.protocols_and_transports import protocol as P
from scarletio.core.protocols_and_transports.protocol import ReadProtocolBase
from scarletio.core.protocols_and_transports.payload_stream import PayloadStream

SEQ2 = z3.SeqSort(SEQ)
class StreamI(Iface):
    name = 'payload stream'
    def m_add_received_chunk(self, ctx, o, chunk): ctx.ghost['out'] = cat(ctx.ghost['out'], sterm(chunk)); return True
    def m_set_done_success(self, ctx, o): ctx.ghost['done'] = z3.BoolVal(True); return SBool(ctx.fresh('was_pending', B))
    def m_set_done_exception(self, ctx, o, e): ctx.ghost['failed'] = e; return SBool(ctx.fresh('was_pending', B))
STREAM = StreamI()

def fld(p, k): return p.ctx.it.getattr(p, k)
def seq_of(p): return fld(p, '_chunks').as_term(BytesC)
def unfold_flat(c, t):
    """flat(t) = its first chunk and the flat rest"""
    n = z3.Length(t)
    c.fact(z3.Implies(n == 0, FLAT(t) == z3.Empty(SEQ)))
    c.fact(z3.Implies(n > 0, FLAT(t) == z3.Concat(t[0], FLAT(z3.Extract(t, 1, n - 1)))))
    c.fact(z3.Implies(n > 0, t == z3.Concat(z3.Unit(t[0]), z3.Extract(t, 1, n - 1))))
def unread(c, p, offset=None):
    """the bytes received and not handed out"""
    t = z3.simplify(seq_of(p)); f = flat_term(c, t); o = z3.simplify(iterm(fld(p, '_offset')) if offset is None else offset)
    if z3.is_int_value(o) and o.as_long() == 0: return f
    first = t.arg(0) if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) else t
    if z3.is_app_of(first, z3.Z3_OP_SEQ_UNIT):
        x = first.arg(0); rest = [flat_term(c, y) for y in t.children()[1:]] if first is not t else []
        return cat(z3.Extract(x, o, z3.Length(x) - o), *rest)     # the offset is in the first chunk (state_ok)
    if not z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) and not z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY) and c.implied(z3.Length(t) > 0):
        unfold_flat(c, t); x = t[0]
        return cat(z3.Extract(x, o, z3.Length(x) - o), flat_term(c, z3.Extract(t, 1, z3.Length(t) - 1)))
    return z3.Extract(f, o, z3.Length(f) - o)
NE = z3.Function('no_chunk_is_empty', SEQ2, B)
def none_empty(c, t):
    t = z3.simplify(t)
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_SEQ_EMPTY: return z3.BoolVal(True)
    if k == z3.Z3_OP_SEQ_UNIT: return z3.Length(t.arg(0)) > 0
    if k == z3.Z3_OP_SEQ_CONCAT: return z3.And(*[none_empty(c, x) for x in t.children()])
    if k == z3.Z3_OP_ITE: return z3.If(t.arg(0), none_empty(c, t.arg(1)), none_empty(c, t.arg(2)))
    n = z3.Length(t)
    c.fact(z3.Implies(n == 0, NE(t)))
    c.fact(z3.Implies(n > 0, NE(t) == z3.And(z3.Length(t[0]) > 0, NE(z3.Extract(t, 1, n - 1)))))
    return NE(t)
def state_ok(c, p, offset=None):
    """the offset lies in the first chunk, chunks are not empty"""
    t = seq_of(p); o = iterm(fld(p, '_offset')) if offset is None else offset
    unfold_flat(c, t)
    return {'the offset is in the first chunk': z3.And(o >= 0, z3.Implies(z3.Length(t) == 0, o == 0), z3.Implies(z3.Length(t) > 0, o < z3.Length(t[0]))), 'no chunk is empty': none_empty(c, t)}
def prove_state(c, p, when):
    for k, t in state_ok(c, p).items(): c.prove(f'{when}: {k}', t)

def protocol(c, cls=ReadProtocolBase, eof=None, **more):
    """A reading protocol in any consistent state"""
    c.await_handler = lambda ctx, v: v
    if c.choose(2): t = z3.Concat(z3.Unit(c.bytes('chunk').t), c.fresh('chunks', SEQ2))
    else: t = z3.Empty(SEQ2)
    f = dict(_chunks=LList(c, seq=t, codec=BytesC, kind='deque'), _offset=c.int('offset'), _at_eof=eof if eof is not None else c.bool('at_eof'))
    f.update(more)
    p = inst(c, cls, **f)
    c.assume(*state_ok(c, p).values())
    c.ghost.update(out=empty(), arrived=empty(), done=z3.BoolVal(False), failed=None, waits=0)
    c.ghost['start'] = unread(c, p)
    return p

def accounted(c, p, offset=None):
    """handed out + unread = unread at the start + arrived since"""
    g = c.ghost
    return cat(g['out'], unread(c, p, offset)) == cat(g['start'], g['arrived'])

def wait_contract(c, p, outcomes=3):
    """`_wait_for_data`: something arrives, the stream ends, or the reader is closed"""
    def h(ctx, self):
        g = ctx.ghost
        prove_state(ctx, p, 'waiting')
        ctx.prove('waiting: every byte is handed out or unread', accounted(ctx, p))
        ctx.prove('waiting only when nothing is unread', z3.Length(seq_of(p)) == 0)
        k = ctx.choose(outcomes)
        if k == 0:
            d = ctx.bytes('data'); ctx.assume(z3.Length(d.t) > 0)
            models.call_method(ctx.it, fld(p, '_chunks'), 'append', [d], {})
            g['arrived'] = cat(g['arrived'], d.t)
            return d
        if k == 1:
            ctx.it.setattr(p, '_at_eof', True)
            raise PyExc(Inst(ctx, EOFError, {'args': (b'',)}))
        g['closed'] = True
        raise PyExc(Inst(ctx, GeneratorExit, {'args': ()}))
    use(c, ReadProtocolBase._wait_for_data, h)

def ghost_havoc(L):
    g = L.ctx.ghost
    for k in ('out', 'arrived'): g[k] = L.ctx.fresh(k, SEQ)

# a sequence of pieces handed out one by one
PRE = z3.Function('flat_of_first', SEQ2, I, SEQ)
def unfold_pre(c, s, i):
    n = z3.Length(s)
    c.fact(PRE(s, z3.IntVal(0)) == z3.Empty(SEQ)); c.fact(PRE(s, n) == FLAT(s))
    c.fact(z3.Implies(z3.And(0 <= i, i < n), PRE(s, i + 1) == z3.Concat(PRE(s, i), s[i])))
class PiecesI(Iface):
    """an asynchronous generator: pieces, then maybe an exception"""
    name = 'pieces'
    def __init__(self, items, exc=None): self.items, self.exc = items, exc
    def async_items(self, ctx, o): return self.items, self.exc

class ReaderI(Iface):
    """a payload reader in progress: what each resumption does is arbitrary"""
    name = 'payload reader'
    def outcome(self, ctx, how):
        ctx.ghost.setdefault('reader', []).append(how)
        k = ctx.choose(5)
        ctx.ghost['reader_end'] = k
        if k == 0: return None
        cls = (None, StopIteration, EOFError, GeneratorExit, ValueError)[k]
        e = ctx.ghost['reader_exc'] = Inst(ctx, cls, {'args': ()})
        raise PyExc(e)
    def m_send(self, ctx, o, v): return self.outcome(ctx, ('send', v))
    def m_throw(self, ctx, o, e): return self.outcome(ctx, ('throw', e))
    def m_close(self, ctx, o): ctx.ghost.setdefault('reader', []).append(('close', None))
READER = ReaderI()
