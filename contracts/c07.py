"""C07: stream reads return the stream, byte for byte, in order."""
import functools
from contracts.streams import *
PROOFS, proof = proof_registry()
TRUSTED = ['what arrives while a reader waits is arbitrary but not empty (the transport never delivers empty data; `data_received` drops it)',
    'readers are driven as generators: between two waits nothing else runs (single-threaded event loop)']
DESIGN = '''The state of the protocol is (received chunks, offset into the first, end flag) with the invariant "no chunk is empty, the offset lies in the
first chunk". Ghosts: everything handed out, everything that arrived. Each reader is proved, for every state, every count and every
sequence of arrivals, to keep  handed out ++ unread == unread at the start ++ arrived  at every suspension and at every way of ending,
an abandoned read included; loops by invariants. The methods on top (exact / once / until the end, data and end reception, starting
and cancelling a reader) are proved against the readers' contracts.'''

def piece(ctx, v): ctx.ghost['out'] = cat(ctx.ghost['out'], sterm(v))
def run(c, gen):
    c.yield_stack.append(piece)
    try: return Outcome(value=c.it.run_gen(gen))
    except PyExc as e: return Outcome(exc=e.value)
    finally: c.yield_stack.pop()

@proof('an exact read hands out the next n bytes')
def _(c):
    p = protocol(c); n = c.int('n'); c.assume(n.t > 0)
    n0 = n.t
    wait_contract(c, p)
    g = c.ghost
    def inv(L): return {**state_ok(L.ctx, p), 'accounted': accounted(L.ctx, p), 'left to read': z3.And(L.t('n') > 0, L.t('n') == n0 - z3.Length(g['out'])), 'at a chunk': iterm(fld(p, '_offset')) == 0}
    loop(c, '_read_exactly_by_chunk', 0, Loop(inv=inv, havoc=ghost_havoc))
    r = run(c, c.it.call(ReadProtocolBase._read_exactly_by_chunk, [p, n], {}))
    c.prove('every byte is handed out or unread', accounted(c, p))
    prove_state(c, p, 'afterwards')
    if r.ok: c.prove('exactly n bytes', z3.Length(g['out']) == n0)
    elif g.get('closed'): c.prove('closing goes through', bv(r.is_a(GeneratorExit)))
    else:
        c.prove('an end-of-file error', bv(r.is_a(EOFError)))
        c.prove('only when the stream ended too early', z3.And(z3.Length(g['out']) < n0, z3.Length(unread(c, p)) == 0, truth(c, fld(p, '_at_eof'))))

def stream(c): return Opaque(c.fresh('stream', OBJ), STREAM)

@proof('reading until the end hands out everything')
def _(c):
    p = protocol(c); s = stream(c)
    wait_contract(c, p)
    g = c.ghost
    loop(c, '_read_until_eof', 0, Loop(inv=lambda L: {**state_ok(L.ctx, p, L.t('offset')), 'accounted': accounted(L.ctx, p, L.t('offset')), 'reset': iterm(fld(p, '_offset')) == 0}, havoc=ghost_havoc, dec=lambda L: z3.Length(seq_of(p))))
    loop(c, '_read_until_eof', 1, Loop(inv=lambda L: {**state_ok(L.ctx, p), 'accounted': accounted(L.ctx, p), 'nothing unread': z3.Length(seq_of(p)) == 0}, havoc=ghost_havoc))
    r = attempt(c, ReadProtocolBase._read_until_eof, p, s)
    prove_state(c, p, 'afterwards')
    c.prove('every byte is handed out or unread', accounted(c, p))
    if g.get('closed'):
        c.prove('closing goes through and fails the stream', bv(r.is_a(GeneratorExit) and g['failed'] is not None)); return
    no_raise(c, r)
    c.prove('the stream has ended and nothing is unread', z3.And(truth(c, fld(p, '_at_eof')), z3.Length(unread(c, p)) == 0))
    c.prove('done', g['done'])

@proof('a single read hands out one piece')
def _(c):
    p = protocol(c); s = stream(c)
    wait_contract(c, p)
    g = c.ghost
    had = z3.Length(g['start']) > 0; c.fact(had == (z3.Length(seq_of(p)) > 0)) if False else None
    t0 = seq_of(p); o0 = iterm(fld(p, '_offset'))
    r = attempt(c, ReadProtocolBase._read_once, p, s)
    prove_state(c, p, 'afterwards')
    c.prove('every byte is handed out or unread', accounted(c, p))
    if g.get('closed'):
        c.prove('closing goes through', bv(r.is_a(GeneratorExit))); return
    no_raise(c, r)
    n0 = z3.Length(t0)
    c.prove('the rest of the first chunk, or else what arrives first', z3.If(n0 > 0, g['out'] == z3.Extract(t0[0], o0, z3.Length(t0[0]) - o0), g['out'] == g['arrived']))
    c.prove('nothing only at the end of the stream', z3.Implies(z3.Length(g['out']) == 0, z3.And(truth(c, fld(p, '_at_eof')), z3.Length(unread(c, p)) == 0)))

def exact_contract(c, n):
    """proved above"""
    def h(ctx, self, n_):
        ctx.prove('asked for the count of the read', eqv(ctx, n_, n))
        s = ctx.fresh('pieces', SEQ2)
        k = ctx.choose(3)
        exc = None if k == 0 else Inst(ctx, (EOFError, GeneratorExit)[k - 1], {'args': (b'',)})
        ctx.fact(z3.Length(FLAT(s)) == n.t if k == 0 else z3.Length(FLAT(s)) < n.t)
        ctx.ghost['given'] = s; ctx.ghost['end'] = k
        return Opaque(ctx.fresh('reader', OBJ), PiecesI(LList(ctx, seq=s, codec=BytesC), exc))
    use(c, ReadProtocolBase._read_exactly_by_chunk, h)

@proof('an exact read passes every piece on in order, and ends as it has to')
def _(c):
    p = protocol(c); s = stream(c); n = c.int('n'); c.assume(n.t > 0)
    allow = c.bool('allow_eof')
    exact_contract(c, n)
    g = c.ghost
    def inv(L): unfold_pre(L.ctx, g['given'], L._i); return {'passed on': g['out'] == PRE(g['given'], L._i)}
    loop(c, '_read_exactly', 0, Loop(inv=inv, havoc=ghost_havoc))
    r = attempt(c, ReadProtocolBase._read_exactly, p, n, allow, s)
    c.prove('all pieces, in order', g['out'] == FLAT(g['given']))
    if g['end'] == 0:
        no_raise(c, r); c.prove('done with n bytes', z3.And(g['done'], z3.Length(g['out']) == n.t))
    elif g['end'] == 1:
        if r.ok: c.prove('a short read only when allowed', z3.And(allow.t, g['done']))
        else: c.prove('fails with the end-of-file error', z3.And(bv(r.is_a(EOFError)), z3.Not(allow.t), z3.Not(g['done'])))
    else: c.prove('closing goes through', bv(r.is_a(GeneratorExit)))

@proof('an exact read in one piece is the n bytes')
def _(c):
    p = protocol(c); n = c.int('n'); c.assume(n.t > 0)
    exact_contract(c, n)
    g = c.ghost
    def inv(L):
        unfold_pre(L.ctx, g['given'], L._i)
        t = L.chunks.as_term(BytesC); t = flat_term(L.ctx, t)
        return {'collected': t == PRE(g['given'], L._i)}
    loop(c, '_read_exactly_as_one', 0, Loop(inv=inv, lists={'chunks': BytesC}))
    r = attempt(c, ReadProtocolBase._read_exactly_as_one, p, n)
    if g['end'] == 0:
        no_raise(c, r); c.prove('the n bytes', z3.And(sterm(r.value) == FLAT(g['given']), z3.Length(sterm(r.value)) == n.t))
    else: c.prove('fails as the read fails', bv(r.is_a((EOFError, GeneratorExit)[g['end'] - 1])))

def with_reader(c):
    paused = []
    use(c, ReadProtocolBase._pause_reading, lambda ctx, self: paused.append(1))
    has = c.choose(2)
    s = stream(c); rd = Opaque(c.fresh('reader', OBJ), READER)
    p = protocol(c, _payload_reader=rd if has else None, _payload_stream=s if has else None)
    return p, has, s, rd

def ended(c, p, k, s):
    """the stream is settled by how the reader ended, and the reader is gone"""
    g = c.ghost
    c.prove('the reader is gone', bv(fld(p, '_payload_reader') is None and fld(p, '_payload_stream') is None))
    if k == 1: c.prove('the stream is done', z3.And(g['done'], bv(g['failed'] is None)))
    elif k in (2, 3): c.prove('the stream fails with a connection error', z3.And(z3.Not(g['done']), bv(isinstance(g['failed'], Inst) and g['failed'].cls is ConnectionError)))
    elif k == 4: c.prove("the stream fails with the reader's exception", z3.And(z3.Not(g['done']), bv(g['failed'] is g['reader_exc'])))

@proof('received data goes to the reader, or is kept, exactly once')
def _(c):
    p, has, s, rd = with_reader(c)
    d = c.bytes('data'); g = c.ghost
    before = seq_of(p)
    r = attempt(c, ReadProtocolBase.data_received, p, d)
    no_raise(c, r)
    calls = g.get('reader', [])
    prove_state(c, p, 'afterwards')
    if has:
        sent = len(calls) == 1 and calls[0][0] == 'send' and calls[0][1] is d
        c.prove('the reader gets it once, unless it is empty', bv(sent) if calls else z3.Length(d.t) == 0)
        c.prove('it is not kept as well', seq_of(p) == before)
        if calls:
            if g['reader_end']: ended(c, p, g['reader_end'], s)
            else: c.prove('the reader goes on', bv(fld(p, '_payload_reader') is rd and fld(p, '_payload_stream') is s and g['failed'] is None))
    else: c.prove('kept behind what is unread', flat_term(c, seq_of(p)) == z3.Concat(flat_term(c, before), d.t))
    c.prove('the offset stays', unread(c, p) == (g['start'] if has else z3.Concat(g['start'], d.t)))

@proof('the end of the stream reaches the reader')
def _(c):
    p, has, s, rd = with_reader(c)
    g = c.ghost; before = seq_of(p)
    r = attempt(c, ReadProtocolBase.eof_received, p)
    no_raise(c, r)
    c.prove('the end is noted and nothing is dropped', z3.And(truth(c, fld(p, '_at_eof')), seq_of(p) == before))
    calls = g.get('reader', [])
    if has:
        c.prove('the reader gets an end-of-file error', bv(len(calls) >= 1 and calls[0][0] == 'throw' and isinstance(calls[0][1], Inst) and calls[0][1].cls is EOFError))
        if g['reader_end'] == 0: c.prove('a reader going on is closed and its stream fails', bv(len(calls) == 2 and calls[1][0] == 'close' and isinstance(g['failed'], Inst) and fld(p, '_payload_reader') is None))
        else: ended(c, p, g['reader_end'], s); c.prove('once', bv(len(calls) == 1))
    else: c.prove('nobody to tell', bv(not calls))

class StartI(Iface):
    name = 'payload reader function'
    def call(self, ctx, o, args, kwargs):
        ctx.ghost['started_with'] = args
        return Opaque(ctx.fresh('new_reader', OBJ), READER)

@proof('a reader is started once and kept while it waits')
def _(c):
    exc = Inst(c, ConnectionError, {'args': ()}) if c.choose(2) else None
    p = protocol(c, _payload_reader=None, _payload_stream=None, _exception=exc)
    s = stream(c); g = c.ghost
    use(c, PayloadStream.__new__, lambda ctx, cls, proto: s)
    r = attempt(c, ReadProtocolBase.set_payload_reader, p, Opaque(c.fresh('start', OBJ), StartI()))
    no_raise(c, r)
    c.prove('the stream of the read', bv(r.value is s))
    calls = g.get('reader', [])
    if exc is not None:
        c.prove('a failed protocol fails the read', bv(g['failed'] is exc and 'started_with' not in g and fld(p, '_payload_reader') is None)); return
    c.prove('started once, for the stream', bv(len(g['started_with']) == 1 and g['started_with'][0] is s and len(calls) == 1 and calls[0] == ('send', None)))
    if g['reader_end'] == 0: c.prove('kept', bv(isinstance(fld(p, '_payload_reader'), Opaque) and fld(p, '_payload_stream') is s and g['failed'] is None))
    else: ended(c, p, g['reader_end'], s)

@proof('reads ask for what they are told')
def _(c):
    asked = []
    p = protocol(c, _exception=None)
    res = Opaque(c.fresh('payload stream', OBJ), STREAM)
    use(c, ReadProtocolBase.set_payload_reader, lambda ctx, self, f: asked.append(f) or res)
    n = c.int('n')
    w = c.choose(3)
    fn = (ReadProtocolBase.read, ReadProtocolBase.read_exactly, ReadProtocolBase.read_once)[w]
    r = attempt(c, fn, p, *([] if w == 2 else [n]))
    if w == 1 and r.raised:
        c.prove('a negative exact count is refused', z3.And(n.t < 0, bv(r.is_a(ValueError)))); return
    no_raise(c, r)
    if not asked:
        c.prove('reading nothing is empty', z3.And(n.t == 0, sterm(r.value) == empty()) if w < 2 else z3.BoolVal(False)); return
    f = asked[0]
    c.prove('the result of that reader', bv(len(asked) == 1 and r.value is res))
    g = c.ghost
    def rec(name): return lambda ctx, self, *args: g.setdefault('which', []).append((name, args))
    for nm in ('_read_exactly', '_read_until_eof', '_read_once'): use(c, getattr(ReadProtocolBase, nm), rec(nm))
    c.it.call(f, [res], {})
    (nm, args), = g['which']
    if w == 2: c.prove('once', bv(nm == '_read_once'))
    elif w == 0: c.prove('until the end for negative counts, else at most n', z3.If(n.t < 0, bv(nm == '_read_until_eof'), z3.And(n.t > 0, bv(nm == '_read_exactly' and len(args) == 3 and args[1] is True), eqv(c, args[0], n) if nm == '_read_exactly' else z3.BoolVal(False))))
    else: c.prove('exactly n', z3.And(n.t > 0, bv(nm == '_read_exactly' and len(args) == 3 and args[1] is False), eqv(c, args[0], n) if nm == '_read_exactly' else z3.BoolVal(False)))

@proof('waiting: reading is resumed, what is sent is appended and returned')
def _(c):
    class TransportI(Iface):
        name = 'transport'
        def m_resume_reading(self, ctx, o): ctx.ghost['resumed'] = ctx.ghost.get('resumed', 0) + 1
    paused = c.bool('paused')
    p = protocol(c, _paused=paused, _transport=Opaque(c.fresh('transport', OBJ), TransportI()))
    d = c.bytes('data'); g = c.ghost
    before = seq_of(p)
    def on_yield(ctx, v):
        ctx.prove('reading is not paused while waiting', z3.Not(truth(ctx, fld(p, '_paused'))))
        ctx.prove('the transport is resumed exactly when it was paused', paused.t == bv(g.get('resumed', 0) == 1))
        return d
    gen = c.it.call(ReadProtocolBase._wait_for_data, [p], {})
    c.yield_stack.append(on_yield)
    v = c.it.run_gen(gen); c.yield_stack.pop()
    c.prove('the data', sterm(v) == d.t)
    c.prove('appended', seq_of(p) == z3.Concat(before, z3.Unit(d.t)))

@proof('cancelling the current reader drops nothing unread')
def _(c):
    p, has, s, rd = with_reader(c)
    before, o = seq_of(p), fld(p, '_offset'); g = c.ghost
    STREAM.m_set_done_cancelled = lambda ctx, o: ctx.ghost.update(cancelled=1)
    r = attempt(c, ReadProtocolBase.cancel_current_reader, p)
    no_raise(c, r)
    c.prove('unread bytes stay', z3.And(seq_of(p) == before, iterm(fld(p, '_offset')) == iterm(o)))
    c.prove('the reader is closed and gone, its stream cancelled', bv(fld(p, '_payload_reader') is None and fld(p, '_payload_stream') is None and (not has or (g.get('cancelled') == 1 and g.get('reader') == [('close', None)]))))

# ---------------------------------------------------------------- native
RULE = 'sequences of receiving data, starting exact / at most / to-the-end / single reads, cancelling and ending the stream, against a plain buffer; distinct by content'
SEARCH_S = 6
_partial = functools.partial
def n_pieces(rng): return bytes(rng.choice(b'abc\r\n') for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])))
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(1, 12)):
            r = rng.random()
            if r < .45: ops.append(['data', n_pieces(rng)])
            elif r < .65: ops.append(['exact', rng.choice([1, 1, 2, 3, 4, 6, 10])])
            elif r < .75: ops.append(['most', rng.choice([1, 2, 3, 6, 10])])
            elif r < .85: ops.append(['once'])
            elif r < .88: ops.append(['all'])
            elif r < .93: ops.append(['cancel'])
            elif r < .97: ops.append(['eof'])
            else: ops.append(['size'])
        yield ops
def start(p, op):
    if op[0] == 'exact': return p.set_payload_reader(_partial(p._read_exactly, op[1], False))
    if op[0] == 'most': return p.set_payload_reader(_partial(p._read_exactly, op[1], True))
    if op[0] == 'once': return p.set_payload_reader(p._read_once)
    return p.set_payload_reader(p._read_until_eof)
def check_case(ops):
    p = ReadProtocolBase(None)
    chunks = []                      # reference: unread chunks
    eof = False; cur = None          # cur: [stream, op, wanted bytes so far, left]
    def feed():
        """reference: the current read takes what it can -> finished"""
        nonlocal chunks
        op = cur[1]
        if op[0] in ('exact', 'most'):
            while chunks and cur[3]:
                t = chunks[0][:cur[3]]; cur[2] += t; cur[3] -= len(t)
                if len(t) == len(chunks[0]): chunks.pop(0)
                else: chunks[0] = chunks[0][len(t):]
            return not cur[3]
        if op[0] == 'all':
            cur[2] += b''.join(chunks); chunks = []; return eof
        if chunks: cur[2] += chunks.pop(0); return True
        return eof
    def done(fail):
        nonlocal cur
        s, op, want, _ = cur; cur = None
        if p._payload_reader is not None: return 'the reader is not finished'
        if fail:
            if not isinstance(s._exception, (ConnectionError, EOFError)): return f'the read does not fail, {b"".join(s._chunks)!r}'
            return None
        if s._exception is not None: return f'the read fails: {s._exception!r}'
        got = b''.join(s._chunks)
        if got != want: return f'read {got!r}, the stream has {want!r}'
        if not s._flags & 4: return 'the read is not done'
    for k, op in enumerate(ops):
        r = None
        if op[0] == 'data':
            if eof: continue
            if op[1]: chunks.append(op[1])
            p.data_received(op[1])
            if cur is not None and op[1] and feed(): r = done(False)
        elif op[0] == 'eof':
            if eof: continue
            eof = True; p.eof_received()
            if cur is not None: f = not feed() and cur[1][0] == 'exact'; r = done(f)
        elif op[0] == 'cancel':
            p.cancel_current_reader(); cur = None
        elif op[0] != 'size':
            if cur is not None: continue
            cur = [start(p, op), op, b'', op[1] if len(op) > 1 else 0]
            if feed(): r = done(False)
            elif eof: r = done(op[0] == 'exact')
            elif p._payload_reader is None: r = 'the read ended early'
        if r: return f'step {k} {op!r}: {r}'
        size = sum(map(len, chunks))
        have = p.get_size()
        if cur is not None: have -= cur[0].get_buffer_size()
        if have != size: return f'step {k} {op!r}: {have} bytes are unread, should be {size}'
        if p.is_at_eof() != (eof and not size): return f'step {k} {op!r}: is_at_eof is {p.is_at_eof()}'
        left = b''.join(p._chunks)[p._offset:]
        if left != b''.join(chunks): return f'step {k} {op!r}: unread {left!r}, should be {b"".join(chunks)!r}'
    return None
def shrink(ops):
    for k in range(len(ops)): yield ops[:k] + ops[k + 1:]
    for k, op in enumerate(ops):
        if op[0] == 'data' and len(op[1]) > 1: yield ops[:k] + [['data', op[1][1:]]] + ops[k + 1:]
        if op[0] in ('exact', 'most') and op[1] > 1: yield ops[:k] + [[op[0], op[1] - 1]] + ops[k + 1:]
