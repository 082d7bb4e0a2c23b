"""C26: a payload stream delivers what was put in, then its end."""
from contracts.loops import *
from scarletio.core.protocols_and_transports import payload_stream as PS
from scarletio.core.protocols_and_transports.payload_stream import PayloadStream
from scarletio.core.traps.task import Task
from scarletio.core.exceptions import CancelledError
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: between two waits nothing else runs', 'a task waiting for a future goes on when the future is resolved or the task is cancelled (C21, C22)', 'b"".join', 'write_exception_async does not raise',
    'one reader at a time: two tasks reading the same stream at once is outside the property']
DESIGN = '''State of a stream: its chunks, its wait mode, how it ended (if it did) and the future its reader waits for; invariant: a chunk-waiting reader means nothing
is buffered. Over every such state, each of the adding side's methods (add_received_chunk, set_done_*, _abort) is proved on its body to do exactly one
step: a chunk goes to the waiting reader or to the end of the buffer, never both, never after the end; only the first end counts and wakes the reader
once. The reading side (`await` and `async for`) is proved with ghost state - what was added and not yet delivered - against a producer that does
anything at every wait and yield: what is delivered is always a prefix of what was added, in order, the normal end is reported only when nothing is left,
a failure is reported as that failure, waiting happens only when there is nothing to deliver and no end. Done callbacks run exactly once each.'''
SEQ2 = z3.SeqSort(SEQ); SO = z3.SeqSort(OBJ)
WHOLE, CHUNK = PS.STREAM_FLAG_WAIT_WHOLE, PS.STREAM_FLAG_WAIT_CHUNK
SUCCESS, EXCEPTION, CANC, ABORTED = PS.STREAM_FLAG_DONE_SUCCESS, PS.STREAM_FLAG_DONE_EXCEPTION, PS.STREAM_FLAG_DONE_CANCELLED, PS.STREAM_FLAG_DONE_ABORTED
ENDS = (SUCCESS, EXCEPTION, CANC, ABORTED); ANY_END = SUCCESS | EXCEPTION | CANC | ABORTED; FAILED = EXCEPTION | CANC | ABORTED

class WaiterI(Iface):
    name = 'waiting reader'
    def m_set_result_if_pending(self, ctx, o, v):
        p = ctx.ghost['pending']
        if ctx.branch(p): ctx.ghost.setdefault('woken', []).append((o, 'result', v)); ctx.ghost['pending'] = z3.BoolVal(False); return 1
        return 0
    def m_set_exception_if_pending(self, ctx, o, e):
        p = ctx.ghost['pending']
        if ctx.branch(p): ctx.ghost.setdefault('woken', []).append((o, 'exception', e)); ctx.ghost['pending'] = z3.BoolVal(False); return 1
        return 0
    def m_is_pending(self, ctx, o): return SBool(ctx.ghost['pending'])
    def m_is_done(self, ctx, o): return SBool(z3.Not(ctx.ghost['pending']))
    def m_set_result(self, ctx, o, v): ctx.prove('only a pending future is resolved', ctx.ghost['pending']); self.m_set_result_if_pending(ctx, o, v)
    def m_set_exception(self, ctx, o, e): ctx.prove('only a pending future is resolved', ctx.ghost['pending']); self.m_set_exception_if_pending(ctx, o, e)
    def await_(self, ctx, o): return ctx.ghost['on_wait'](ctx, o)
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
WAITER = WaiterI()
class CbI(Iface):
    name = 'done callback'
    def call(self, ctx, o, args, kwargs):
        g = ctx.ghost
        ctx.prove('a callback gets the stream', bv(len(args) == 1 and args[0] is g['stream'] and not kwargs))
        ctx.prove('callbacks run when the end is set', bv(bool(g['stream'].fields['_flags'] & ANY_END)))
        g['ran'] = z3.Concat(z3.Unit(o.t), g['ran']); g['ran_f'] = z3.Concat(g['ran_f'], z3.Unit(o.t))
        k = ctx.choose(4)
        if k: raise PyExc(Inst(ctx, (ValueError, KeyboardInterrupt, CancelledError)[k - 1], {'args': ()}))
CB = CbI(); CBC = ObjC(CB)
class ProtoI(Iface):
    name = 'protocol'
    def get__loop(self, ctx, o): return Opaque(ctx.fresh('loop', OBJ))
    def m__resume_reading(self, ctx, o): ctx.ghost['resumed'] = ctx.ghost.get('resumed', 0) + 1
PROTO = ProtoI()
def fld(c, s, k): return c.it.getattr(s, k)
def seq(c, s): return fld(c, s, '_chunks').as_term(BytesC)
def flat(c, s): return flat_term(c, z3.simplify(seq(c, s)))
def flags(c, s):
    f = fld(c, s, '_flags')
    if not isinstance(f, int): raise Unsupported('symbolic flags')
    return f
def some_flags(ctx, wait=None, end=None):
    w = (0, WHOLE, CHUNK)[ctx.choose(3)] if wait is None else wait
    e = (0, *ENDS)[ctx.choose(5)] if end is None else end
    return w | e
def some_waiter(ctx, f, t):
    """a reader waits only in a wait mode, before the end, and for a chunk only when none is buffered"""
    if f & ANY_END or not f & (WHOLE | CHUNK) or not ctx.choose(2): return None
    if f & CHUNK: ctx.assume(z3.Length(t) == 0)
    return Opaque(ctx.fresh('waiter', OBJ), WAITER)
def exc_of(ctx, f):
    return Inst(ctx, ValueError, {'args': ()}) if f & EXCEPTION else None
def stream(c, wait=None, end=None, waiter=None, cbs=True):
    f = some_flags(c, wait, end)
    t = c.fresh('chunks', SEQ2)
    cb = None if f & ANY_END or not cbs or not c.choose(2) else LList(c, seq=c.fresh('callbacks', SO), codec=CBC)
    w = some_waiter(c, f, t) if waiter is None else None
    s = inst(c, PayloadStream, _chunks=LList(c, seq=t, codec=BytesC, kind='deque'), _done_callbacks=cb, _exception=exc_of(c, f), _flags=f, _protocol=Opaque(c.fresh('protocol', OBJ), PROTO), _waiter=w)
    c.ghost.update(stream=s, ran=z3.Empty(SO), ran_f=z3.Empty(SO), pending=c.fresh('waiter_pending', B), cbs=z3.Empty(SO) if cb is None else cb.as_term(CBC), cb0=cb)
    use(c, PS.write_exception_async, lambda ctx, *a, **k: None)
    def hav(L): c.ghost['ran'] = L.ctx.fresh('ran', SO); c.ghost['ran_f'] = L.ctx.fresh('ran', SO)
    def inv(L):
        g = c.ghost
        if L.has('_i'): return {'each callback once': g['ran_f'] == z3.Extract(g['cbs'], z3.IntVal(0), L._i), 'callbacks stay': cb.as_term(CBC) == g['cbs']}
        return {'each callback once': z3.Concat(cb.as_term(CBC), g['ran']) == g['cbs']}
    if cb is not None:
        for name in ('_run_done_callbacks',):
            loop(c, name, 0, Loop(inv=inv, havoc=hav, dec=lambda L: z3.Length(c.ghost['cbs']) - L._i if L.has('_i') else z3.Length(cb.as_term(CBC))))
    return s, f, t, w
def callbacks_ran(c):
    g = c.ghost; n = z3.Length(g['cbs']); c.fact(z3.Extract(g['cbs'], z3.IntVal(0), n) == g['cbs'])
    c.prove('every done callback ran exactly once', z3.Or(g['ran'] == g['cbs'], g['ran_f'] == g['cbs']))
def none_ran(c): c.prove('no callback runs', z3.Length(c.ghost['ran']) == 0)

@proof('a new stream is empty and open')
def _(c):
    p = Opaque(c.fresh('protocol', OBJ), PROTO)
    r = attempt(c, PayloadStream, p); no_raise(c, r); s = r.value
    c.prove('empty and open', bv(fld(c, s, '_chunks').items == [] and flags(c, s) == 0 and fld(c, s, '_waiter') is None and fld(c, s, '_exception') is None and fld(c, s, '_done_callbacks') is None and fld(c, s, '_protocol') is p))

@proof('a chunk goes to the waiting reader or to the end of the buffer, never both, never after the end')
def _(c):
    s, f, t, w = stream(c); d = c.bytes('chunk'); p = c.ghost['pending']
    r = attempt(c, PayloadStream.add_received_chunk, s, d); no_raise(c, r)
    wk = c.ghost.get('woken', [])
    none_ran(c)
    c.prove('mode and end stay', bv(flags(c, s) == f))
    if f & ANY_END:
        c.prove('refused after the end', z3.And(z3.Not(truth(c, r.value)), seq(c, s) == t, bv(not wk))); return
    c.prove('accepted', truth(c, r.value))
    if wk:
        c.prove('only to a reader waiting for a chunk', bv(f & CHUNK and w is not None and len(wk) == 1 and wk[0][0] is w and wk[0][1] == 'result'))
        c.prove('exactly the chunk', eqv(c, wk[0][2], d)); c.prove('not buffered as well', seq(c, s) == t)
        c.prove('nothing was buffered before it', z3.Length(t) == 0)
        c.prove('that reader waits no more', bv(fld(c, s, '_waiter') is None))
    else:
        c.prove('buffered last', flat(c, s) == z3.Concat(flat_term(c, t), d.t))
        if f & CHUNK: c.prove('no waiting reader is passed over', bv(w is None) if w is None else z3.And(z3.Not(p), bv(fld(c, s, '_waiter') is None)))
        else: c.prove('the reader waits on', bv(fld(c, s, '_waiter') is w))

for name, end in (('set_done_success', SUCCESS), ('set_done_exception', EXCEPTION), ('set_done_cancelled', CANC), ('_abort', ABORTED)):
    @proof(f'{name}: the first end counts, wakes the reader once and runs every callback once')
    def _(c, name=name, end=end):
        s, f, t, w = stream(c); p0 = c.ghost['pending']; e0 = fld(c, s, '_exception')
        e = Inst(c, KeyError, {'args': ()})
        r = attempt(c, getattr(PayloadStream, name), s, *([e] if end == EXCEPTION else [])); no_raise(c, r)
        wk = c.ghost.get('woken', [])
        if f & ANY_END:
            c.prove('a later end changes nothing', z3.And(z3.Not(truth(c, r.value)), bv(flags(c, s) == f and fld(c, s, '_exception') is e0 and not wk), seq(c, s) == t)); none_ran(c); return
        c.prove('it counts', z3.And(truth(c, r.value), bv(flags(c, s) == f | end)))
        c.prove('no reader waits any more', bv(fld(c, s, '_waiter') is None))
        callbacks_ran(c)
        if w is None: c.prove('nobody is woken', bv(not wk))
        else:
            c.prove('the reader is woken once', z3.If(p0, bv(len(wk) == 1 and wk[0][0] is w), bv(not wk)))
            for _o, how, v in wk:
                if end == SUCCESS: c.prove('woken with the end', bv(how == 'result' and v is None))
                elif end == EXCEPTION: c.prove('woken with the failure', bv(how == 'exception' and v is e))
                else: c.prove('woken with a connection error', bv(how == 'exception' and isinstance(v, Inst) and issubclass(v.cls, ConnectionError)))
        if end == SUCCESS: c.prove('what is buffered stays', seq(c, s) == t)
        c.prove('the failure is kept', bv(fld(c, s, '_exception') is (e if end == EXCEPTION else None)))
        if name == '_abort': c.prove('reported as aborted', truth(c, attempt(c, PayloadStream.is_aborted, s).value))
        else: c.prove('not reported as aborted', z3.Not(truth(c, attempt(c, PayloadStream.is_aborted, s).value)))

@proof('a done callback added late runs at once, else it is queued')
def _(c):
    s, f, t, w = stream(c); cb = Opaque(c.fresh('callback', OBJ), CB); t0 = c.ghost['cbs']
    r = attempt(c, PayloadStream.add_done_callback, s, cb); no_raise(c, r)
    if f & ANY_END: c.prove('runs at once, once', c.ghost['ran'] == z3.Unit(cb.t))
    else:
        none_ran(c); l = fld(c, s, '_done_callbacks')
        c.prove('queued once', l.as_term(CBC) == z3.Concat(t0, z3.Unit(cb.t)))
    c.prove('nothing else changes', z3.And(bv(flags(c, s) == f and fld(c, s, '_waiter') is w), seq(c, s) == t))

PRE = z3.Function('flat_of_first', SEQ2, I, SEQ)
@proof('sizes')
def _(c):
    s, f, t, w = stream(c)
    n = z3.Length(t)
    def inv(L):
        i = L._i
        c.fact(PRE(t, z3.IntVal(0)) == z3.Empty(SEQ)); c.fact(PRE(t, n) == FLAT(t)); c.fact(z3.Implies(z3.And(0 <= i, i < n), PRE(t, i + 1) == z3.Concat(PRE(t, i), t[i])))
        return {'so far': L.t('size') == z3.Length(PRE(t, i))}
    loop(c, 'get_total_size', 0, Loop(inv=inv))
    a = attempt(c, PayloadStream.get_total_size, s); no_raise(c, a)
    b = attempt(c, PayloadStream.get_buffer_size, s); no_raise(c, b)
    c.prove('bytes buffered', iterm(a.value) == z3.Length(FLAT(t)))
    c.prove('bytes counted against the reading limit', iterm(b.value) == (z3.IntVal(0) if f & WHOLE else z3.Length(FLAT(t))))

def new_future(c):
    def mk(ctx, *a, **k): ctx.ghost['own'] = h = Opaque(ctx.fresh('own', OBJ), WAITER); ctx.ghost['pending'] = z3.BoolVal(True); return h
    use(c, Future, mk)
def setf(ctx, s, f, t, waiter=None):
    ctx.it.setattr(s, '_flags', f); fld(ctx, s, '_chunks').set_seq(t); ctx.it.setattr(s, '_waiter', waiter); ctx.it.setattr(s, '_exception', exc_of(ctx, f))
def failure_of(c, s, r, f):
    e = fld(c, s, '_exception')
    if e is not None: c.prove('the failure it ended with', bv(r.exc is e))
    else: c.prove('a connection error', bv(r.is_a(ConnectionError)))

@proof('await: everything added, once the end is set; failures as they are')
def _(c):
    s, f, t, w = stream(c); g = c.ghost; g['rest'] = flat_term(c, t); new_future(c); p0 = g['pending']
    def on_wait(ctx, o):
        g['waited'] = g.get('waited', 0) + 1
        ctx.prove('waits only before the end', bv(not flags(ctx, s) & ANY_END))
        ctx.prove('for a future the stream will resolve', bv(fld(ctx, s, '_waiter') is o and (o is w or o is g.get('own'))))
        ctx.prove('as a reader of the whole', bv(bool(flags(ctx, s) & WHOLE and not flags(ctx, s) & CHUNK)))
        ctx.prove('the transport is read meanwhile', bv(o is w or g.get('resumed')))
        t1 = ctx.fresh('chunks_then', SEQ2); g['rest'] = flat_term(ctx, t1)
        k = g['end'] = ctx.choose(3)
        if k == 0: setf(ctx, s, WHOLE | SUCCESS, t1); return None
        if k == 1:
            setf(ctx, s, WHOLE | (EXCEPTION, CANC, ABORTED)[ctx.choose(3)], t1)
            x = g['exc'] = fld(ctx, s, '_exception') or Inst(ctx, ConnectionError, {'args': ()})
            raise PyExc(x)
        f1 = WHOLE | (0, *ENDS)[ctx.choose(5)]
        setf(ctx, s, f1, t1, None if f1 & ANY_END else o)
        x = g['exc'] = Inst(ctx, (CancelledError, GeneratorExit)[ctx.choose(2)], {'args': ()}); raise PyExc(x)
    g['on_wait'] = on_wait
    if w is not None: c.assume(p0)
    r = attempt(c, PayloadStream.__await__, s)
    f1 = flags(c, s)
    if f & CHUNK:
        c.prove('the modes do not mix', z3.And(bv(r.raised and r.is_a(RuntimeError) and f1 == f and fld(c, s, '_waiter') is w), seq(c, s) == t)); return
    if not g.get('waited'):
        c.prove('at once only after the end', bv(bool(f & ANY_END)))
        if f & FAILED: c.prove('fails', bv(r.raised)); r.raised and failure_of(c, s, r, f)
    elif g['end']:
        c.prove('what woke it goes through', bv(r.raised and r.exc is g['exc'])); c.prove('the stream has ended', bv(bool(f1 & ANY_END) and fld(c, s, '_waiter') is None)); return
    if not f & FAILED:
        no_raise(c, r)
        c.prove('all that was added', sterm(r.value) == g['rest']); c.prove('and it is not given again', z3.Length(flat(c, s)) == 0)

@proof('async for: chunks in order, waiting only when there is nothing to deliver, the end only when nothing is left', budget=200)
def _(c):
    s, f, t, w = stream(c, waiter=False, cbs=False); g = c.ghost; g['rest'] = flat_term(c, t); new_future(c)
    g['ended'] = None; g['dead'] = False
    def add(ctx, f0, base):
        """the producer adds, ends, fails; base: bytes promised before what is buffered (or None: buffered ones stay in front)"""
        t0 = seq(ctx, s); more = ctx.fresh('added', SEQ2)
        f1 = f0
        if not f0 & ANY_END: f1 = f0 | (0, *ENDS)[ctx.choose(5)]
        else: more = z3.Empty(SEQ2)
        t1 = z3.Concat(t0, more)
        g['rest'] = z3.Concat(g['rest'], flat_term(ctx, more))
        if f1 & FAILED and not f0 & ANY_END: t1 = ctx.fresh('chunks_then', SEQ2)      # may be dropped
        setf(ctx, s, f1, t1)
    def on_wait(ctx, o):
        f0 = flags(ctx, s)
        ctx.prove('waits only before the end', bv(not f0 & ANY_END)); ctx.prove('nothing is left to deliver', z3.Length(g['rest']) == 0)
        ctx.prove('for a future the stream will resolve', bv(fld(ctx, s, '_waiter') is o and o is g.get('own')))
        k = ctx.choose(4)
        g['own'] = None
        if k == 0:
            d = ctx.bytes('handed'); setf(ctx, s, f0, z3.Empty(SEQ2)); g['rest'] = d.t
            add(ctx, f0, d); return d
        if k == 1: setf(ctx, s, f0 | SUCCESS, z3.Empty(SEQ2)); g['ended'] = True; return None
        if k == 2:
            setf(ctx, s, f0 | (EXCEPTION, CANC, ABORTED)[ctx.choose(3)], ctx.fresh('chunks_then', SEQ2))
            x = g['exc'] = fld(ctx, s, '_exception') or Inst(ctx, ConnectionError, {'args': ()}); raise PyExc(x)
        f1 = f0 | (0, *ENDS)[ctx.choose(5)]
        setf(ctx, s, f1, ctx.fresh('chunks_then', SEQ2), None if f1 & ANY_END else o)
        x = g['exc'] = Inst(ctx, (CancelledError, GeneratorExit)[ctx.choose(2)], {'args': ()}); raise PyExc(x)
    g['on_wait'] = on_wait
    def ok(L):
        f1 = flags(L.ctx, s)
        return {'undelivered is buffered': z3.BoolVal(True) if f1 & FAILED else flat(L.ctx, s) == g['rest'], 'mode': bv(bool(f1 & CHUNK and not f1 & WHOLE)), 'nobody waits': bv(fld(L.ctx, s, '_waiter') is None),
            'the exception is kept': bv((fld(L.ctx, s, '_exception') is not None) == bool(f1 & EXCEPTION))}
    def hav(L):
        ctx = L.ctx; f1 = CHUNK | (0, *ENDS)[ctx.choose(5)]
        setf(ctx, s, f1, ctx.fresh('chunks', SEQ2)); g['rest'] = ctx.fresh('rest', SEQ); g['ended'] = None; g['exc'] = None; g['pending'] = ctx.fresh('pending', B)
    if not f & WHOLE: loop(c, '__aiter__', 0, Loop(inv=ok, havoc=hav))
    def on_yield(ctx, v):
        rest = ctx.fresh('rest', SEQ)
        d = sterm(v)
        ctx.prove('delivered in order: the next bytes added', z3.PrefixOf(d, g['rest']))
        ctx.fact(z3.Implies(z3.PrefixOf(d, g['rest']), g['rest'] == z3.Concat(d, rest)))
        g['rest'] = rest
        if not flags(ctx, s) & FAILED: ctx.prove('and no byte twice', flat(ctx, s) == rest)
        k = ctx.choose(3)
        add(ctx, flags(ctx, s), None)
        if k:
            x = g['exc'] = Inst(ctx, (GeneratorExit, ValueError)[k - 1], {'args': ()}); raise PyExc(x)
    g['exc'] = None
    c.yield_stack.append(on_yield)
    try:
        gen = c.it.call(PayloadStream.__aiter__, [s], {})
        try: r = Outcome(value=c.it.run_gen(gen))
        except PyExc as e: r = Outcome(exc=e.value)
    finally: c.yield_stack.pop()
    f1 = flags(c, s)
    if f & WHOLE:
        c.prove('the modes do not mix', z3.And(bv(r.raised and r.is_a(RuntimeError) and f1 == f), seq(c, s) == t)); return
    if not r.raised:
        c.prove('ends normally only at the end', bv(f1 & ANY_END == SUCCESS)); c.prove('everything added was delivered', z3.Length(g['rest']) == 0); return
    if g['exc'] is not None:
        c.prove('what was thrown in goes through', bv(r.exc is g['exc'])); c.prove('the stream has ended', bv(bool(f1 & ANY_END) and fld(c, s, '_waiter') is None)); return
    c.prove('fails only after a failure', bv(bool(f1 & FAILED))); failure_of(c, s, r, f1)

# ---------------------------------------------------------------- native
RULE = 'a producer (chunks, empty ones too, then one or two ends) against one reader (await / async for, broken off, cancelled), stepped one handle at a time; distinct by content'
SEARCH_S = 5
class Proto:
    def __init__(self, loop): self._loop = loop; self.resumed = 0
    def _resume_reading(self): self.resumed += 1
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(2, 14)):
            x = rng.random()
            ops.append(['add', rng.choice([0, 1, 1, 2, 5])] if x < .4 else ['end', rng.randint(0, 3)] if x < .5 else ['read', rng.randint(0, 1), rng.choice([99, 99, 1, 2, -1])] if x < .65 else ['cancel'] if x < .7 else ['cb', rng.randint(0, 1)] if x < .77 else ['turn', rng.choice([1, 1, 2, 99])])
        yield ops
def check_case(ops):
    lp = FakeLoop(); s = PayloadStream(Proto(lp)); added = []; n = [0]; task = None; got = []; res = []; end = None; bad = []; mode = None; cbs = {}
    from scarletio.core import top_level
    saved = PS.write_exception_async; reported = []
    PS.write_exception_async = lambda e, *a, **k: reported.append(e)
    async def reader(how, limit):
        try:
            if how == 0: got.append(await s)
            else:
                k = 0
                async for ch in s:
                    if ch is None: bad.append('a chunk is None')
                    got.append(ch); k += 1
                    if limit == -1: await Future_sleep()
                    elif k >= limit: res.append('left'); return
            res.append('end')
        except CancelledError: res.append('cancelled'); raise
        except BaseException as e: res.append(e); raise
    async def Future_sleep():
        f = Future(lp); lp.call_soon(f.set_result_if_pending, None); await f
    class Boom(Exception): pass
    boom = Boom(); order = []
    try:
        for op in ops:
            if op[0] == 'add':
                d = bytes((n[0] + k) % 251 for k in range(op[1])); n[0] += op[1]
                ok = s.add_received_chunk(d)
                if bool(ok) != (end is None): bad.append(f'adding a chunk gives {ok}, ended: {end}')
                if ok: added.append(d)
                else: n[0] -= op[1]
            elif op[0] == 'end':
                ok = (s.set_done_success, lambda: s.set_done_exception(boom), s.set_done_cancelled, s._abort)[op[1]]()
                if bool(ok) != (end is None): bad.append(f'ending gives {ok}, ended: {end}')
                if end is None: end = op[1]
            elif op[0] == 'read' and task is None: mode = op[1]; limit = op[2]; task = Task(lp, reader(op[1], op[2]))
            elif op[0] == 'cancel' and task is not None and not task.is_done(): task.cancel()
            elif op[0] == 'cb':
                k = len(cbs); cbs[k] = 0
                def cb(st, k=k, r=op[1]):
                    cbs[k] += 1
                    if r: raise ValueError()
                s.add_done_callback(cb)
            elif op[0] == 'turn': lp.turn(op[1])
            if s.is_aborted() and end is None: end = 3
            if b''.join(got) != b''.join(added)[:len(b''.join(got))]: bad.append(f'got {got}, added {added}')
            if bad: return bad[0]
        lp.turn()
        if s.is_aborted() and end is None: end = 3
        left = res and res[0] == 'left'
        if task is not None and not task.is_done() and end is not None: bad.append('the reader hangs after the end')
        if task is not None and not task.is_done() and mode == 1 and b''.join(got) != b''.join(added): bad.append(f'the reader waits with {got} of {added}')
        if end is None: s.set_done_success(); end = 0; lp.turn()
        lp.turn()
        if task is not None and not task.is_done(): bad.append('the reader hangs at the end')
        if any(v != 1 for v in cbs.values()): bad.append(f'done callbacks ran {cbs}')
        if res:
            if res[0] == 'end' and (b''.join(got) != b''.join(added) or end != 0): bad.append(f'the end is reported: end {end}, got {got} of {added}')
            if isinstance(res[0], BaseException):
                if end == 0: bad.append(f'{res[0]!r} without a failure')
                elif end == 1 and res[0] is not boom: bad.append(f'{res[0]!r} for the failure set')
                elif end != 1 and not isinstance(res[0], ConnectionError): bad.append(f'{res[0]!r} for a connection failure')
            if res[0] == 'left' and end == 0 and not s.is_aborted():
                rest = []
                async def again():
                    async for ch in s: rest.append(ch)
                t2 = Task(lp, again()); lp.turn()
                if t2.is_done() and b''.join(got + rest) != b''.join(added): bad.append(f'later read: {got + rest} of {added}')
                t2.silence(); t2._callbacks.clear()
        return bad[0] if bad else None
    finally:
        PS.write_exception_async = saved
        if task is not None: task.silence(); task._callbacks.clear()
def shrink(ops):
    for k in range(len(ops)): yield ops[:k] + ops[k + 1:]
