"""C21: a future resolves at most once and tells every listener once."""
from contracts.loops import *
from scarletio.core.exceptions import CancelledError, InvalidStateError
from types import MethodType
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: nothing else runs between two statements of a method of a future', 'the consistent state words are enumerated exhaustively (all 7 flag bits)']
DESIGN = '''State word, stored value and callback list are the state; "consistent" says which outcome bits go together. Every method is proved from every
consistent state word (exhaustively), any stored value and any list of callbacks: a finished future keeps outcome and value and refuses or reports 0;
a pending one takes exactly the asked outcome and hands its callbacks to the loop exactly once, after which it is finished. The loop's
`_schedule_callbacks` is proved to schedule each callback once (an arbitrary callback is counted before and after) and to keep none.
Adding, removing and awaiting are proved against the same state; a removed callback is gone in every multiplicity.'''

CB = Iface(); CB.name = 'callback'
CBC = ObjC(CB)
CNT = z3.Function('times_in', z3.SeqSort(OBJ), OBJ, I)      # how often a callback is in a list
HCNT = z3.Function('times_scheduled', z3.SeqSort(OBJ), OBJ, I)
HOF = z3.Function('callback_of_handle', OBJ, OBJ)

class LoopI(Iface):
    name = 'loop'
    def m__schedule_callbacks(self, ctx, o, f):
        g = ctx.ghost
        ctx.prove('the callbacks of this future are scheduled', bv(f is g['self']))
        g['scheduled'] = g.get('scheduled', 0) + 1
        g['callbacks_then'] = ctx.it.getattr(f, '_callbacks').as_term(CBC)
        models.call_method(ctx.it, ctx.it.getattr(f, '_callbacks'), 'clear', [], {})
    def m_call_soon(self, ctx, o, f, *args): ctx.ghost.setdefault('soon', []).append((f, args)); return Opaque(ctx.fresh('handle', OBJ))
    def m_call_after(self, ctx, o, delay, f, *args):
        ctx.ghost.setdefault('after', []).append((delay, f, args))
        h = None if ctx.choose(2) else Opaque(ctx.fresh('handle', OBJ)); ctx.ghost['handle'] = h
        return h
LOOP = LoopI()
ANYV = AnyI()
def future(c, states, callbacks=True):
    s = states[c.choose(len(states))]
    cbs = LList(c, seq=c.fresh('callbacks', z3.SeqSort(OBJ)), codec=CBC) if callbacks else LList(c, items=[])
    if s & DONE and callbacks: c.assume(z3.Length(cbs.as_term(CBC)) == 0)
    res = Opaque(c.fresh('stored', OBJ), ANYV) if s & (RETURN | RAISE) else None
    f = inst(c, Future, _blocking=False, _callbacks=cbs, _loop=Opaque(c.fresh('loop', OBJ), LOOP), _result=res, _state=s)
    c.ghost['self'] = f
    return f, s, res, (cbs.as_term(CBC) if callbacks else None)
def cbs_of(c, f): return c.it.getattr(f, '_callbacks').as_term(CBC)
def st(c, f):
    s = c.it.getattr(f, '_state')
    if isinstance(s, SInt):
        s = z3.simplify(s.t)
        if not z3.is_int_value(s): raise Unsupported('state word')
        s = s.as_long()
    return s
def res(c, f): return c.it.getattr(f, '_result')
class ExcClassI(Iface):
    """An exception class to be instantiated"""
    name = 'exception class'

def an_exception(c):
    """an exception: an instance, a class of it, or one that cannot be raised into a future"""
    k = c.choose(4)
    if k == 0: return Inst(c, ValueError, {'args': ()}), True
    if k == 1: return ValueError, True
    if k == 2: return Inst(c, StopIteration, {'args': ()}), False
    return StopIteration, False

SETTERS = ('cancel', 'cancel_with', 'set_result', 'set_result_if_pending', 'set_exception', 'set_exception_if_pending')
def act(c, f, m):
    """-> outcome, argument, whether the argument can be used"""
    v = None; usable = True; args = []
    if m.startswith('set_result'): v = Opaque(c.fresh('value', OBJ), ANYV); args = [v]
    elif m != 'cancel': v, usable = an_exception(c); args = [v]
    return attempt(c, getattr(Future, m), f, *args), v, usable

for _m in SETTERS:
    @proof(f'{_m}: a finished future never changes')
    def _(c, m=_m):
        f, s, r0, _ = future(c, FINISHED)
        r, v, usable = act(c, f, m)
        now = st(c, f)
        c.prove('the outcome stays', bv(now & OUTCOME == s & OUTCOME and now & RETRIEVED == s & RETRIEVED and res(c, f) is r0))
        c.prove('nothing is scheduled', bv(not c.ghost.get('scheduled') and not c.ghost.get('soon')))
        c.prove('no callback appears', z3.Length(cbs_of(c, f)) == 0)
        if m in ('set_result', 'set_exception'): c.prove('refused', bv(r.is_a(InvalidStateError)))
        else: no_raise(c, r); c.prove('reported as without effect', eqv(c, r.value, 0))

    @proof(f'{_m}: a pending future takes exactly this outcome')
    def _(c, m=_m):
        f, s, r0, cb0 = future(c, PENDING)
        r, v, usable = act(c, f, m)
        now = st(c, f); stored = res(c, f)
        if not usable:
            c.prove('refused, nothing happened', z3.And(bv(r.is_a(TypeError) and now & DONE == 0 and not c.ghost.get('scheduled')), cbs_of(c, f) == cb0)); return
        no_raise(c, r)
        want = {'c': CANCELLED | (RAISE if m == 'cancel_with' else 0), 's': RETURN if m.startswith('set_result') else RAISE}[m[0]]
        c.prove('exactly this outcome', bv(now & OUTCOME == want and not now & RETRIEVED and now & SILENCED == s & SILENCED))
        if m.startswith('set_result'): c.prove('the value', bv(stored is v))
        elif m != 'cancel': c.prove('the exception', bv(stored is v if isinstance(v, Inst) else isinstance(stored, Inst) and stored.cls is v))
        else: c.prove('no value', bv(stored is None))
        c.prove('the callbacks are scheduled exactly once, all of them', z3.And(bv(c.ghost.get('scheduled') == 1), c.ghost['callbacks_then'] == cb0, z3.Length(cbs_of(c, f)) == 0))
        if m not in ('set_result', 'set_exception'): c.prove('reported as effective', eqv(c, r.value, 1))

@proof('readers report the outcome and change nothing but the retrieval mark')
def _(c):
    f, s, r0, cb0 = future(c, STATES)
    ms = ('is_done', 'is_pending', 'is_cancelled', 'is_cancelling', 'is_silenced', 'get_result', 'get_exception', 'get_cancellation_exception', 'silence')
    m = ms[c.choose(len(ms))]
    if s & RAISE: f.fields['_result'] = r0 = Inst(c, ValueError, {'args': ()})
    r = attempt(c, getattr(Future, m), f)
    now = st(c, f)
    c.prove('the outcome stays', z3.And(bv(now & OUTCOME == s & OUTCOME and now & CANCELLING == s & CANCELLING and res(c, f) is r0), cbs_of(c, f) == cb0))
    c.prove('nothing is scheduled', bv(not c.ghost.get('scheduled') and not c.ghost.get('soon')))
    if m == 'get_result':
        if s & RETURN: no_raise(c, r); c.prove('the value', bv(r.value is r0))
        elif s & RAISE: c.prove('raises the exception', bv(r.raised and r.exc is r0 and now & RETRIEVED))
        elif s & CANCELLED: c.prove('raises cancelled', bv(r.is_a(CancelledError)))
        else: c.prove('no result yet', bv(r.is_a(InvalidStateError)))
        return
    if m == 'get_exception' and not s & (RETURN | RAISE | CANCELLED): c.prove('no result yet', bv(r.is_a(InvalidStateError))); return
    no_raise(c, r)
    if m == 'get_exception':
        if s & RETURN: c.prove('none', bv(r.value is None))
        elif s & RAISE: c.prove('the exception', bv(r.value is r0 and now & RETRIEVED))
        else: c.prove('cancelled', bv(isinstance(r.value, Inst) and r.value.cls is CancelledError))
    elif m == 'get_cancellation_exception':
        if not s & CANCELLED: c.prove('none', bv(r.value is None))
        elif s & RAISE: c.prove('the exception', bv(r.value is r0))
        else: c.prove('cancelled', bv(isinstance(r.value, Inst) and r.value.cls is CancelledError))
    elif m == 'silence': c.prove('silenced', bv(now & SILENCED))
    else:
        want = {'is_done': bool(s & DONE), 'is_pending': not s & DONE, 'is_cancelled': bool(s & CANCELLED), 'is_cancelling': not s & DONE and bool(s & CANCELLING), 'is_silenced': bool(s & FS.FUTURE_STATE_MASK_SILENCED)}[m]
        c.prove(m, truth(c, r.value) == bv(want)); c.prove('a read', bv(now == s))

@proof('a new future is pending, without callbacks')
def _(c):
    l = Opaque(c.fresh('loop', OBJ), LOOP)
    r = attempt(c, Future, l); no_raise(c, r); f = r.value
    c.prove('pending', bv(st(c, f) == 0 and res(c, f) is None and c.it.getattr(f, '_loop') is l and c.it.getattr(f, '_blocking') is False))
    c.prove('no callbacks', bv(isinstance(f.fields['_callbacks'], LList) and f.fields['_callbacks'].items == []))

@proof('a callback added is kept until completion, or scheduled at once when complete')
def _(c):
    f, s, r0, cb0 = future(c, STATES)
    cb = Opaque(c.fresh('callback', OBJ), CB)
    r = attempt(c, Future.add_done_callback, f, cb); no_raise(c, r)
    soon = c.ghost.get('soon', [])
    c.prove('the future stays', bv(st(c, f) == s and res(c, f) is r0))
    if s & DONE: c.prove('scheduled once, with the future', z3.And(bv(len(soon) == 1 and soon[0][0] is cb and len(soon[0][1]) == 1 and soon[0][1][0] is f), cbs_of(c, f) == cb0))
    else: c.prove('kept behind the others', z3.And(bv(not soon), cbs_of(c, f) == z3.Concat(cb0, z3.Unit(cb.t))))

FILT = z3.Function('without', z3.SeqSort(OBJ), OBJ, z3.SeqSort(OBJ))
@proof('a callback removed is gone in every place it was at, the others stay in order')
def _(c):
    f, s, r0, cb0 = future(c, STATES)
    cb = Opaque(c.fresh('callback', OBJ), CB); x = cb.t
    n = z3.Length(cb0)
    def unfold(ctx, i):
        ctx.fact(FILT(z3.Extract(cb0, n, z3.IntVal(0)), x) == z3.Empty(z3.SeqSort(OBJ)))
        ctx.fact(z3.Extract(cb0, n, z3.IntVal(0)) == z3.Empty(z3.SeqSort(OBJ)))
        t0, t1 = z3.Extract(cb0, i, n - i), z3.Extract(cb0, i - 1, n - i + 1)
        ctx.fact(z3.Implies(z3.And(0 < i, i <= n), FILT(t1, x) == z3.If(cb0[i - 1] == x, FILT(t0, x), z3.Concat(z3.Unit(cb0[i - 1]), FILT(t0, x)))))
    def inv(L):
        i = L.t('index'); unfold(L.ctx, i)
        return {'in the list': z3.And(0 <= i, i <= n), 'removed behind': cbs_of(c, f) == z3.Concat(z3.Extract(cb0, z3.IntVal(0), i), FILT(z3.Extract(cb0, i, n - i), x)),
            'counted': L.t('count') == n - z3.Length(cbs_of(c, f))}
    loop(c, 'remove_done_callback', 0, Loop(inv=inv, dec=lambda L: L.t('index')))
    r = attempt(c, Future.remove_done_callback, f, cb); no_raise(c, r)
    c.fact(z3.Extract(cb0, z3.IntVal(0), n) == cb0)
    c.prove('all the others, in order', cbs_of(c, f) == FILT(cb0, x))
    c.prove('how many went', iterm(r.value) == n - z3.Length(FILT(cb0, x)))
    c.prove('the future stays', bv(st(c, f) == s and res(c, f) is r0 and not c.ghost.get('soon') and not c.ghost.get('scheduled')))

@proof('awaiting a future suspends it once while pending, then gives the outcome')
def _(c):
    f, s, r0, cb0 = future(c, [0, CANCELLING, RETURN, RAISE, CANCELLED, CANCELLED | RAISE, DESTROYED])
    if s & RAISE: f.fields['_result'] = r0 = Inst(c, ValueError, {'args': ()})
    which = c.choose(2); end = [s]; val = [r0]; woken = []
    def on_yield(ctx, v):
        woken.append(v)
        ctx.prove('only a pending future is waited for, marked as blocking', bv(not s & DONE and v is f and ctx.it.getattr(f, '_blocking') is True))
        k = [RETURN, RAISE, CANCELLED, CANCELLED | RAISE][ctx.choose(4)]
        end[0] = k; ctx.it.setattr(f, '_state', k)
        val[0] = Opaque(ctx.fresh('value', OBJ), ANYV) if k == RETURN else Inst(ctx, ValueError, {'args': ()}) if k & RAISE else None
        ctx.it.setattr(f, '_result', val[0])
        return None
    c.yield_stack.append(on_yield)
    c.await_handler = None
    try:
        g = c.it.call((Future.__iter__, Future.wait_for_completion)[which], [f], {})
        r = Outcome(value=c.it.run_gen(g) if isinstance(g, Gen) else g)
    except PyExc as e: r = Outcome(exc=e.value)
    finally: c.yield_stack.pop()
    c.prove('suspended once exactly when pending', bv(len(woken) == (0 if s & DONE else 1)))
    k = end[0]
    if which: no_raise(c, r); return
    if k & RETURN: no_raise(c, r); c.prove('the value', bv(r.value is val[0]))
    elif k & RAISE: c.prove('the exception', bv(r.raised and r.exc is val[0]))
    elif k & CANCELLED: c.prove('cancelled', bv(r.is_a(CancelledError)))
    else: c.prove('nothing to give', bv(r.is_a(InvalidStateError)))

@proof('the loop schedules every callback of a finished future exactly once')
def _(c):
    f, s, r0, cb0 = future(c, [RETURN], callbacks=False)
    cb0 = c.fresh('callbacks', z3.SeqSort(OBJ)); f.fields['_callbacks'] = LList(c, seq=cb0, codec=CBC)
    y = c.fresh('any_callback', OBJ)
    ready0 = c.fresh('ready', z3.SeqSort(OBJ))
    ready = LList(c, seq=ready0, codec=ObjC(), kind='deque')
    running = bool(c.choose(2)); startable = bool(c.choose(2))
    class FieldsI(Iface):
        name = 'event loop'
        def get__ready(self, ctx, o): return ready
        def get_running(self, ctx, o): return running
        def m__maybe_start(self, ctx, o): return startable
    lp = Opaque(c.fresh('loop', OBJ), FieldsI())
    def mk(ctx, cls, *args, **kw):
        func, a = args
        ctx.prove('called with the future', bv(isinstance(a, tuple) and len(a) == 1 and a[0] is f))
        h = ctx.fresh('handle', OBJ); ctx.fact(HOF(h) == func.t)
        return Opaque(h)
    use(c, HANDLES.Handle, lambda ctx, *args, **kw: mk(ctx, None, *args, **kw))
    def cnt(ctx, t): # unfold both ends
        n = z3.Length(t)
        ctx.fact(CNT(z3.Empty(z3.SeqSort(OBJ)), y) == 0); ctx.fact(z3.Implies(n == 0, CNT(t, y) == 0))
        ctx.fact(z3.Implies(n > 0, CNT(t, y) == CNT(z3.Extract(t, 0, n - 1), y) + z3.If(t[n - 1] == y, 1, 0)))
        ctx.fact(z3.Implies(n > 0, CNT(t, y) == CNT(z3.Extract(t, 1, n - 1), y) + z3.If(t[0] == y, 1, 0)))
        return CNT(t, y)
    def hcnt(ctx, t):
        t = z3.simplify(t); n = z3.Length(t)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY): return z3.IntVal(0)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT): return z3.If(HOF(t.arg(0)) == y, 1, 0)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT): return z3.Sum(*[hcnt(ctx, x) for x in t.children()])
        return HCNT(t, y)
    total = cnt(c, cb0)
    def inv(L):
        t = cbs_of(L.ctx, f); r = ready.as_term(ObjC())
        if L.has("_i"):
            i = L._i; p = z3.Extract(cb0, 0, i); nx = z3.Extract(cb0, 0, i + 1); n = z3.Length(cb0)
            L.ctx.fact(z3.Implies(i == 0, CNT(p, y) == 0)); L.ctx.fact(z3.Implies(z3.And(0 <= i, i < n), CNT(nx, y) == CNT(p, y) + z3.If(cb0[i] == y, 1, 0))); L.ctx.fact(z3.Extract(cb0, 0, n) == cb0)
            return {'each once': hcnt(L.ctx, r) == hcnt(L.ctx, ready0) + CNT(p, y), 'unchanged': t == cb0}
        return {'each once': hcnt(L.ctx, r) + cnt(L.ctx, t) == hcnt(L.ctx, ready0) + total}
    loop(c, '_schedule_callbacks', 0, Loop(inv=inv, dec=lambda L: z3.Length(cbs_of(L.ctx, f)) if not L.has("_i") else z3.Length(cb0) - L._i))
    r = attempt(c, EventThread._schedule_callbacks, lp, f); no_raise(c, r)
    c.prove('none is left', z3.Length(cbs_of(c, f)) == 0)
    if running or startable: c.prove('every callback is scheduled as often as it was added', hcnt(c, ready.as_term(ObjC())) == hcnt(c, ready0) + total)
    else: c.prove('a stopped loop schedules nothing', ready.as_term(ObjC()) == ready0)

@proof('a timeout cancels a pending future once, and its timer goes when the future is done')
def _(c):
    f, s, r0, cb0 = future(c, [0, RETURN, CANCELLED, RAISE], callbacks=False)
    t = c.real('timeout')
    called = []
    use(c, Future.cancel_with, lambda ctx, self, e: called.append((self, e)) or 1)
    r = attempt(c, Future.apply_timeout, f, t); no_raise(c, r)
    after = c.ghost.get('after', [])
    if called: c.prove('cancelled at once only when no time is left', z3.And(t.t <= 0, bv(len(called) == 1 and called[0][0] is f and called[0][1] is TimeoutError and not after))); return
    c.prove('time is left', t.t > 0)
    if s & DONE: c.prove('no timer', bv(not after)); c.prove('no effect', eqv(c, r.value, 0)); return
    (d, fn, args), = after
    c.prove('a timer of that delay for this future', z3.And(eqv(c, d, t), bv(len(args) == 1 and args[0] is f)))
    h = c.ghost['handle']; added = f.fields['_callbacks'].items
    c.prove('the timer is cancelled on completion', bv(len(added) == (0 if h is None else 1)))
    if h is not None:
        stop = []
        h.iface = type('HandleI', (Iface,), {'name': 'handle', 'm_cancel': lambda self, ctx, o: stop.append(o)})()
        c.it.call(added[0], [f], {})
        c.prove('that timer', bv(stop == [h]))
    c.it.call(fn, list(args), {})
    c.prove('the timer cancels the future with a timeout', bv(called == [(f, TimeoutError)]))

# ---------------------------------------------------------------- native
RULE = 'operation sequences on a real future with a stepped loop: setting every outcome, cancelling, adding / removing callbacks, waiting tasks, running the loop; distinct by content'
SEARCH_S = 6
OPS = ('result', 'result?', 'exc', 'exc?', 'cancel', 'cancel_with', 'add', 'add', 'add', 'remove', 'turn', 'turn1', 'silence', 'read', 'timeout', 'advance', 'bad')
def cases(rng, part, parts):
    while True: yield [[rng.choice(OPS), rng.randint(0, 3)] for _ in range(rng.randint(1, 14))]
def check_case(ops):
    import io
    lp = FakeLoop(); f = Future(lp); out = None; calls = []; due = []; pend = []; keep = []
    fns = [(lambda fut, k=k: calls.append((k, fut))) for k in range(4)]
    timers = 0
    def settle(kind, v):
        nonlocal out, pend
        out = (kind, v); due.extend(sorted(pend)); pend = []
    for k, (op, a) in enumerate(ops):
        r = None; done = out is not None
        def bad(m): return f'step {k} {op} {a}: {m}'
        try:
            if op in ('result', 'exc'):
                v = ('v', k) if op == 'result' else ValueError(k)
                try: f.set_result(v) if op == 'result' else f.set_exception(v)
                except InvalidStateError:
                    if not done: return bad('refused while pending')
                else:
                    if done: return bad('accepted on a finished future')
                    settle('v' if op == 'result' else 'e', v)
            elif op in ('result?', 'exc?', 'cancel', 'cancel_with'):
                v = ('v', k) if op == 'result?' else None if op == 'cancel' else KeyError(k)
                r = f.set_result_if_pending(v) if op == 'result?' else f.set_exception_if_pending(v) if op == 'exc?' else f.cancel() if op == 'cancel' else f.cancel_with(v)
                if bool(r) == done: return bad(f'reported {r}')
                if not done: settle({'result?': 'v', 'exc?': 'e', 'cancel': 'c', 'cancel_with': 'ce'}[op], v)
            elif op == 'bad':
                for m in (f.set_exception_if_pending, f.cancel_with):
                    try: r = m(StopIteration)
                    except TypeError:
                        if done: return bad('raised on a finished future')
                    else:
                        if not done: return bad('accepted StopIteration')
            elif op == 'add':
                f.add_done_callback(fns[a])
                (due if done else pend).append(a)
            elif op == 'remove':
                n = f.remove_done_callback(fns[a])
                if n != pend.count(a): return bad(f'removed {n} of {pend.count(a)}')
                pend = [x for x in pend if x != a]
            elif op == 'turn': lp.turn()
            elif op == 'turn1': lp.turn(1)
            elif op == 'silence': f.silence()
            elif op == 'timeout':
                r = f.apply_timeout(a)
                if a == 0:
                    if bool(r) == done: return bad(f'reported {r}')
                    if not done: settle('t', None)
                elif not done: keep.append(lp.now + a)
                elif r: return bad(f'reported {r}')
            elif op == 'advance':
                lp.turn(); lp.advance(a)
                if not done and any(t <= lp.now for t in keep): lp.turn(); settle('t', None)
        except Exception as e: return bad(f'raised {e!r}')
        # readers
        if f.is_done() != (out is not None) or f.is_pending() == (out is not None): return bad('is_done / is_pending')
        if f.is_cancelled() != (out is not None and out[0] in ('c', 'ce', 't')): return bad('is_cancelled')
        for m in ('get_result', 'get_exception'):
            try: got = ('ret', getattr(f, m)())
            except BaseException as e: got = ('exc', e)
            if out is None: ok = got[0] == 'exc' and isinstance(got[1], InvalidStateError)
            elif out[0] == 'v': ok = got == ('ret', out[1] if m == 'get_result' else None)
            elif out[0] in ('e', 'ce'): ok = got[0] == ('exc' if m == 'get_result' else 'ret') and got[1] is out[1]
            elif out[0] == 'c': ok = got[0] == ('exc' if m == 'get_result' else 'ret') and isinstance(got[1], CancelledError)
            else: ok = isinstance(got[1], TimeoutError)
            if not ok: return bad(f'{m} gave {got}, outcome {out}')
        if any(x[1] is not f for x in calls): return bad('callback got another future')
        ran = [x[0] for x in calls]
        if out is None and ran: return bad(f'callbacks {ran} ran before completion')
        if op in ('turn', 'advance') and out is not None:
            if sorted(ran) != sorted(due): return bad(f'callbacks run: {sorted(ran)}, due: {sorted(due)}')
        for x in set(ran):
            if ran.count(x) > due.count(x): return bad(f'callback {x} ran {ran.count(x)} times, due {due.count(x)}')
    lp.turn()
    if sorted(x[0] for x in calls) != sorted(due): return f'at the end: callbacks run: {sorted(x[0] for x in calls)}, due: {sorted(due)}'
    f.silence(); f._callbacks.clear()
    return None
def shrink(ops):
    for k in range(len(ops)): yield ops[:k] + ops[k + 1:]
