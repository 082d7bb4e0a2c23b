"""C22: a task reports its coroutine's outcome and honours cancellation once."""
from contracts.loops import *
from contracts.c21 import CBC, ANYV, st, res
from scarletio.core.traps.task import Task
from scarletio.core.exceptions import CancelledError, InvalidStateError
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: nothing else runs between two statements of a method of a task', 'a coroutine resumed by send / throw yields, returns, raises, and may cancel its own task meanwhile: all combinations are tried',
    'futures behave as C21 states']
DESIGN = '''State: flag word (enumerated exhaustively over all consistent words), stored value, the future waited for, the loop's queue. `_step` is proved for every
behaviour of the coroutine during the step (returning, raising cancellation or anything else, yielding a blocking future, a non-blocking one or any other
object; cancelling its own task meanwhile): exactly one resumption per step, a throw exactly when a cancellation is marked (and the mark is gone by then),
the outcome and its callbacks exactly when the coroutine ended, else exactly one continuation (the wake-up on that future, or the next step).
`cancel`, `cancel_with`, `_wake_up`, the constructor and the refused setters are proved against the same state.'''
SO = z3.SeqSort(OBJ)
class LoopI(Iface):
    name = 'loop'
    def m_call_soon(self, ctx, o, f, *args): ctx.ghost.setdefault('soon', []).append((f, args)); return Opaque(ctx.fresh('handle', OBJ))
    def m__schedule_callbacks(self, ctx, o, f): ctx.ghost.setdefault('finished', []).append(f)
    def get_current_task(self, ctx, o): return ctx.ghost.get('current')
    def set_current_task(self, ctx, o, v): ctx.ghost['current'] = v
LOOP = LoopI()
class WaitedI(Iface):
    """the future a task waits for"""
    name = 'future'
    def m_cancel(self, ctx, o):
        k = ctx.choose(2); ctx.ghost.setdefault('waited_cancel', []).append(k); return k
    def m_is_cancelled(self, ctx, o): return ctx.ghost['w_cancelled']
    def m_is_cancelling(self, ctx, o): return ctx.ghost['w_cancelling']
WAITED = WaitedI()
class FutI(WaitedI):
    name = 'yielded future'
    types = (Future,)
    def get__blocking(self, ctx, o): return ctx.ghost['blocking']
    def set__blocking(self, ctx, o, v): ctx.ghost['blocking'] = v
    def m_add_done_callback(self, ctx, o, f): ctx.ghost.setdefault('added', []).append(f)
FUT = FutI()
class CoI(Iface):
    name = 'coroutine'
    def resume(self, ctx, how, v):
        g = ctx.ghost; task = g['task']; s = st(ctx, task)
        g.setdefault('resumed', []).append((how, v))
        ctx.prove('the loop knows which task runs', bv(g.get('current') is task))
        ctx.prove('no cancellation is still marked while it runs', bv(not s & CANCELLING))
        ctx.prove('waiting for nothing', bv(ctx.it.getattr(task, '_waited_future') is None))
        # it may cancel its own task meanwhile, with or without an exception, or silence it
        m = g['meanwhile'] = ctx.choose(3)
        if m: ctx.it.setattr(task, '_state', s | CANCELLING)
        if m == 2: g['own'] = Inst(ctx, ValueError, {'args': ()}); ctx.it.setattr(task, '_result', g['own'])
        e = g['end'] = ctx.choose(6)
        g['out'] = Opaque(ctx.fresh('out', OBJ), ANYV)
        if e == 0: x = Inst(ctx, StopIteration, {'args': (g['out'],)}); x.fields['value'] = g['out']
        elif e == 1: x = Inst(ctx, CancelledError, {'args': ()})
        elif e == 2: x = Inst(ctx, (ValueError, KeyboardInterrupt, GeneratorExit)[ctx.choose(3)], {'args': ()})
        elif e == 3: g['blocking'] = True; g['fut'] = Opaque(ctx.fresh('fut', OBJ), FUT); return g['fut']
        elif e == 4: g['blocking'] = False; g['fut'] = Opaque(ctx.fresh('fut', OBJ), FUT); return g['fut']
        else: return None
        g['exc'] = x
        raise PyExc(x)
    def m_send(self, ctx, o, v): return self.resume(ctx, 'send', v)
    def m_throw(self, ctx, o, e, *a): return self.resume(ctx, 'throw', e)
CO = CoI()
def task(c, states, waited=None):
    s = states[c.choose(len(states))]
    r0 = None
    if s & DONE: r0 = Opaque(c.fresh('stored', OBJ), ANYV) if s & (RETURN | RAISE) else None
    elif c.choose(2): r0 = Inst(c, KeyError, {'args': ()})      # left by an earlier cancel_with
    t = inst(c, Task, _blocking=False, _callbacks=LList(c, seq=c.fresh('callbacks', SO), codec=CBC), _coroutine=Opaque(c.fresh('coroutine', OBJ), CO), _loop=Opaque(c.fresh('loop', OBJ), LOOP),
        _result=r0, _state=s, _waited_future=waited)
    c.ghost['task'] = t
    return t, s, r0
def quiet(c, what): c.prove(what, bv(not any(c.ghost.get(k) for k in ('soon', 'finished', 'resumed', 'added', 'waited_cancel'))))
def is_step(c, f, t, name):
    return isinstance(f, Bound) and f.self is t and getattr(f.fn, '__name__', None) == name and f.fn is getattr(Task, name)

for wake in (0, 1):
    @proof(('_wake_up' if wake else '_step') + ': one resumption, then the outcome, or exactly one continuation')
    def _(c, wake=wake):
        t, s, r0 = task(c, PENDING, Opaque(c.fresh('waited', OBJ), WAITED) if wake else None)
        g = c.ghost; cb0 = c.it.getattr(t, '_callbacks').as_term(CBC)
        r = attempt(c, Task._wake_up, t, c.it.getattr(t, '_waited_future')) if wake else attempt(c, Task._step, t)
        no_raise(c, r)
        now = st(c, t); stored = res(c, t)
        (how, v), = g['resumed'] if len(g.get('resumed', ())) == 1 else [(None, None)]
        c.prove('resumed exactly once: thrown into exactly when a cancellation was marked', bv(how == ('throw' if s & CANCELLING else 'send') and (isinstance(v, Inst) and v.cls is CancelledError if s & CANCELLING else v is None)))
        c.prove('no task runs afterwards', bv(g.get('current') is None))
        e, m = g['end'], g['meanwhile']
        kept = g.get('own', r0)
        fin = g.get('finished', []); soon = g.get('soon', []); added = g.get('added', [])
        c.prove('silencing stays', bv(now & SILENCED == s & SILENCED and not now & RETRIEVED and not now & DESTROYED))
        if e <= 2:
            c.prove('finished, told once, not continued', bv(len(fin) == 1 and fin[0] is t and not soon and not added and now & DONE))
            if e == 0:
                if m == 0: c.prove('the value returned', bv(now & OUTCOME == RETURN and stored is g['out']))
                elif m == 1: c.prove('cancelled', bv(now & OUTCOME == CANCELLED | (RAISE if kept is not None else 0) and stored is kept))
                else: c.prove('cancelled with its exception', bv(now & OUTCOME == CANCELLED | RAISE and stored is kept))
            elif e == 1:
                c.prove('cancelled', bv(now & OUTCOME == CANCELLED | RAISE and stored is (g['exc'] if kept is None else kept)))
            else: c.prove('the exception raised', bv(now & OUTCOME == RAISE and stored is g['exc']))
            c.prove('waits for nothing', bv(c.it.getattr(t, '_waited_future') is None))
        else:
            c.prove('not finished', bv(not fin and not now & DONE and stored is kept))
            wf = c.it.getattr(t, '_waited_future')
            if e == 3:
                c.prove('waits for exactly that future, its wake-up registered once', bv(wf is g['fut'] and len(added) == 1 and is_step(c, added[0], t, '_wake_up') and not soon and g['blocking'] is False))
                wc = g.get('waited_cancel', [])
                if m: c.prove('a cancellation meanwhile is passed on once or stays marked', bv(len(wc) == 1 and bool(now & CANCELLING) == (not wc[0])))
                else: c.prove('nothing to pass on', bv(not wc and not now & CANCELLING))
            else:
                c.prove('steps again, once', bv(len(soon) == 1 and is_step(c, soon[0][0], t, '_step') and not soon[0][1] and not added and wf is None))
                c.prove('a cancellation meanwhile stays marked', bv(bool(now & CANCELLING) == bool(m)))
        c.prove('callbacks are kept for the loop', c.it.getattr(t, '_callbacks').as_term(CBC) == cb0)

@proof('a finished task is never stepped')
def _(c):
    t, s, r0 = task(c, FINISHED)
    r = attempt(c, Task._step, t)
    quiet(c, 'nothing happens')
    c.prove('refused, unless destroyed', bv(r.ok if s & DESTROYED else r.is_a(InvalidStateError)))
    c.prove('the outcome stays', bv(st(c, t) == s and res(c, t) is r0))

for m in ('cancel', 'cancel_with'):
    @proof(f'{m}: passed on to the future waited for, or marked for the next step')
    def _(c, m=m):
        w = Opaque(c.fresh('waited', OBJ), WAITED) if c.choose(2) else None
        t, s, r0 = task(c, STATES, w)
        args = []
        if m == 'cancel_with':
            k = c.choose(3)
            args = [(Inst(c, ValueError, {'args': ()}), ValueError, StopIteration)[k]]
        r = attempt(c, getattr(Task, m), t, *args)
        now, stored, g = st(c, t), res(c, t), c.ghost
        c.prove('the coroutine is not touched, nothing is scheduled', bv(not any(g.get(x) for x in ('soon', 'finished', 'resumed', 'added'))))
        c.prove('it waits for what it waited for', bv(c.it.getattr(t, '_waited_future') is w))
        wc = g.get('waited_cancel', [])
        if s & DONE:
            no_raise(c, r); c.prove('no effect', eqv(c, r.value, 0))
            c.prove('the outcome stays', bv(now | SILENCED == s | SILENCED and stored is r0 and not wc)); return
        if m == 'cancel_with' and args[0] is StopIteration: c.prove('refused', bv(r.is_a(TypeError) and now == s and stored is r0 and not wc)); return
        no_raise(c, r)
        c.prove('reported as effective', eqv(c, r.value, 1))
        passed = len(wc) == 1 and wc[0] == 1
        c.prove('passed on when there is a future that takes it, else marked', bv(len(wc) == (w is not None) and now & ~CANCELLING == s & ~CANCELLING and bool(now & CANCELLING) == (bool(s & CANCELLING) or not passed)))
        if m == 'cancel': c.prove('no exception of its own', bv(stored is r0))
        else: c.prove('the exception to end with', bv(stored is args[0] if isinstance(args[0], Inst) else isinstance(stored, Inst) and stored.cls is args[0]))

@proof('is_cancelling follows the future waited for, else the mark')
def _(c):
    w = Opaque(c.fresh('waited', OBJ), WAITED) if c.choose(2) else None
    t, s, r0 = task(c, STATES, w); g = c.ghost
    g['w_cancelled'] = a = c.bool('waited_cancelled'); g['w_cancelling'] = b = c.bool('waited_cancelling')
    r = attempt(c, Task.is_cancelling, t); no_raise(c, r)
    c.prove('is_cancelling', truth(c, r.value) == (z3.Or(a.t, b.t) if w is not None else bv(not s & DONE and s & CANCELLING)))
    quiet(c, 'a read'); c.prove('nothing changes', bv(st(c, t) == s and res(c, t) is r0))

@proof('a new task is pending with its first step scheduled once')
def _(c):
    co = Opaque(c.fresh('coroutine', OBJ), CO); lp = Opaque(c.fresh('loop', OBJ), LOOP)
    r = attempt(c, Task, lp, co); no_raise(c, r); t = r.value; soon = c.ghost.get('soon', [])
    c.prove('pending', bv(st(c, t) == 0 and res(c, t) is None and t.fields['_waited_future'] is None and t.fields['_coroutine'] is co and t.fields['_loop'] is lp and t.fields['_blocking'] is False and t.fields['_callbacks'].items == []))
    c.prove('first step once', bv(len(soon) == 1 and is_step(c, soon[0][0], t, '_step') and not soon[0][1] and not c.ghost.get('resumed')))

@proof('the result of a task cannot be set from outside')
def _(c):
    t, s, r0 = task(c, STATES)
    m = ('set_result', 'set_result_if_pending', 'set_exception', 'set_exception_if_pending')[c.choose(4)]
    r = attempt(c, getattr(Task, m), t, Opaque(c.fresh('v', OBJ), ANYV))
    c.prove('refused', bv(r.is_a(RuntimeError) and st(c, t) == s and res(c, t) is r0)); quiet(c, 'nothing happens')

# ---------------------------------------------------------------- native
RULE = 'coroutine programs (waiting for gates, bare yields, swallowing cancellations, cancelling themselves, returning, raising) with gates settled and cancellations at any moment, one handle at a time, against a reference automaton; distinct by content'
SEARCH_S = 6
import types as _t
@_t.coroutine
def bare(): yield
def cases(rng, part, parts):
    while True:
        prog = [[rng.choice(['wait', 'wait', 'bare', 'self', 'selfwith']), rng.randint(0, 1)] for _ in range(rng.randint(1, 5))]
        end = rng.choice(['return', 'return', 'raise', 'cancelled', 'kbd'])
        ops = []
        for _ in range(rng.randint(2, 14)):
            x = rng.random()
            ops.append(['turn', 1] if x < .45 else ['gate', rng.randint(0, 2)] if x < .7 else ['cancel'] if x < .83 else ['with', rng.randint(0, 1)] if x < .93 else ['set'])
        yield [prog, end, ops]
def check_case(case):
    prog, end, ops = case
    lp = FakeLoop(); gates = []; got = []; keep = []
    async def user():
        for k, (a, swallow) in enumerate(prog):
            try:
                if a == 'wait':
                    g = Future(lp); gates.append(g); await g
                elif a == 'bare': await bare()
                elif a == 'self': t.cancel()
                else: e = KeyError(k); keep.append(e); t.cancel_with(e)
            except CancelledError:
                got.append(('c', k))
                if not swallow: raise
            except ValueError:
                got.append(('v', k))
                if not swallow: raise
        if end == 'raise': raise IndexError
        if end == 'kbd': raise KeyboardInterrupt
        if end == 'cancelled': raise CancelledError
        return 7
    # reference: position, suspended on gate / ready, cancellation marked, outcome
    pos = 0; on = 'ready'; mark = False; outcome = None; exc = None; want = []
    def ref_step():
        nonlocal pos, on, mark, outcome
        thrown = None
        if mark: thrown, mark = 'c', False
        elif isinstance(on, tuple) and on[1] == 2: thrown = 'v'
        elif isinstance(on, tuple) and on[1] == 'c': thrown = 'c'
        if thrown and on == 'first': finish('e' if False else 'c'); return
        if on == 'first': pass
        elif thrown:
            want.append((thrown, pos))
            if not prog[pos][1]: finish(thrown); return
            pos += 1
        else: pos += 1
        while pos < len(prog):
            a = prog[pos][0]
            if a == 'wait':
                on = ('gate', None)
                return
            if a == 'bare': on = 'bare'; return
            mark = True
            if a == 'selfwith': setexc(('self', pos))
            pos += 1
        if end == 'raise': outcome = ('e', IndexError)
        elif end == 'kbd': outcome = ('e', KeyboardInterrupt)
        elif end == 'cancelled': outcome = ('c', exc)
        elif mark: outcome = ('c', exc)
        else: outcome = ('r', 7)
    def setexc(x):
        nonlocal exc
        exc = x
    def finish(thrown):
        nonlocal outcome
        outcome = ('c', exc) if thrown == 'c' else ('e', ValueError)
    on = 'first'
    t = Task(lp, user())
    done = []
    t.add_done_callback(done.append)
    def fail(m): return f'{m}; delivered {got}, expected {want}; {t!r}'
    ran_ready = True
    r = None
    for op in ops:
        if op[0] == 'turn':
            n = len(lp._ready)
            before = t.is_done()
            fn = lp._ready[0].func if n else None
            lp.turn(1)
            if fn is not None and fn != done.append and outcome is None:
                ref_step()
        elif op[0] == 'gate':
            if gates and not gates[-1].is_done():
                if op[1] == 2: gates[-1].set_exception(ValueError()); gates[-1].silence()
                else: gates[-1].set_result(op[1])
                if isinstance(on, tuple): on = ('gate', op[1])
        elif op[0] in ('cancel', 'with'):
            if op[0] == 'cancel': x = t.cancel()
            else:
                e = KeyError('w') if op[1] else KeyError
                x = t.cancel_with(e)
            if bool(x) != (outcome is None): r = fail(f'{op[0]} reported {x}')
            if outcome is None:
                mark = True
                if op[0] == 'with': exc = 'with'
        elif op[0] == 'set':
            try: t.set_result(1); r = fail('a result could be set')
            except RuntimeError: pass
        if r: break
        if t.is_done() != (outcome is not None): r = fail(f'done: {t.is_done()}, expected outcome {outcome}'); break
        if got != want: r = fail('cancellations'); break
        if lp.current_task is not None: r = fail('current_task stays set'); break
        if len(lp._ready) > 1: r = fail(f'{len(lp._ready)} continuations'); break
        waiting = isinstance(on, tuple) and on[1] is None and not mark and outcome is None
        if outcome is None and not waiting and not lp._ready: r = fail('not continued'); break
        if waiting and lp._ready: r = fail('runs while it waits'); break
    if not r and outcome is not None:
        lp.turn()
        if done != [t]: r = fail(f'told {len(done)} times')
        try: x = ('r', t.get_result())
        except BaseException as e: x = ('x', e)
        if outcome[0] == 'r': ok = x == ('r', 7)
        elif outcome[0] == 'e': ok = x[0] == 'x' and type(x[1]) is outcome[1]
        else: ok = x[0] == 'x' and type(x[1]) is (KeyError if outcome[1] else CancelledError)
        if not ok: r = fail(f'outcome {x}, expected {outcome}')
        if t.is_cancelled() != (outcome[0] == 'c'): r = fail('is_cancelled')
    t.silence(); t._callbacks.clear()
    for g in gates: g._callbacks.clear(); g.silence()
    lp._ready.clear()
    t._coroutine.close()
    return r
def shrink(case):
    prog, end, ops = case
    for k in range(len(ops)): yield [prog, end, ops[:k] + ops[k + 1:]]
    for k in range(len(prog)): yield [prog[:k] + prog[k + 1:], end, ops]
