"""C27: scheduled calls run once, in order, never early, never if cancelled."""
from contracts.loops import *
import heapq
from scarletio.core.event_loop import event_loop as EL
from scarletio.core.event_loop.handles import Handle, TimerHandle, TimerWeakHandle
from scarletio.core.time import LOOP_TIME, LOOP_TIME_RESOLUTION
PROOFS, proof = proof_registry()
TRUSTED = ['heapq: the first element of the heap is a least one, heappop takes exactly it out', 'the selector reports registered keys, and select(t) waits at most t', 'the clock never goes back; one thread runs the loop',
    'write_exception_async does not raise']
DESIGN = '''`EventThread.runner` itself is verified, all four loops with invariants, for any ready queue, any heap of timers and any behaviour of the calls it
runs (a call may schedule more, cancel anything, stop the loop). Obligations sit at the places where the loop acts: a handle taken from the queue is run
exactly once unless cancelled, and only then; a timer enters the ready queue only if it is the least of the heap, due (up to the clock resolution) and not
cancelled, exactly once, and no due timer is left behind; the selector is never told to sleep past ready work or the next timer. Handles are proved to
call once and to swallow and report every exception, cancelling to be permanent, and each scheduling method to put exactly one right handle in.'''
SO = z3.SeqSort(OBJ)
WHEN = z3.Function('due_time', OBJ, REAL)
AB = z3.ArraySort(OBJ, B)
RES = z3.RealVal(repr(LOOP_TIME_RESOLUTION))

class HI(Iface):
    name = 'handle'
    def get_cancelled(self, ctx, o): return SBool(z3.Select(ctx.ghost['canc'], o.t))
    def get_when(self, ctx, o): return SReal(WHEN(o.t))
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
    def m__run(self, ctx, o):
        g = ctx.ghost
        ctx.prove('a cancelled call is not run', z3.Not(z3.Select(g['canc'], o.t)))
        mine = [k for k in g['taken'] if z3.is_true(z3.simplify(k[0] == o.t))]
        ctx.prove('only a call just taken from the ready queue is run', bv(len(mine) == 1))
        for k in mine: k[2] += 1
        # the call may schedule, cancel, stop
        g['ready'] = z3.Concat(g['ready'], ctx.fresh('scheduled_meanwhile', SO))
        c1 = ctx.fresh('cancelled_then', AB); x = z3.Const('x', OBJ)
        ctx.fact(z3.ForAll([x], z3.Implies(z3.Select(g['canc'], x), z3.Select(c1, x)), patterns=[z3.Select(c1, x)]))
        g['canc'] = c1
        new_heap(ctx)
H = HI()
def new_heap(ctx):
    g = ctx.ghost; g['n'] = ctx.fresh('timers', I); ctx.fact(g['n'] >= 0); g['min'] = ctx.fresh('first_timer', OBJ)
class ReadyI(Iface):
    name = 'ready queue'
    def truthy(self, ctx, o): return z3.Length(ctx.ghost['ready']) > 0
    def len_(self, ctx, o): return mkint(z3.Length(ctx.ghost['ready']))
    def m_append(self, ctx, o, h):
        g = ctx.ghost
        ctx.prove('a cancelled call is not made ready', z3.Not(z3.Select(g['canc'], h.t)))
        if g.get('io') is not None:
            k, mask = g['io']
            isr = [w for w, t in (('r', READER(k)), ('w', WRITER(k))) if z3.is_true(z3.simplify(t == h.t))]
            ctx.prove('a reader or writer of the ready socket', bv(len(isr) == 1))
        else:
            ctx.prove('a timer is made ready not before it is due', WHEN(h.t) < g['now'] + RES)
            ctx.prove('the least timer, and once', z3.And(bv(g['moved'] is None), h.t == g['first']))
            g['moved'] = h.t
        g['ready'] = z3.Concat(g['ready'], z3.Unit(h.t))
    def m_popleft(self, ctx, o):
        g = ctx.ghost; t = g['ready']
        if not ctx.branch(z3.Length(t) > 0): ctx.it.raise_(IndexError, 'empty')
        e, rest = ctx.fresh('taken', OBJ), ctx.fresh('rest', SO)
        ctx.pc.append(t == z3.Concat(z3.Unit(e), rest)); g['ready'] = rest
        g['taken'].append([e, z3.Select(g['canc'], e), 0])
        return Opaque(e, H)
    def m_clear(self, ctx, o): raise Unsupported('clearing the ready queue')
class SchedI(Iface):
    name = 'timers'
    def truthy(self, ctx, o): return ctx.ghost['n'] > 0
    def getitem(self, ctx, o, k):
        if k != 0: raise Unsupported('timer index')
        ctx.prove('there is a first timer', ctx.ghost['n'] > 0)
        return Opaque(ctx.ghost['min'], H)
class KeyI(Iface):
    name = 'selector key'
    def get_fileobj(self, ctx, o): return Opaque(FILEOBJ(o.t))
    def get_data(self, ctx, o):
        r = Opaque(READER(o.t), H) if ctx.branch(HASR(o.t)) else None
        w = Opaque(WRITER(o.t), H) if ctx.branch(HASW(o.t)) else None
        ctx.fact(READER(o.t) != WRITER(o.t))
        ctx.ghost['io'] = (o.t, None)
        return (r, w)
READER = z3.Function('reader_of', OBJ, OBJ); WRITER = z3.Function('writer_of', OBJ, OBJ); HASR = z3.Function('has_reader', OBJ, B); HASW = z3.Function('has_writer', OBJ, B); FILEOBJ = z3.Function('file_of', OBJ, OBJ)
KEYC = TupleC([ObjC(KeyI()), IntC])
class SelI(Iface):
    name = 'selector'
    def m_select(self, ctx, o, timeout=None):
        g = ctx.ghost
        empty_r, n = z3.Length(g['ready']) == 0, g['n']
        ctx.prove('every due timer that is not cancelled was made ready', z3.Implies(n > 0, WHEN(g['min']) >= g['pass'] + RES))
        if timeout is None: ctx.prove('sleeps without limit only when there is nothing to do', z3.And(empty_r, n == 0))
        else:
            t = timeout.t if isinstance(timeout, SReal) else z3.RealVal(repr(timeout)) if isinstance(timeout, float) else z3.ToReal(iterm(timeout))
            ctx.prove('never sleeps while calls are ready', z3.Implies(z3.Not(empty_r), t <= 0))
            ctx.prove('never sleeps past the next timer', z3.Implies(n > 0, t <= WHEN(g['min']) - g['now']))
        return LList(ctx, seq=ctx.fresh('events', z3.SeqSort(KEYC.sort)), codec=KEYC)
class CtxI(Iface):
    name = 'loop context'
    def m___enter__(self, ctx, o): return None
    def m___exit__(self, ctx, o, *a): return False
class ElI(Iface):
    name = 'event loop'
    def get_context(self, ctx, o): return Opaque(ctx.fresh('context', OBJ), CtxI())
    def get__ready(self, ctx, o): return ctx.ghost['ready_o']
    def get__scheduled(self, ctx, o): return ctx.ghost['sched_o']
    def get_selector(self, ctx, o): return Opaque(ctx.fresh('selector', OBJ), SelI())
    def get_should_run(self, ctx, o): return SBool(ctx.fresh('should_run', B))
    def m_remove_reader(self, ctx, o, f): return SBool(ctx.fresh('removed', B))
    def m_remove_writer(self, ctx, o, f): return SBool(ctx.fresh('removed', B))

@proof('the runner runs every ready call once, timers when due, and nothing cancelled', budget=200)
def _(c):
    g = c.ghost
    g.update(ready=c.fresh('ready', SO), canc=c.fresh('cancelled', AB), taken=[], moved=None, first=None, popped=None, now=c.fresh('now', REAL), io=None)
    g['pass'] = g['now']
    new_heap(c)
    g['ready_o'] = Opaque(c.fresh('ready', OBJ), ReadyI()); g['sched_o'] = Opaque(c.fresh('scheduled', OBJ), SchedI())
    def clock(ctx):
        t = ctx.fresh('time', REAL); ctx.fact(t >= g['now']); g['now'] = t; return SReal(t)
    use(c, LOOP_TIME, clock)
    def pop(ctx, heap):
        ctx.prove('the timers are popped', bv(heap is g['sched_o'])); ctx.prove('there is a timer', g['n'] > 0)
        h = g['min']; g['popped'] = (h, z3.Select(g['canc'], h))
        m = ctx.fresh('first_timer', OBJ); ctx.fact(WHEN(m) >= WHEN(h)); g['min'] = m; g['n'] = g['n'] - 1
        return Opaque(h, H)
    use(c, heapq.heappop, pop)
    def all_taken(g): return z3.And(*[z3.If(k[1], bv(k[2] == 0), bv(k[2] == 1)) for k in g['taken']]) if g['taken'] else z3.BoolVal(True)
    def fresh_all(ctx):
        g['ready'] = ctx.fresh('ready', SO); g['canc'] = ctx.fresh('cancelled', AB); g['now'] = ctx.fresh('now', REAL); g['taken'] = []; g['moved'] = g['popped'] = g['first'] = None; g['io'] = None
        g['pass'] = ctx.fresh('pass', REAL); new_heap(ctx)
    def h_pass(L): fresh_all(L.ctx)
    loop(c, 'runner', 0, Loop(inv=lambda L: {'every call taken was run once unless cancelled': all_taken(g)}, havoc=h_pass))
    def h_timer(L):
        ctx = L.ctx; g['ready'] = ctx.fresh('ready', SO); g['moved'] = g['popped'] = None; new_heap(ctx); g['first'] = g['min']
        g['pass'] = g['now']
    def timer_ok(L):
        p, m = g['popped'], g['moved']
        t = L.t('timeout') if not isinstance(L.get('timeout'), float) else z3.RealVal(repr(L.get('timeout')))
        d = {'the pass began at a time not later than now': z3.And(t == g['now'] + RES), 'each timer taken out is made ready, unless cancelled': z3.BoolVal(True)}
        if p is not None: d['each timer taken out is made ready, unless cancelled'] = z3.If(p[1], bv(m is None), bv(m is not None) if m is None else m == p[0])
        elif m is not None: d['each timer taken out is made ready, unless cancelled'] = z3.BoolVal(False)
        return d
    loop(c, 'runner', 1, Loop(inv=timer_ok, havoc=h_timer, on_entry=lambda L: g.update(first=g['min']), at_exit=lambda L: g.update(moved=None, popped=None), dec=lambda L: g['n']))
    def h_io(L): g['ready'] = L.ctx.fresh('ready', SO); g['io'] = None
    loop(c, 'runner', 2, Loop(inv=lambda L: {}, havoc=h_io))
    def h_run(L):
        ctx = L.ctx; g['io'] = None; g['ready'] = ctx.fresh('ready', SO); g['canc'] = ctx.fresh('cancelled', AB); g['taken'] = []; new_heap(ctx)
    loop(c, 'runner', 3, Loop(inv=lambda L: {'every call taken was run once unless cancelled': all_taken(g)}, havoc=h_run))
    r = attempt(c, EventThread.runner, Opaque(c.fresh('loop', OBJ), ElI()))
    no_raise(c, r)

class FnI(Iface):
    name = 'function'
    def call(self, ctx, o, args, kwargs):
        g = ctx.ghost; g.setdefault('called', []).append((o, tuple(args), kwargs))
        k = ctx.choose(5)
        if k: raise PyExc(Inst(ctx, (ValueError, KeyboardInterrupt, GeneratorExit, StopIteration)[k - 1], {'args': ()}))
FN = FnI()
@proof('a handle calls its function once, and no exception of it gets out')
def _(c):
    f = Opaque(c.fresh('f', OBJ), FN); a = tuple(Opaque(c.fresh('a', OBJ)) for _ in range(c.choose(3)))
    rep = []
    use(c, HANDLES.write_exception_async, lambda ctx, e, *x, **k: rep.append(e))
    h = inst(c, Handle, func=f, args=a, cancelled=False) if c.choose(2) else inst(c, TimerHandle, func=f, args=a, cancelled=False, when=c.real('when'))
    r = attempt(c, Handle._run, h); no_raise(c, r)
    cl = c.ghost.get('called', [])
    c.prove('called once with its arguments', bv(len(cl) == 1 and cl[0][0] is f and len(cl[0][1]) == len(a) and all(x is y for x, y in zip(cl[0][1], a)) and not cl[0][2]))

@proof('cancelling a handle is permanent and idempotent')
def _(c):
    k = bool(c.choose(2)); f = Opaque(c.fresh('f', OBJ), FN)
    h = inst(c, Handle, func=None if k else f, args=None if k else (), cancelled=k)
    r = attempt(c, Handle.cancel, h); no_raise(c, r)
    c.prove('cancelled, lets go of the function, calls nothing', z3.And(truth(c, c.it.getattr(h, 'cancelled')), bv(c.it.getattr(h, 'func') is None and c.it.getattr(h, 'args') is None and not c.ghost.get('called'))))

@proof('timers compare by due time')
def _(c):
    x, y = c.real('x'), c.real('y')
    f = Opaque(c.fresh('f', OBJ), FN)
    a = inst(c, TimerHandle, func=f, args=(), cancelled=False, when=x); b = inst(c, TimerHandle, func=f, args=(), cancelled=False, when=y)
    for m, want in (('__lt__', x.t < y.t), ('__gt__', x.t > y.t)):
        r = attempt(c, getattr(TimerHandle, m), a, b); no_raise(c, r); c.prove(m, truth(c, r.value) == want)

for m in ('call_soon', 'call_soon_thread_safe', 'call_soon_thread_safe_lazy', 'call_at', 'call_after', 'call_at_weak', 'call_after_weak'):
    @proof(f'{m} schedules exactly one call, unless the loop is stopped')
    def _(c, m=m):
        g = c.ghost
        running, startable = bool(c.choose(2)), bool(c.choose(2))
        started = bool(c.choose(2)) if m.endswith('lazy') else startable
        q, s, woken = [], [], []
        class QI(Iface):
            name = 'ready queue'
            def m_append(self, ctx, o, h): q.append(h)
        class LI(Iface):
            name = 'event loop'
            def get_running(self, ctx, o): return running
            def get_should_run(self, ctx, o): return startable
            def m__maybe_start(self, ctx, o): return startable
            def m_is_started(self, ctx, o): return started
            def m_wake_up(self, ctx, o): woken.append(len(q))
            def get__ready(self, ctx, o): return Opaque(ctx.fresh('ready', OBJ), QI())
            def get__scheduled(self, ctx, o): return g['sched']
        g['sched'] = Opaque(c.fresh('timers', OBJ))
        use(c, heapq.heappush, lambda ctx, heap, h: s.append((heap, h)))
        now = c.real('now'); use(c, LOOP_TIME, lambda ctx: now)
        f = Opaque(c.fresh('f', OBJ), FN); a = tuple(Opaque(c.fresh('a', OBJ)) for _ in range(c.choose(3)))
        if 'weak' in m: use(c, TimerWeakHandle, lambda ctx, w, fn, ar: Inst(ctx, TimerWeakHandle, {'when': w, 'func': fn, 'args': ar, 'cancelled': False}))
        t = c.real('t')
        timer = not m.startswith('call_soon')
        r = attempt(c, getattr(EventThread, m), Opaque(c.fresh('loop', OBJ), LI()), *([t] if timer else []), f, *a); no_raise(c, r)
        can = running or startable or (m.endswith('lazy') and started)
        c.prove('nothing is called yet', bv(not g.get('called')))
        if not can: c.prove('nothing is scheduled on a stopped loop', bv(r.value is None and not q and not s)); return
        h = r.value
        c.prove('exactly one handle, the returned one', bv(isinstance(h, Inst) and ((len(s) == 1 and not q and s[0][0] is g['sched'] and s[0][1] is h) if timer else (len(q) == 1 and not s and q[0] is h))))
        fa = c.it.getattr(h, 'args')
        c.prove('of this call, not cancelled', z3.And(z3.Not(truth(c, c.it.getattr(h, 'cancelled'))), bv(c.it.getattr(h, 'func') is f and isinstance(fa, tuple) and len(fa) == len(a) and all(x is y for x, y in zip(fa, a)))))
        if timer: c.prove('due at the asked time', eqv(c, c.it.getattr(h, 'when'), t if '_at' in m else SReal(now.t + t.t)))
        if 'thread_safe' in m: c.prove('the loop is woken after the call is queued', bv(woken == [1] if not m.endswith('lazy') or running or started else not woken))

# ---------------------------------------------------------------- native
RULE = 'programs of calls that schedule soon / at / after, cancel each other, raise and stop, run by the real runner on virtual time; distinct by content'
SEARCH_S = 6
class Runner(FakeLoop):
    runner = EventThread.runner
    def __init__(self): super().__init__(); self.selector = self; self.context = self; self.slept = []; self.woken = 0; self.idle = None
    def __enter__(self): return self
    def __exit__(self, *a): return False
    call_soon_thread_safe = EventThread.call_soon_thread_safe
    call_soon_thread_safe_lazy = EventThread.call_soon_thread_safe_lazy
    call_after = EventThread.call_after
    def wake_up(self): self.woken += 1
    def is_started(self): return True
    def stop(self): self.should_run = False
    def select(self, timeout):
        self.slept.append(timeout)
        if timeout is None: self.should_run = False
        elif timeout > 0: self.now += timeout
        elif timeout < 0: pass
        return []
def cases(rng, part, parts):
    n = 8
    while True:
        prog = []
        for k in range(rng.randint(1, n)):
            acts = []
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                x = rng.random()
                acts.append(['soon', rng.randint(0, n)] if x < .35 else ['after', rng.choice([0, 1, 1, 2, 3, 0.5, -1]), rng.randint(0, n)] if x < .6 else ['at', rng.choice([0, 1, 2, 3, 4]), rng.randint(0, n)] if x < .7 else ['cancel', rng.randint(0, 2 * n)] if x < .88 else ['raise', rng.randint(0, 2)])
            prog.append(acts)
        yield prog
def check_case(prog):
    lp = Runner(); handles = []; log = []; bad = []; seq = [0]
    limit = 40
    raised = [0]; reported = []
    def act(k, acts):
        for a in acts:
            if a[0] in ('soon', 'after', 'at'):
                if len(handles) >= limit: continue
                j = len(handles); i = a[-1]
                if i >= len(prog): continue
                rec = {'kind': a[0], 'born': lp.now, 'runs': 0, 'cancelled': False, 'due': None, 'prog': prog[i]}
                handles.append(rec)
                if a[0] == 'soon': rec['h'] = (lp.call_soon, lp.call_soon_thread_safe, lp.call_soon_thread_safe_lazy)[j % 3](call, j)
                elif a[0] == 'after': rec['due'] = lp.now + a[1]; rec['h'] = lp.call_after(a[1], call, j)
                else: rec['due'] = a[1]; rec['h'] = lp.call_at(a[1], call, j)
            elif a[0] == 'cancel':
                j = a[1]
                if j < len(handles) and 'h' in handles[j]: handles[j]['cancelled'] = handles[j]['cancelled'] or True; handles[j]['h'].cancel()
            else:
                raised[0] += 1
                raise (ValueError, KeyboardInterrupt, SystemExit)[a[1]]()
    def call(j):
        rec = handles[j]
        rec['runs'] += 1; log.append(j)
        if rec['runs'] > 1: bad.append(f'call {j} runs twice')
        if rec['cancelled']: bad.append(f'call {j} runs although cancelled')
        if rec['due'] is not None and lp.now + 1e-6 < rec['due']: bad.append(f'call {j} runs at {lp.now}, due {rec["due"]}')
        if rec['due'] is not None and lp.now > max(rec['due'], rec['born']) + 1e-6: bad.append(f'call {j} runs late: at {lp.now}, due {rec["due"]}')
        act(j, rec['prog'])
    saved = EL.LOOP_TIME, HANDLES.write_exception_async
    EL.LOOP_TIME = lambda: lp.now
    HANDLES.write_exception_async = lambda e, *a, **k: reported.append(e)
    # the class methods read the module global, the runner too
    try:
        try: act(-1, [['soon', k % len(prog)] for k in range(len(prog))] + [['after', k, k % len(prog)] for k in (2, 1)])
        except BaseException as e: return None
        n = 0
        while True:
            lp.should_run = True
            lp.runner()
            n += 1
            if not lp._ready and not lp._scheduled or n > 50: break
    except BaseException as e:
        if type(e).__name__ == 'CaseTimeout': raise
        return f'the loop stopped: {e!r}'
    finally: EL.LOOP_TIME, HANDLES.write_exception_async = saved
    if bad: return bad[0]
    for j, rec in enumerate(handles):
        if not rec['cancelled'] and rec['runs'] != 1: return f'call {j} ran {rec["runs"]} times'
    soon = [j for j in log if handles[j]['kind'] == 'soon']
    if soon != sorted(soon): return f'calls ran in order {soon}'
    first = [j for j in log if handles[j]['due'] is not None and handles[j]['born'] == 0]
    d = [handles[j]['due'] for j in first if handles[j]['due'] > 0]
    if d != sorted(d): return f'timers ran in due order {d}'
    if len(reported) != raised[0]: return f'{raised[0]} exceptions, {len(reported)} reported'
    return None
def shrink(prog):
    for k in range(len(prog)): yield prog[:k] + prog[k + 1:]
    for k in range(len(prog)):
        for j in range(len(prog[k])): yield prog[:k] + [prog[k][:j] + prog[k][j + 1:]] + prog[k + 1:]
