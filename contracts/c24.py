"""C24: locks exclude, hand over in order, and are always released."""
from contracts.loops import *
from scarletio.core.traps import locks as LK
from scarletio.core.traps.locks import Lock, ScarletLock
from scarletio.core.traps.task import Task
from scarletio.core.exceptions import CancelledError
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: between two waits nothing else runs', 'a task waiting for a future goes on when the future is resolved or the task is cancelled (C21, C22)']
DESIGN = '''The queue of futures F (oldest first), the number of holders H and the waiters w_1 .. w_W in order of arrival are the abstract state; invariant:
len(F) == H + W, H <= size, W > 0 only when H == size, and w_i waits for F[i-1]. Each method is proved on its body to make exactly one of three
moves on F: arrive (append own future; wait, for the right future, exactly when the lock is full), leave (take the oldest, resolve it) and give up (take
out the future waited for; when it is gone already - the lock was handed over - leave instead). Between waiting and going on F is arbitrary. That the moves
keep the invariant, let at most `size` in, and hand over in order is a lemma over the moves, for every F, every number of waiters and every position.'''
SO = z3.SeqSort(OBJ)
class FutI(Iface):
    name = 'future'
    def m_set_result_if_pending(self, ctx, o, v): ctx.ghost.setdefault('resolved', []).append(o); return SInt(ctx.fresh('was_pending', I))
    def m_set_result(self, ctx, o, v): raise Unsupported('set_result on a future that can be done')
    def await_(self, ctx, o): return ctx.ghost['on_wait'](ctx, o)
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
FUT = FutI(); FC = ObjC(FUT)
def q(c, l): return fld_(c, l).as_term(FC)
def fld_(c, l): return c.it.getattr(l, '_waiters')
def lock(c, cls):
    t = c.fresh('futures', SO)
    f = dict(_loop=Opaque(c.fresh('loop', OBJ)), _waiters=LList(c, seq=t, codec=FC, kind='deque'))
    size = z3.IntVal(1)
    if cls is ScarletLock:
        n = c.int('size'); c.assume(n.t >= 1); f['_size'] = n; size = n.t
    return inst(c, cls, **f), t, size
def new_future(c):
    def mk(ctx, *a, **k):
        h = ctx.fresh('own', OBJ); ctx.ghost.setdefault('own', []).append(h)
        return Opaque(h, FUT)
    use(c, Future, mk)
# the queue is kept newest first: index 0 is the newest
for cls in (Lock, ScarletLock):
    for name in ('__aenter__', 'acquire'):
        @proof(f'{cls.__name__}.{name}: arriving waits exactly when the lock is full, and giving up leaves the others alone')
        def _(c, cls=cls, name=name):
            l, t0, size = lock(c, cls); new_future(c); g = c.ghost
            n0 = z3.Length(t0)
            def on_wait(ctx, o):
                own, = g['own']
                now = q(ctx, l)
                ctx.prove('waits only when the lock is full', n0 >= size)
                ctx.prove('its own future is queued as the newest', now == z3.Concat(z3.Unit(own), t0))
                ctx.prove('waits for the future that frees a place for it', o.t == t0[size - 1])
                g['waited'] = g.get('waited', 0) + 1
                # meanwhile anything can happen to the queue
                end = ctx.choose(3)
                if end == 2:
                    # the future waited for is still queued, somewhere
                    pre, post = ctx.fresh('newer', SO), ctx.fresh('older', SO)
                    t1 = z3.Concat(pre, z3.Unit(o.t), post)
                    ctx.fact(z3.Not(z3.Contains(pre, z3.Unit(o.t)))); ctx.fact(z3.Not(z3.Contains(post, z3.Unit(o.t))))   # futures are distinct
                    g['want'] = z3.Concat(pre, post)
                else:
                    t1 = ctx.fresh('futures_then', SO)
                    ctx.fact(z3.Not(z3.Contains(t1, z3.Unit(o.t))))
                    ctx.fact(z3.Length(t1) > 0)                             # a holder's place is queued
                    g['want'] = t1
                fld_(ctx, l).set_seq(t1); g['then'] = t1; g['end'] = end
                if end == 0: return None
                e = g['exc'] = Inst(ctx, (CancelledError, GeneratorExit, ValueError)[ctx.choose(3)], {'args': ()})
                raise PyExc(e)
            g['on_wait'] = on_wait
            r = attempt(c, getattr(cls, name), l)
            own, = g['own']
            now = q(c, l); res = g.get('resolved', [])
            if not g.get('waited'):
                no_raise(c, r)
                c.prove('enters at once only when there is place', n0 < size)
                c.prove('its future is queued as the newest', z3.And(now == z3.Concat(z3.Unit(own), t0), bv(not res))); return
            c.prove('waits once', bv(g['waited'] == 1))
            if g['end'] == 0:
                no_raise(c, r); c.prove('the queue stays', z3.And(now == g['want'], bv(not res)))
                c.prove('the lock itself or nothing', bv(r.value is None or r.value is l))
            elif g['end'] == 2:
                c.prove('the exception goes through', bv(r.raised and r.exc is g['exc']))
                c.prove('gives up its place only', z3.And(now == g['want'], bv(not res)))
            else:
                c.prove('the exception goes through', bv(r.raised and r.exc is g['exc']))
                t1 = g['want']; k = z3.Length(t1)
                c.prove('passes the place on', z3.And(bv(len(res) == 1), now == z3.Extract(t1, 0, k - 1)))
                if res: c.prove('to the oldest waiter', res[0].t == t1[k - 1])

    for name in ('__aexit__', 'release'):
        @proof(f'{cls.__name__}.{name}: leaving frees the oldest place and wakes who waits for it')
        def _(c, cls=cls, name=name):
            l, t0, size = lock(c, cls); n = z3.Length(t0); c.assume(n > 0)
            args = [] if name == 'release' else [None, None, None] if c.choose(2) else [ValueError, Inst(c, ValueError, {'args': ()}), Opaque(c.fresh('tb', OBJ))]
            r = attempt(c, getattr(cls, name), l, *args); no_raise(c, r)
            res = c.ghost.get('resolved', [])
            c.prove('the oldest is taken and resolved once', z3.And(bv(len(res) == 1), q(c, l) == z3.Extract(t0, 0, n - 1), res[0].t == t0[n - 1] if res else z3.BoolVal(False)))
            if args: c.prove('an exception of the holder is not swallowed', z3.Not(truth(c, r.value)))

    @proof(f'{cls.__name__}: what it reports follows the queue')
    def _(c, cls=cls):
        l, t0, size = lock(c, cls); n = z3.Length(t0)
        r = attempt(c, cls.is_locked, l); no_raise(c, r)
        c.prove('locked exactly when no one could enter', truth(c, r.value) == (n >= size))
        if cls is ScarletLock:
            a = attempt(c, cls.get_acquired, l); w = attempt(c, cls.get_waiting, l); s = attempt(c, cls.get_size, l)
            for x in (a, w, s): no_raise(c, x)
            c.prove('holders', iterm(a.value) == z3.If(n < size, n, size)); c.prove('waiters', iterm(w.value) == z3.If(n < size, 0, n - size)); c.prove('size', iterm(s.value) == size)
        c.prove('a read', q(c, l) == t0)

    @proof(f'{cls.__name__}: a new lock is free')
    def _(c, cls=cls):
        lp = Opaque(c.fresh('loop', OBJ)); n = c.int('size')
        r = attempt(c, cls, lp, *([n] if cls is ScarletLock else []))
        if r.raised: c.prove('only positive sizes', z3.And(bv(cls is ScarletLock and r.is_a(ValueError)), n.t < 1)); return
        l = r.value
        c.prove('free', bv(fld_(c, l).items == [] and c.it.getattr(l, '_loop') is lp))
        if cls is ScarletLock: c.prove('of that size', z3.And(iterm(c.it.getattr(l, '_size')) == n.t, n.t >= 1))

@proof('the moves keep: every waiter waits for its own place, at most `size` are inside, first come first in')
def _(c):
    # F: futures oldest first, W waiters, T(i): what waiter i (0-based, in order of arrival) waits for
    A = z3.ArraySort(I, OBJ)
    F, T, n, h, w, size = c.fresh('F', A), c.fresh('T', A), c.fresh('n', I), c.fresh('holders', I), c.fresh('waiters', I), c.fresh('size', I)
    i = z3.Int('i')
    def inv(F, T, n, h, w):
        return z3.And(n == h + w, 0 <= w, 0 <= h, h <= size, z3.Implies(w > 0, h == size), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), T[i] == F[i])))
    c.assume(size >= 1); c.assume(inv(F, T, n, h, w))
    def parts(name, F, T, n, h, w):
        k = c.fresh('some', I)
        c.prove(f'{name}: counts', z3.And(n == h + w, 0 <= w, 0 <= h, h <= size, z3.Implies(w > 0, h == size)))
        c.prove(f'{name}: waits', z3.Implies(z3.And(0 <= k, k < w), T[k] == F[k]))
    f = c.fresh('own', OBJ)
    m = c.choose(3)
    if m == 0:      # arrive: own future is the newest; newest-first index size-1 of the queue before is oldest-first index n-size
        c.cover('arrive')
        if c.branch(n < size): parts('entering', z3.Store(F, n, f), T, n + 1, h + 1, w); c.prove('there was place', h < size)
        else: parts('queueing', z3.Store(F, n, f), z3.Store(T, w, F[n - size]), n + 1, h, w + 1)
    elif m == 1:    # leave: F loses its oldest, which is resolved: the first waiter (it waited for it) becomes a holder
        c.assume(h > 0)
        sh = lambda A_: z3.Lambda([i], A_[i + 1])
        if c.branch(w > 0):
            c.prove('the first waiter is the one woken', T[0] == F[0])
            parts('handing over', sh(F), sh(T), n - 1, h, w - 1)
        else: parts('leaving', sh(F), T, n - 1, h - 1, w)
    else:           # waiter j gives up: its future leaves F
        j = c.fresh('j', I); c.assume(z3.And(0 <= j, j < w))
        rm = lambda A_: z3.Lambda([i], z3.If(i < j, A_[i], A_[i + 1]))
        parts('giving up', rm(F), rm(T), n - 1, h, w - 1)

# ---------------------------------------------------------------- native
RULE = 'tasks entering / leaving (also by exception) / cancelled at any moment on locks of size 1-3, stepped one handle at a time; distinct by content'
SEARCH_S = 6
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(2, 16)):
            x = rng.random()
            ops.append(['new'] if x < .4 else ['leave', rng.randint(0, 5), rng.choice([0, 0, 1])] if x < .62 else ['cancel', rng.randint(0, 7)] if x < .78 else ['turn', rng.choice([1, 1, 2, 9])] if x < .97 else ['turn', 99])
        yield [rng.choice([0, 0, 1, 2, 3]), rng.randint(0, 1), ops]
def check_case(case):
    size, how, ops = case
    lp = FakeLoop(); l = ScarletLock(lp, size) if size else Lock(lp); cap = size or 1
    inside = []; entered = []; tasks = []; gates = []; bad = []; started = []; began = {}; waited = []
    async def user(k):
        started.append(k); began[k] = lp.steps
        if how:
            await l.acquire()
            try:
                await body(k)
            finally: l.release()
        else:
            async with l: await body(k)
    async def body(k):
        inside.append(k); entered.append(k)
        if began[k] != lp.steps: waited.append(k)
        if len(inside) > cap: bad.append(f'{len(inside)} inside')
        try: await gates[k]
        finally: inside.remove(k)
    def expect_order():
        ks = waited if cap > 1 else entered      # with several places one may come free while a waiter let in has not run yet
        pos = [started.index(k) for k in ks]
        return pos == sorted(pos)
    for op in ops:
        if op[0] == 'new':
            gates.append(Future(lp)); tasks.append(Task(lp, user(len(tasks))))
        elif op[0] == 'leave' and inside:
            k = inside[op[1] % len(inside)]
            gates[k].set_exception_if_pending(ValueError()) if op[2] else gates[k].set_result_if_pending(None)
        elif op[0] == 'cancel' and tasks: tasks[op[1] % len(tasks)].cancel()
        elif op[0] == 'turn': lp.turn(op[1])
        if bad: return bad[0]
    lp.turn()
    r = None
    if not expect_order(): r = f'entered {entered}, arrived {started}'
    open_ = [k for k, t in enumerate(tasks) if not t.is_done()]
    if len(inside) != min(cap, len(open_)): r = f'{len(inside)} inside while {len(open_)} want in (places: {cap})'
    if l.is_locked() != (len(inside) >= cap): r = f'is_locked {l.is_locked()} with {len(inside)} inside'
    if size and (l.get_acquired() != len(inside) or l.get_waiting() != len(open_) - len(inside)): r = 'get_acquired / get_waiting'
    # drain: everybody gets in and out
    for _ in range(len(tasks) + 2):
        for k in list(inside): gates[k].set_result_if_pending(None)
        lp.turn()
    stuck = [k for k, t in enumerate(tasks) if not t.is_done()]
    if stuck: r = r or f'waiters {stuck} never enter'
    if not expect_order(): r = r or f'entered {entered}, arrived {started}'
    if not r and l.is_locked(): r = 'locked without a holder'
    for t in tasks: t.silence(); t._callbacks.clear(); t._coroutine.close() if t.is_done() else None
    for f in list(l._waiters): f._callbacks.clear(); f.silence()
    for f in gates: f._callbacks.clear(); f.silence()
    return r or (bad[0] if bad else None)
def shrink(case):
    size, how, ops = case
    for k in range(len(ops)): yield [size, how, ops[:k] + ops[k + 1:]]
