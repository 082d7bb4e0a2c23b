"""C25: an event wakes every waiter when set and blocks while clear."""
from contracts.loops import *
from scarletio.core.traps.event import Event
from scarletio.core.traps.task import Task
from scarletio.core.exceptions import CancelledError
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: between two waits nothing else runs', 'a task waiting for a future goes on when the future is resolved or the task is cancelled (C21, C22)']
DESIGN = '''The flag and the list of waiters' futures are the state (invariant: no waiters while set). Waiting is proved, from every state, to return at once exactly
when set and else to queue its own new future and return only after that future was resolved; `set` is proved (loop invariant over any list of
waiters) to resolve each queued future exactly once, in order, and to queue none; `set` when set, `clear` and reading touch no future.'''
SO = z3.SeqSort(OBJ)
class FutI(Iface):
    name = 'future'
    def m_set_result_if_pending(self, ctx, o, v): ctx.ghost['resolved'] = z3.Concat(ctx.ghost['resolved'], z3.Unit(o.t)); return SInt(ctx.fresh('was_pending', I))
    def m_set_result(self, ctx, o, v): raise Unsupported('set_result on a future that can be done')
    def await_(self, ctx, o): return ctx.ghost['on_wait'](ctx, o)
    def m_is_done(self, ctx, o): return SBool(ctx.fresh('done', B))
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
FUT = FutI(); FC = ObjC(FUT)
def ws(c, e): return c.it.getattr(e, '_waiters').as_term(FC)
def val(c, e): return c.it.getattr(e, '_value')
def event(c):
    t = c.fresh('waiters', SO); v = c.bool('set')
    c.assume(z3.Implies(v.t, z3.Length(t) == 0))
    e = inst(c, Event, _loop=Opaque(c.fresh('loop', OBJ)), _value=v, _waiters=LList(c, seq=t, codec=FC))
    c.ghost['resolved'] = z3.Empty(SO)
    return e, t, v.t
@proof('a new event is clear, without waiters')
def _(c):
    lp = Opaque(c.fresh('loop', OBJ))
    r = attempt(c, Event, lp); no_raise(c, r)
    c.prove('clear', z3.And(z3.Not(truth(c, val(c, r.value))), bv(r.value.fields['_waiters'].items == [] and r.value.fields['_loop'] is lp)))
@proof('setting resolves every waiter exactly once, in order')
def _(c):
    e, t, v = event(c); g = c.ghost
    def hav(L): g['resolved'] = L.ctx.fresh('resolved', SO)
    def inv(L):
        if L.has('_i'):
            n = z3.Length(t); i = L._i
            return {'each once': g['resolved'] == z3.Extract(t, z3.IntVal(0), i), 'list': ws(L.ctx, e) == t}
        return {'each once': z3.Or(z3.Concat(g['resolved'], ws(L.ctx, e)) == t)}
    loop(c, 'set', 0, Loop(inv=inv, havoc=hav, dec=lambda L: z3.Length(t) - L._i if L.has('_i') else z3.Length(ws(L.ctx, e))))
    r = attempt(c, Event.set, e); no_raise(c, r)
    c.fact(z3.Extract(t, z3.IntVal(0), z3.Length(t)) == t)
    c.prove('set', truth(c, val(c, e)))
    c.prove('a set event stays as it is', z3.Implies(v, g['resolved'] == z3.Empty(SO)))
    c.prove('every waiter is resolved once, in order', g['resolved'] == t)
    c.prove('none is left', z3.Length(ws(c, e)) == 0)
@proof('clearing and reading touch no waiter')
def _(c):
    e, t, v = event(c); k = c.choose(2)
    r = attempt(c, (Event.clear, Event.is_set)[k], e); no_raise(c, r)
    c.prove('no waiter is touched', z3.And(ws(c, e) == t, c.ghost['resolved'] == z3.Empty(SO)))
    if k == 0: c.prove('clear', z3.Not(truth(c, val(c, e))))
    else: c.prove('is_set', z3.And(truth(c, r.value) == v, truth(c, val(c, e)) == v))
for name in ('wait', '__await__', '__iter__'):
    @proof(f'{name}: returns at once when set, else after its own future was resolved')
    def _(c, name=name):
        e, t, v = event(c); g = c.ghost
        def mk(ctx, *a, **k):
            h = ctx.fresh('own', OBJ); g.setdefault('own', []).append(h); return Opaque(h, FUT)
        use(c, Future, mk)
        def on_wait(ctx, o):
            own, = g['own']
            ctx.prove('waits only while clear', z3.Not(v))
            ctx.prove('for its own future, queued once behind the others', z3.And(o.t == own, ws(ctx, e) == z3.Concat(t, z3.Unit(own))))
            g['waited'] = g.get('waited', 0) + 1
            end = g['end'] = ctx.choose(2)
            t1 = ctx.fresh('waiters_then', SO); ctx.it.getattr(e, '_waiters').set_seq(t1); g['then'] = t1
            v1 = SBool(ctx.fresh('set_then', B)); ctx.it.setattr(e, '_value', v1); g['v1'] = v1.t
            if end == 0: return None
            x = g['exc'] = Inst(ctx, (CancelledError, GeneratorExit, ValueError)[ctx.choose(3)], {'args': ()})
            raise PyExc(x)
        g['on_wait'] = on_wait
        r = attempt(c, getattr(Event, name), e)
        if not g.get('waited'):
            no_raise(c, r); c.prove('at once only when set', v); c.prove('nothing is queued', z3.And(ws(c, e) == t, truth(c, val(c, e)) == v)); return
        c.prove('waits once', bv(g['waited'] == 1))
        own, = g['own']
        if g['end'] == 0: no_raise(c, r)
        else: c.prove('the exception goes through', bv(r.raised and r.exc is g['exc']))
        # the queue as it was then, at most its own future taken out
        now = ws(c, e)
        if not (z3.simplify(now).eq(z3.simplify(g['then']))):
            k = c.fresh('k', OBJ); c.assume(k != own)
            c.prove('no other waiter is taken out', z3.Contains(g['then'], z3.Unit(k)) == z3.Contains(now, z3.Unit(k)))
        c.prove('the flag stays, no one is resolved', z3.And(truth(c, val(c, e)) == g['v1'], g['resolved'] == z3.Empty(SO)))
# ---------------------------------------------------------------- native
RULE = 'tasks waiting / cancelled, setting, clearing, stepping one handle at a time; distinct by content'
SEARCH_S = 5
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(2, 16)):
            x = rng.random()
            ops.append(['wait', rng.randint(0, 1)] if x < .35 else ['set'] if x < .52 else ['clear'] if x < .67 else ['cancel', rng.randint(0, 7)] if x < .8 else ['turn', rng.choice([1, 1, 2, 99])])
        yield ops
def check_case(ops):
    lp = FakeLoop(); e = Event(lp); ref = False; tasks = []; log = {}; waiting = set(); due = {}; bad = []
    async def user(k, how):
        if ref: due[k] = True
        else: waiting.add(k)
        try:
            if how: await e.wait()
            else: await e
            log[k] = 'woken'
            if not due.get(k): bad.append(f'waiter {k} returned without the event being set')
        except CancelledError:
            log[k] = 'cancelled'; waiting.discard(k); raise
    for op in ops:
        if op[0] == 'wait': tasks.append(Task(lp, user(len(tasks), op[1])))
        elif op[0] == 'set':
            if not ref:
                for k in waiting: due[k] = True
                waiting.clear()
            ref = True; e.set()
        elif op[0] == 'clear': ref = False; e.clear()
        elif op[0] == 'cancel' and tasks:
            tasks[op[1] % len(tasks)].cancel()
        elif op[0] == 'turn': lp.turn(op[1])
        if bool(e.is_set()) != ref: bad.append(f'is_set is {e.is_set()}')
        if bad: return bad[0]
    lp.turn()
    for k, t in enumerate(tasks):
        if due.get(k) and not t.is_done(): bad.append(f'waiter {k} is not woken')
        if k in waiting and t.is_done(): bad.append(f'waiter {k} ended')
    if bad: return bad[0]
    ref = True; e.set()
    for k in waiting: due[k] = True
    lp.turn()
    if not all(t.is_done() for t in tasks): bad.append('a waiter is not woken by the last set')
    for t in tasks: t.silence(); t._callbacks.clear()
    return bad[0] if bad else None
def shrink(ops):
    for k in range(len(ops)): yield ops[:k] + ops[k + 1:]
