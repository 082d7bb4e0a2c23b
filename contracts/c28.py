"""C28: a task group accounts for every future exactly once."""
from contracts.loops import *
from scarletio.core.traps import task_group as TG
from scarletio.core.traps.task_group import TaskGroup
from scarletio.core.traps.task import Task
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: between two waits nothing else runs', 'a future runs each of its callbacks exactly once, when it is finished (C21)', 'sets and dictionaries keep what is put in', 'a generator which waits gets what is sent to it',
    'nobody but the group changes its sets while a callback runs']
DESIGN = '''The two sets are functions on futures with a size. Over every such state each operation of the group is proved on its body: a finished future is moved from pending
to done, offered to every request still waiting - each exactly once, finished ones not at all - and afterwards is either in done or was handed to exactly one popping
request. The loop over the requests (any number) carries this for an arbitrary request and counts the takers; a request's handler is known there by its contract:
it waits on, or gives a result, and takes only what is still in done. Each handler is proved against that contract and its own condition: it is run on its body from
an arbitrary group, an environment changing the group at each wait, and answers at once when its condition holds, else at the first notice which makes it hold.'''
SB = z3.ArraySort(OBJ, B)
KINDS = (RETURN, RAISE, CANCELLED, CANCELLED | RAISE, RAISE | RETRIEVED, RETURN | SILENCED)
KIND = z3.Function('outcome_of', OBJ, I); FUTDONE = z3.Function('future_done', OBJ, B)
def kind_in(x, flag): return z3.Or(*[KIND(x) == k for k, s in enumerate(KINDS) if s & flag])
class FutI(Iface):
    name = 'future'
    typed = True
    def get__state(self, ctx, o):
        k = ctx.choose(len(KINDS)); ctx.assume(KIND(o.t) == k, FUTDONE(o.t)); return KINDS[k]
    def m_is_done(self, ctx, o): return SBool(FUTDONE(o.t))
    def m_is_pending(self, ctx, o): return SBool(z3.Not(FUTDONE(o.t)))
    def m_add_done_callback(self, ctx, o, cb):
        ctx.prove('only unfinished futures get a callback', z3.Not(FUTDONE(o.t))); ctx.ghost.setdefault('called back', []).append((o, cb)); return 1
    def m_cancel(self, ctx, o): ctx.ghost['cancelled'] = z3.Store(ctx.ghost['cancelled'], o.t, z3.BoolVal(True)); return 1
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
FUT = FutI()
class SetI(Iface):
    """one of the two sets: g[key] membership, g[key + ' n'] size"""
    name = 'set of futures'
    types = (set,)
    def key(self, o): return o.extra['key']
    def has(self, ctx, o, t):
        k = self.key(o); h = z3.Select(ctx.ghost[k], t); ctx.fact(z3.Implies(h, ctx.ghost[k + ' n'] > 0)); return h
    def contains(self, ctx, o, x): return self.has(ctx, o, x.t)
    def truthy(self, ctx, o): return ctx.ghost[self.key(o) + ' n'] > 0
    def len_(self, ctx, o): return SInt(ctx.ghost[self.key(o) + ' n'])
    def put(self, ctx, o, t, v):
        k = self.key(o)
        if k == 's1' and v: ctx.prove('only unfinished futures are pending at first', z3.Not(FUTDONE(t)))
        h = self.has(ctx, o, t); g = ctx.ghost; n = g[k + ' n']
        g[k + ' n'] = z3.If(h == v, n, n + 1 if v else n - 1); g[k] = z3.Store(g[k], t, z3.BoolVal(v))
    def m_add(self, ctx, o, x): self.put(ctx, o, x.t, True)
    def m_discard(self, ctx, o, x): self.put(ctx, o, x.t, False)
    def m_remove(self, ctx, o, x):
        if not ctx.branch(self.has(ctx, o, x.t)): raise PyExc(Inst(ctx, KeyError, {'args': ()}))
        self.put(ctx, o, x.t, False)
    def m_pop(self, ctx, o):
        k = self.key(o); g = ctx.ghost
        if not ctx.branch(g[k + ' n'] > 0): raise PyExc(Inst(ctx, KeyError, {'args': ()}))
        x = ctx.fresh('popped', OBJ); ctx.assume(z3.Select(g[k], x)); g.setdefault('popped', []).append((k, x)); self.put(ctx, o, x, False); return Opaque(x, FUT)
    def symiter(self, ctx, o):
        """its members, each once; WHERE gives a member's place"""
        k = self.key(o); g = ctx.ghost; n = g[k + ' n']; h0 = g[k]; at = z3.Function(k + '_at', I, OBJ); where = z3.Function(k + '_place', OBJ, I); g['iterated'] = k
        w = g['witness']; ctx.fact(z3.Implies(z3.Select(h0, w), z3.And(0 <= where(w), where(w) < n, at(where(w)) == w)))
        def get(i):
            if k == 's1': ctx.fact(z3.Implies(z3.And(0 <= i, i < n), z3.Not(FUTDONE(at(i)))))
            ctx.fact(z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(h0, at(i)), where(at(i)) == i))); return Opaque(at(i), FUT)
        return SymIter(n, get)
SETI = SetI()
def place(c, k): return z3.Function(k + '_place', OBJ, I)(c.ghost['witness'])
def group(c, **fields):
    g = c.ghost
    for k in ('done', 'pending'): g[k] = c.fresh(k, SB); g[k + ' n'] = c.fresh(k + '_n', I); c.assume(g[k + ' n'] >= 0)
    g['witness'] = c.fresh('some_future', OBJ); g['cancelled'] = c.fresh('cancelled', SB)
    sets = {}
    for k in ('done', 'pending'): sets[k] = Opaque(c.fresh(k + '_set', OBJ), SETI); sets[k].extra['key'] = k
    x = g['witness']; c.assume(z3.Not(z3.And(z3.Select(g['done'], x), z3.Select(g['pending'], x))))
    t = inst(c, TaskGroup, loop=Opaque(c.fresh('loop', OBJ), LOOPI), **{**sets, 'waiters': Opaque(c.fresh('waiters', OBJ), WAITERS), **fields})
    g['group'] = t
    return t
class LoopI(Iface):
    name = 'loop'
    def m_ensure_future(self, ctx, o, x): ctx.ghost['asked'].append(x); return ctx.ghost['ensured']
LOOPI = LoopI()

# ---- requests: the group's side
WAITER_AT = z3.Function('waiter_at', I, OBJ); HANDLER_AT = z3.Function('handler_at', I, OBJ)
WAITS = z3.Function('still_waiting', OBJ, B)
class WaiterI(Iface):
    name = 'waiting request'
    def m_is_done(self, ctx, o): return SBool(z3.Or(z3.Not(WAITS(o.t)), z3.And(ctx.ghost['answered'], o.t == WAITER_AT(ctx.ghost['k']))))
    def m_is_pending(self, ctx, o): return SBool(z3.Not(self.m_is_done(ctx, o).t))
    def answer(self, ctx, o, how, v):
        g = ctx.ghost; a = g.get('answer')
        ctx.prove('a request is answered by its handler', bv(a is not None and a[0] == how) if a is None or a[1] is not v and not isinstance(v, Opaque) else z3.And(bv(a[0] == how), o.t == WAITER_AT(a[2]), eqv(ctx, a[1], v)))
        hit = ctx.branch(WAITS(o.t))
        if hit:
            if a[3]: g['handed'] = g['handed'] + 1
            g['answered'] = z3.Or(g['answered'], o.t == WAITER_AT(g['k']))
        g['answer'] = None
        return 1 if hit else 0
    def m_set_result_if_pending(self, ctx, o, v): return self.answer(ctx, o, 'result', v)
    def m_set_exception_if_pending(self, ctx, o, e): return self.answer(ctx, o, 'exception', e)
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
WAITER = WaiterI()
class HandlerI(Iface):
    """what every handler does with a notice: waits on, or ends with a result; takes only what is still among the done ones"""
    name = 'handler'
    def m_send(self, ctx, o, f):
        g = ctx.ghost; fut = g['future']; i = g['at']
        ctx.prove('every handler is told about this future', bv(isinstance(f, Opaque)) if not isinstance(f, Opaque) else f.t == fut)
        ctx.prove('its own handler', o.t == HANDLER_AT(i))
        ctx.prove('only for requests which still wait', WAITS(WAITER_AT(i)))
        ctx.prove('the group is up to date then', z3.Not(z3.Select(g['pending'], fut)))
        g['told'] = g['told'] + z3.If(i == g['k'], 1, 0)
        k = ctx.choose(4)
        if k == 0: return SInt(ctx.fresh('mark', I))
        g['ended'] = z3.Or(g['ended'], i == g['k'])
        if k == 3: e = UnknownExc(ctx, BaseException, 'err', exclude=[StopIteration]); g['answer'] = ('exception', e, i, False); raise PyExc(e)
        if k == 2:
            ctx.assume(z3.Select(g['done'], fut)); n = g['done n']; ctx.fact(n > 0); g['done'] = z3.Store(g['done'], fut, z3.BoolVal(False)); g['done n'] = n - 1; g['taken'] = g['taken'] + 1
            v = Opaque(fut, FUT)
        else: v = Opaque(ctx.fresh('answer', OBJ), AnyI())
        g['answer'] = ('result', v, i, k == 2)
        e = Inst(ctx, StopIteration, {'args': (), 'value': (0 if k == 2 else 1, v)}); raise PyExc(e)
    def m_close(self, ctx, o): ctx.ghost['closed'] = o
HANDLER = HandlerI()
class WaitersI(Iface):
    name = 'waiting requests'
    def m_items(self, ctx, o): return Opaque(ctx.fresh('items', OBJ), PAIRS)
    def delitem(self, ctx, o, w):
        g = ctx.ghost; k = z3.Select(g['kept'], w.t)
        if not ctx.branch(k): raise PyExc(Inst(ctx, KeyError, {'args': ()}))
        g['kept'] = z3.Store(g['kept'], w.t, z3.BoolVal(False))
    def m_pop(self, ctx, o, w, *d):
        g = ctx.ghost
        if not ctx.branch(z3.Select(g['kept'], w.t)):
            if d: return d[0]
            raise PyExc(Inst(ctx, KeyError, {'args': ()}))
        g['kept'] = z3.Store(g['kept'], w.t, z3.BoolVal(False)); g['popped handler'] = Opaque(ctx.fresh('handler', OBJ), HANDLER); return g['popped handler']
    def setitem(self, ctx, o, w, h): ctx.ghost.setdefault('registered', []).append((w, h))
class PairsI(Iface):
    name = 'waiting requests, handlers'
    def symiter(self, ctx, o):
        def get(i): ctx.ghost['at'] = i; return (Opaque(WAITER_AT(i), WAITER), Opaque(HANDLER_AT(i), HANDLER))
        return SymIter(ctx.ghost['requests'], get)
WAITERS = WaitersI(); PAIRS = PairsI(); WC = ObjC(WAITER); SW = z3.SeqSort(OBJ)

def notice(c):
    t = group(c); g = c.ghost
    f = Opaque(c.fresh('future', OBJ), FUT); c.assume(FUTDONE(f.t)); g['future'] = f.t
    n = g['requests'] = c.fresh('requests', I); k = g['k'] = c.fresh('k', I); c.assume(0 <= k, k < n)
    g['kept'] = c.fresh('kept', SB); w = WAITER_AT(k); c.assume(z3.Select(g['kept'], w))
    g.update(told=z3.IntVal(0), taken=z3.IntVal(0), handed=z3.IntVal(0), ended=z3.BoolVal(False), answered=z3.BoolVal(False), answer=None)
    idx = z3.Function('request_place', OBJ, I)
    def distinct(ctx, i): ctx.fact(z3.Implies(z3.And(0 <= i, i < n), idx(WAITER_AT(i)) == i))
    distinct(c, k)
    def ended_list(L):
        d = L.done_waiters
        return z3.Empty(SW) if d is None else d.as_term(WC)
    def inv(L):
        ctx = L.ctx; i = L._i; l = ended_list(L); distinct(ctx, i)
        return {'told once': g['told'] == z3.If(z3.And(k < i, WAITS(w)), 1, 0), 'taken at most once': z3.And(z3.Or(g['taken'] == 0, g['taken'] == 1), z3.Select(g['done'], f.t) == (g['taken'] == 0)), 'what is taken is handed out': g['handed'] == g['taken'],
            'answered when its handler ends': z3.And(g['answered'] == g['ended'], z3.Implies(g['ended'], z3.And(WAITS(w), k < i))), 'ended ones are listed': z3.Contains(l, z3.Unit(w)) == g['ended'],
            'no longer pending': z3.Not(z3.Select(g['pending'], f.t)), 'others stay in done': z3.Implies(x != f.t, z3.Select(g['done'], x) == g['x done']), 'sizes': g['done n'] >= 0}
    x = g['witness']
    def hav(L):
        for nm in ('told', 'taken', 'handed', 'done n'): g[nm] = L.ctx.fresh(nm, I)
        g['done'] = L.ctx.fresh('done', SB); g['ended'] = L.ctx.fresh('ended', B); g['answered'] = L.ctx.fresh('answered', B); g['answer'] = None
    def shape(ctx): return LList(ctx, seq=ctx.fresh('ended', SW), codec=WC) if ctx.choose(2) else None
    loop(c, '_waited_done_callback', 0, Loop(inv=inv, havoc=hav, shapes={'done_waiters': shape}))
    def inv2(L):
        ctx = L.ctx; i = L._i; l = L._src.seq; pre = z3.Extract(l, z3.IntVal(0), i)
        return {'exactly the listed ones are forgotten': z3.Select(g['kept'], w) == z3.Not(z3.Contains(pre, z3.Unit(w)))}
    def head2(L):
        i, l = L._i, L._src.seq; L.ctx.fact(z3.Implies(z3.And(0 <= i, i < z3.Length(l)), z3.Extract(l, z3.IntVal(0), i + 1) == z3.Concat(z3.Extract(l, z3.IntVal(0), i), z3.Unit(l[i])))); L.ctx.fact(z3.Extract(l, z3.IntVal(0), z3.Length(l)) == l)
    def hav2(L): g['kept'] = L.ctx.fresh('kept', SB)
    loop(c, '_waited_done_callback', 1, Loop(inv=inv2, havoc=hav2, on_head=head2))
    return t, f, w, x
@proof('a finished future is offered to every waiting request once, then is done or handed to exactly one of them')
def _(c):
    t, f, w, x = notice(c); g = c.ghost
    g['x done'] = z3.Select(g['done'], x); p0 = z3.Select(g['pending'], x)
    r = attempt(c, TaskGroup._waited_done_callback, t, f); no_raise(c, r)
    c.prove('no longer pending', z3.Not(z3.Select(g['pending'], f.t)))
    c.prove('handed to at most one request', z3.And(g['handed'] >= 0, g['handed'] <= 1))
    c.prove('it is done, or was handed out', z3.Select(g['done'], f.t) == (g['handed'] == 0))
    c.prove('the others stay where they are', z3.Implies(x != f.t, z3.And(z3.Select(g['done'], x) == g['x done'], z3.Select(g['pending'], x) == p0)))
    c.prove('every waiting request is told once, others never', g['told'] == z3.If(WAITS(w), 1, 0))
    c.prove('a request whose handler ended is answered', g['answered'] == g['ended'])
    c.prove('and forgotten, the others are kept', z3.Select(g['kept'], w) == z3.Not(g['ended']))

# ---- requests: the handlers' side
def env_step(ctx):
    """the group at a wait: anything may happen to its sets; then a future finishes, which is offered"""
    g = ctx.ghost
    for k in ('done', 'pending'): g[k] = ctx.fresh(k, SB); g[k + ' n'] = ctx.fresh(k + '_n', I); ctx.assume(g[k + ' n'] >= 0)
    f = ctx.fresh('noticed', OBJ); ctx.assume(FUTDONE(f), z3.Not(z3.Select(g['pending'], f)), KIND(f) >= 0, KIND(f) < len(KINDS))
    ctx.fact(z3.Implies(z3.Select(g['done'], f), g['done n'] > 0))
    return Opaque(f, FUT)
def handler(c, fn, args, wants, pops, may_wait, at_start=None):
    """wants(f): whether the request wants this future; pops: it takes it; may_wait(): whether it may wait on; at_start(f): whether one already done would do"""
    g = c.ghost; g.update(missed=z3.BoolVal(False), notices=z3.IntVal(0), last=None)
    at_start = at_start or wants; x = g['witness']; d0 = g['done at start'] = g['done']; SETI.has(c, fld(c, g['group'], 'done'), x)
    g['unwanted'] = z3.Implies(z3.Select(d0, x), z3.Not(at_start(x)))
    def on_yield(ctx, v):
        ctx.prove('it waits only when it has nothing to answer', may_wait())
        ctx.prove('none of those already done would do', g['unwanted'])
        ctx.prove('the notice before was not what it waits for', z3.Not(g['missed']))
        f = env_step(ctx); g['last'] = f.t; g['last there'] = z3.Select(g['done'], f.t); g['at last'] = g['done']
        w = wants(f.t); g['missed'] = z3.And(w, g['last there']) if pops else w; g['notices'] = g['notices'] + 1
        return f
    def hav(L):
        g['missed'] = L.ctx.fresh('missed', B); g['notices'] = L.ctx.fresh('notices', I); g['last'] = None
        env_step(L.ctx)
    def inv(L): return {'nothing is missed': z3.Not(g['missed']), 'notices': g['notices'] >= 0, 'none of those already done would do': g['unwanted'], **g.get('more', lambda L: {})(L)}
    def inv1(L): return {'none of those before': z3.Implies(z3.And(z3.Select(d0, x), at_start(x)), place(c, 'done') >= L._i)}
    if 'exception' in fn.__name__: loop(c, fn.__name__, 0, Loop(inv=inv1)); loop(c, fn.__name__, 1, Loop(inv=inv, havoc=hav))
    else: loop(c, fn.__name__, 0, Loop(inv=inv, havoc=hav))
    gen = c.it.call(fn, list(args), {})
    c.yield_stack.append(on_yield)
    try: v = c.it.run_gen(gen)
    except PyExc as e: c.prove('it does not fail', z3.BoolVal(False)); raise PathEnd
    finally: c.yield_stack.pop()
    c.prove('a mark and a result', bv(isinstance(v, tuple) and len(v) == 2))
    return v[1]
def fld(c, o, k): return c.it.getattr(o, k)
def any_of(v): return isinstance(v, Opaque) and v.iface is FUT
def check_first(c, r, wants, pops):
    """the answer of a request for a future"""
    g = c.ghost; now = g['done']; d0 = g['done at start']; x = g['witness']
    if not any_of(r):
        c.prove('else nothing', bv(r is None))
        c.prove('only when nothing is pending', g['pending n'] == 0); c.prove('and nothing it waits for was missed', z3.And(z3.Not(g['missed']), g['unwanted'])); return
    t = r.t
    c.prove('one it waits for', wants(t))
    if g['last'] is None:
        c.prove('one of the done ones', z3.Select(d0, t))
        c.prove('taken from them' if pops else 'which stay', z3.And(z3.Select(now, t) == z3.BoolVal(not pops), z3.Implies(x != t, z3.Select(now, x) == z3.Select(d0, x))))
        return
    d = g['at last']
    c.prove('the one just finished', t == g['last'])
    if pops: c.prove('which nobody else took', g['last there']); c.prove('taken', z3.And(z3.Not(z3.Select(now, t)), z3.Implies(x != t, z3.Select(now, x) == z3.Select(d, x))))
    else: c.prove('the sets stay', z3.Select(now, x) == z3.Select(d, x))

ALWAYS = lambda t: z3.BoolVal(True)
RAISED = lambda t: kind_in(t, RAISE)
FAILED = lambda t: kind_in(t, RAISE | CANCELLED)
for _n, _w, _p in (('first', ALWAYS, False), ('first_and_pop', ALWAYS, True), ('exception', RAISED, False), ('exception_and_pop', RAISED, True), ('exception_or_cancellation', FAILED, False), ('exception_or_cancellation_and_pop', FAILED, True)):
    @proof(f'wait_{_n}: answers at once, or at the first notice it waits for, or when nothing is pending')
    def _(c, name=_n, wants=_w, pops=_p):
        t = group(c); g = c.ghost
        x = g['witness']; c.assume(KIND(x) >= 0, KIND(x) < len(KINDS))
        r = handler(c, getattr(TG, '_handler_wait_' + name), [t], wants, pops, lambda: g['pending n'] > 0)
        check_first(c, r, wants, pops)

@proof('wait_next: answers at the next notice')
def _(c):
    g = c.ghost; group(c)
    handler(c, TG._handler_wait_next, [], ALWAYS, False, lambda: g['notices'] == 0, lambda f: z3.BoolVal(False))
    c.prove('after exactly one notice', g['notices'] == 1)

@proof('wait_all: answers exactly when nothing is pending')
def _(c):
    t = group(c); g = c.ghost
    handler(c, TG._handler_wait_all, [t], lambda f: z3.BoolVal(False), False, lambda: g['pending n'] > 0)
    c.prove('nothing is pending', g['pending n'] == 0)

@proof('wait_first_n: answers exactly when that many are done or were seen to finish')
def _(c):
    t = group(c); g = c.ghost; n = c.int('count'); d0 = g['done n']
    g['more'] = lambda L: {'counts every notice': L.t('done_count') == d0 + g['notices']}
    r = handler(c, TG._handler_wait_first_n, [t, n], lambda f: z3.BoolVal(False), False, lambda: d0 + g['notices'] < n.t)
    c.prove('that many', d0 + g['notices'] >= n.t); c.prove('the number', eqv(c, r, SInt(d0 + g['notices'])))

# ---- the rest of the group
class NewWaiterI(Iface):
    name = 'new request'
    def m_set_result_if_pending(self, ctx, o, v): ctx.ghost.setdefault('given', []).append(('result', v)); return 1
    def m_set_exception_if_pending(self, ctx, o, v): ctx.ghost.setdefault('given', []).append(('exception', v)); return 1
    m_set_result = m_set_result_if_pending; m_set_exception = m_set_exception_if_pending
    def m_add_done_callback(self, ctx, o, cb): ctx.ghost.setdefault('called back', []).append((o, cb)); return 1
NEWW = NewWaiterI()
class FreshHandlerI(Iface):
    name = 'handler not started'
    def m_send(self, ctx, o, v):
        g = ctx.ghost; ctx.prove('started once', bv(v is None and 'started' not in g)); g['started'] = k = ctx.choose(3)
        if k == 0: return 1
        if k == 1: g['value'] = Opaque(ctx.fresh('answer', OBJ), AnyI()); raise PyExc(Inst(ctx, StopIteration, {'args': (), 'value': (ctx.choose(2), g['value'])}))
        g['value'] = UnknownExc(ctx, BaseException, 'err', exclude=[StopIteration]); raise PyExc(g['value'])
FRESHH = FreshHandlerI()
def call_back_of(c, cb, t, name):
    """whether cb is that method of the group"""
    return isinstance(cb, Bound) and cb.self is t and getattr(cb.fn, '__name__', None) == name
def new_waiter(c):
    def new(ctx, cls, lp): ctx.prove('on the loop of the group', bv(lp is fld(c, c.ghost['group'], 'loop'))); w = Opaque(ctx.fresh('request', OBJ), NEWW); ctx.ghost.setdefault('new', []).append(w); return w
    use(c, Future.__new__, new)

@proof('a request is answered at once or kept with its handler')
def _(c):
    t = group(c); g = c.ghost; new_waiter(c)
    h = Opaque(c.fresh('handler', OBJ), FRESHH)
    r = attempt(c, TaskGroup._add_handler, t, h); no_raise(c, r)
    w = g.get('new', [None])[0]
    c.prove('the new request', bv(w is not None and r.value is w and len(g['new']) == 1))
    k = g['started']; reg = g.get('registered', []); cbs = g.get('called back', [])
    if k == 0: c.prove('kept with its handler, dropped when it is done', bv(len(reg) == 1 and reg[0][0] is w and reg[0][1] is h and 'given' not in g and len(cbs) == 1 and cbs[0][0] is w and call_back_of(c, cbs[0][1], t, '_waiter_done_callback')))
    else: c.prove('answered by its handler', bv(g.get('given') == [('result' if k == 1 else 'exception', g['value'])] and not reg))

@proof('a finished request is forgotten, its handler is closed')
def _(c):
    t = group(c); g = c.ghost; w = Opaque(c.fresh('request', OBJ), WAITER); g['kept'] = c.fresh('kept', SB); k0 = z3.Select(g['kept'], w.t); x = c.fresh('other', OBJ); x0 = z3.Select(g['kept'], x)
    r = attempt(c, TaskGroup._waiter_done_callback, t, w); no_raise(c, r)
    c.prove('forgotten', z3.Not(z3.Select(g['kept'], w.t))); c.prove('only that one', z3.Implies(x != w.t, z3.Select(g['kept'], x) == x0))
    c.prove('its handler is closed', z3.If(k0, bv('popped handler' in g and g.get('closed') is g.get('popped handler')), bv('closed' not in g)))
    c.prove('the sets stay', bv(True))

for _n, _takes in (('next', False), ('first', True), ('first_and_pop', True), ('exception', True), ('exception_and_pop', True), ('exception_or_cancellation', True), ('exception_or_cancellation_and_pop', True), ('first_n', True), ('all', True)):
    @proof(f'the request wait_{_n} is run by its handler')
    def _(c, name=_n, takes=_takes):
        t = group(c); g = c.ghost; made = []; h = Opaque(c.fresh('handler', OBJ), FRESHH); res = Opaque(c.fresh('request', OBJ), NEWW)
        n = c.int('count'); want = ([t] if takes else []) + ([n] if name == 'first_n' else [])
        use(c, getattr(TG, '_handler_wait_' + name), lambda ctx, *a: made.append(a) or h)
        def add(ctx, self, hh): ctx.prove('its own handler', bv(self is t and hh is h)); return res
        use(c, TaskGroup._add_handler, add)
        r = attempt(c, getattr(TaskGroup, 'wait_' + name), t, *([n] if name == 'first_n' else [])); no_raise(c, r)
        c.prove('made for this group', bv(len(made) == 1 and len(made[0]) == len(want) and all(a is b for a, b in zip(made[0], want)))); c.prove('its request', bv(r.value is res))

def check_added(c, t, f, x, d0, p0):
    """f is in exactly one set: pending with one callback, or announced"""
    g = c.ghost; cbs = g.get('called back', [])
    c.prove('the others stay where they are', z3.Implies(x != f.t, z3.And(z3.Select(g['done'], x) == z3.Select(d0, x), z3.Select(g['pending'], x) == z3.Select(p0, x))))
    return cbs
@proof('adding a future: it is pending and called back once, or announced at once; adding it again changes nothing')
def _(c):
    t = group(c); g = c.ghost; d0, p0 = g['done'], g['pending']; x = g['witness']
    f = Opaque(c.fresh('future', OBJ), FUT); c.assume(z3.Not(z3.And(z3.Select(d0, f.t), z3.Select(p0, f.t)))); c.assume(z3.Implies(z3.Select(d0, f.t), FUTDONE(f.t)))
    told = []
    use(c, TaskGroup._waited_done_callback, lambda ctx, self, ff: told.append(ff))
    via = c.choose(3)
    if via == 2:
        co = Opaque(c.fresh('awaitable', OBJ), AnyI()); asked = g['asked'] = []; g['ensured'] = f
        r = attempt(c, TaskGroup.add_awaitable, t, co)
    else: r = attempt(c, (TaskGroup.add_future, TaskGroup.add_task)[via], t, f)
    no_raise(c, r); c.prove('the future itself', bv(r.value is f))
    if via == 2: c.prove('of what was added', bv(len(asked) == 1 and asked[0] is co))
    cbs = check_added(c, t, f, x, d0, p0)
    known = z3.Or(z3.Select(d0, f.t), z3.Select(p0, f.t)); done = FUTDONE(f.t)
    one = bv(len(cbs) == 1 and cbs[0][0] is f and call_back_of(c, cbs[0][1], t, '_waited_done_callback'))
    c.prove('a known future is left alone', z3.Implies(known, z3.And(bv(not cbs and not told), z3.Select(g['done'], f.t) == z3.Select(d0, f.t), z3.Select(g['pending'], f.t) == z3.Select(p0, f.t))))
    c.prove('a finished one is announced at once, once', z3.Implies(z3.And(z3.Not(known), done), z3.And(bv(len(told) == 1 and told[0] is f and not cbs), z3.Not(z3.Select(g['pending'], f.t)))))
    c.prove('another is pending and called back once', z3.Implies(z3.And(z3.Not(known), z3.Not(done)), z3.And(one, bv(not told), z3.Select(g['pending'], f.t), z3.Not(z3.Select(g['done'], f.t)))))

for _n in ('future', 'task'):
    @proof(f'creating a {_n}: it is pending and called back once')
    def _(c, name=_n):
        t = group(c); g = c.ghost; d0, p0 = g['done'], g['pending']; x = g['witness']
        f = Opaque(c.fresh('new', OBJ), FUT); c.assume(z3.Not(FUTDONE(f.t)), z3.Not(z3.Select(d0, f.t)), z3.Not(z3.Select(p0, f.t))); made = []
        use(c, Future.__new__ if name == 'future' else Task.__new__, lambda ctx, cls, *a: made.append(a) or f)
        co = Opaque(c.fresh('coroutine', OBJ), AnyI())
        r = attempt(c, getattr(TaskGroup, 'create_' + name), t, *([co] if name == 'task' else [])); no_raise(c, r)
        want = [fld(c, t, 'loop')] + ([co] if name == 'task' else [])
        c.prove('made once, on the loop of the group', bv(len(made) == 1 and len(made[0]) == len(want) and all(a is b for a, b in zip(made[0], want)))); c.prove('it is returned', bv(r.value is f))
        cbs = check_added(c, t, f, x, d0, p0)
        c.prove('pending, called back once', z3.And(bv(len(cbs) == 1 and cbs[0][0] is f and call_back_of(c, cbs[0][1], t, '_waited_done_callback')), z3.Select(g['pending'], f.t), z3.Not(z3.Select(g['done'], f.t))))

@proof('handing out a done future, asking what there is')
def _(c):
    t = group(c); g = c.ghost; x = g['witness']; d0, n0, p0, m0 = g['done'], g['done n'], g['pending'], g['pending n']
    m = ('pop_done', 'has_done', 'has_pending')[c.choose(3)]
    r = attempt(c, getattr(TaskGroup, m), t); no_raise(c, r)
    c.prove('pending ones stay', z3.And(g['pending'] == p0, g['pending n'] == m0))
    if m == 'pop_done':
        if r.value is None: c.prove('none only when none is done', n0 == 0); c.prove('nothing changes', g['done'] == d0)
        else: c.prove('a done one, taken', z3.And(z3.Select(d0, r.value.t), z3.Not(z3.Select(g['done'], r.value.t)), z3.Implies(x != r.value.t, z3.Select(g['done'], x) == z3.Select(d0, x))))
    else: c.prove('whether there is any', truth(c, r.value) == ((n0 if m == 'has_done' else m0) > 0)); c.prove('nothing changes', g['done'] == d0)

for _n in ('done', 'pending', 'all', 'on_exception'):
    @proof(f'cancel_{_n}: cancels exactly those')
    def _(c, name=_n):
        t = group(c); g = c.ghost; x = g['witness']; d, p, k0 = z3.Select(g['done'], x), z3.Select(g['pending'], x), z3.Select(g['cancelled'], x)
        fn = 'cancel_all' if name == 'on_exception' else 'cancel_' + name
        def spec(key, first):
            def entry(L): g['c0'] = z3.Select(g['cancelled'], x)
            def inv(L): return {'exactly those before': z3.Select(g['cancelled'], x) == z3.Or(g['c0'], z3.And(z3.Select(g[key], x), place(c, key) < L._i))}
            def hav(L): g['cancelled'] = L.ctx.fresh('cancelled', SB)
            return Loop(inv=inv, on_entry=entry, havoc=hav)
        keys = {'cancel_all': ('done', 'pending'), 'cancel_done': ('done',), 'cancel_pending': ('pending',)}[fn]
        for i, key in enumerate(keys): loop(c, fn, i, spec(key, i == 0))
        want = {'done': d, 'pending': p, 'all': z3.Or(d, p), 'on_exception': z3.Or(d, p)}[name]
        if name == 'on_exception':
            m = attempt(c, TaskGroup.cancel_on_exception, t); no_raise(c, m); m = m.value
            e = attempt(c, TG.TaskGroupContextManager.__enter__, m); no_raise(c, e); c.prove('the group', bv(e.value is t))
            exc = Inst(c, ValueError, {'args': ()}) if c.choose(2) else None
            r = attempt(c, TG.TaskGroupContextManager.__exit__, m, None if exc is None else ValueError, exc, None); no_raise(c, r)
            c.prove('the exception goes on', z3.Not(truth(c, r.value)))
            if exc is None: want = z3.BoolVal(False)
        else: r = attempt(c, getattr(TaskGroup, fn), t); no_raise(c, r)
        c.prove('exactly those', z3.Select(g['cancelled'], x) == z3.Or(k0, want))
        c.prove('the sets stay', z3.And(z3.Select(g['done'], x) == d, z3.Select(g['pending'], x) == p))

@proof('iterating over the group gives its futures')
def _(c):
    t = group(c); g = c.ghost; x = g['witness']; out = []; d0, p0, n0, m0 = g['done'], g['pending'], g['done n'], g['pending n']
    gen = c.it.call(TaskGroup.exhaust_done, [t], {})
    g['came'] = z3.IntVal(0); g['last given'] = None
    def on_yield(ctx, v):
        pk = g['popped'][-1]
        ctx.prove('a done one, taken', z3.And(v.t == pk[1], z3.Not(z3.Select(g['done'], v.t)))); g['came'] = z3.If(v.t == x, g['came'] + 1, g['came'])
    def inv(L): return {'each once': z3.And(g['came'] >= 0, g['came'] + z3.If(z3.Select(g['done'], x), 1, 0) == z3.If(z3.Select(d0, x), 1, 0)), 'size': g['done n'] >= 0}
    def hav(L): g['came'] = L.ctx.fresh('came', I); g['done'] = L.ctx.fresh('done', SB); g['done n'] = L.ctx.fresh('done_n', I)
    loop(c, 'exhaust_done', 0, Loop(inv=inv, havoc=hav, dec=lambda L: g['done n']))
    c.yield_stack.append(on_yield)
    try: c.it.run_gen(gen)
    finally: c.yield_stack.pop()
    SETI.has(c, fld(c, t, 'done'), x)
    c.prove('every done one came exactly once', g['came'] == z3.If(z3.Select(d0, x), 1, 0)); c.prove('none is left', z3.Not(z3.Select(g['done'], x))); c.prove('pending ones stay', g['pending'] == p0)

class NextI(Iface):
    """the request of exhaust: while it waits the group goes on; then a future has finished"""
    name = 'request for the next'
    def await_(self, ctx, o):
        g = ctx.ghost; ctx.prove('it waits only when no done one is left', g['done n'] == 0); ctx.prove('and something is pending', g['pending n'] > 0)
        if ctx.choose(2): g['stopped'] = True; raise PyExc(Inst(ctx, GeneratorExit, {'args': ()}))
        anything(ctx)
    def m_cancel(self, ctx, o): ctx.ghost['request cancelled'] = True; return 1
NEXT = NextI()
def anything(ctx):
    g = ctx.ghost
    for k in ('done', 'pending'): g[k] = ctx.fresh(k, SB); g[k + ' n'] = ctx.fresh(k + '_n', I); ctx.assume(g[k + ' n'] >= 0)
@proof('exhausting the group: hands out done ones, each taken, waits while something is pending, ends when nothing is left')
def _(c):
    t = group(c); g = c.ghost
    def on_yield(ctx, v):
        pk = g['popped'][-1]; ctx.prove('a done one, taken', z3.And(bv(pk[0] == 'done'), v.t == pk[1], z3.Not(z3.Select(g['done'], v.t))))
        g['handed out'] = g.get('handed out', 0) + 1
        ctx.prove('handed out once', bv(len(g['popped']) == g['handed out'])); anything(ctx)
    use(c, TaskGroup.wait_next, lambda ctx, self: Opaque(ctx.fresh('next', OBJ), NEXT))
    def hav(L): g['popped'] = []; g['handed out'] = 0; anything(L.ctx)
    def inv(L): return {'everything taken was handed out': bv(len(g.get('popped', [])) == g.get('handed out', 0))}
    for i in (0, 1): loop(c, 'exhaust', i, Loop(inv=inv, havoc=hav))
    gen = c.it.call(TaskGroup.exhaust, [t], {})
    c.yield_stack.append(on_yield)
    try:
        c.it.run_gen(gen)
    except PyExc as e: c.prove('only when it is stopped', bv(bool(g.get('stopped')))); c.prove('then its request is cancelled', bv(bool(g.get('request cancelled')))); return
    finally: c.yield_stack.pop()
    c.prove('nothing is left', z3.And(g['done n'] == 0, g['pending n'] == 0))

class GivenI(Iface):
    """the futures the group is made of; whether a future is among them"""
    name = 'given futures'
    def symiter(self, ctx, o):
        n = ctx.ghost['given n']; at = z3.Function('given_at', I, OBJ); return SymIter(n, lambda i: Opaque(at(i), FUT))
GIVEN = GivenI()
@proof('a new group: finished futures are done, the others pending and called back')
def _(c):
    g = c.ghost; x = g['witness'] = c.fresh('some_future', OBJ); n = g['given n'] = c.fresh('n', I); c.assume(n >= 0); at = z3.Function('given_at', I, OBJ); j = c.fresh('its_place', I)
    made = []
    def new_set(ctx, *a):
        k = ('s0', 's1')[len(made)]; o = Opaque(ctx.fresh(k, OBJ), SETI); o.extra['key'] = k; made.append(o); g[k] = z3.K(OBJ, z3.BoolVal(False)); g[k + ' n'] = z3.IntVal(0); return o
    class SetMaker(Iface):
        name = 'set'
        def call(self, ctx, o, args, kwargs): ctx.prove('made empty', bv(not args and not kwargs and len(made) < 2)); return new_set(ctx)
    c.ghost.setdefault('globals', {})[None, 'set'] = Opaque(c.fresh('set', OBJ), SetMaker())
    g['cb'] = z3.BoolVal(False)
    given = None if c.choose(2) else Opaque(c.fresh('given', OBJ), GIVEN)
    lp = Opaque(c.fresh('loop', OBJ), LOOPI)
    FIN = FUTDONE(x)
    def inv(L):
        i = L._i; s = z3.Or(z3.Select(g['s0'], x), z3.Select(g['s1'], x))
        L.ctx.fact(z3.Implies(z3.And(0 <= j, j < n), z3.BoolVal(True)))
        return {'in one of them if it was before': z3.And(z3.Implies(z3.And(0 <= j, j < i, at(j) == x), s), z3.Not(z3.And(z3.Select(g['s0'], x), z3.Select(g['s1'], x)))), 'by whether it is finished': z3.And(z3.Implies(z3.Select(g[dk()], x), FIN), z3.Implies(z3.Select(g[pk()], x), z3.Not(FIN))), 'sizes': z3.And(g['s0 n'] >= 0, g['s1 n'] >= 0)}
    def dk(): return 's0'
    def pk(): return 's1'
    def hav(L):
        for k in ('s0', 's1'): g[k] = L.ctx.fresh(k, SB); g[k + ' n'] = L.ctx.fresh(k + '_n', I)
    def invcb(L):
        cb = g.get('called back', []); i = L._i
        return {'called back so far': g['cb'] == z3.And(z3.Select(g['s1'], x), z3.Function('s1_place', OBJ, I)(x) < i)}
    def havcb(L): g['cb'] = L.ctx.fresh('called_back', B); g['called back'] = []
    def stepcb(L):
        for o, cb in g.get('called back', []): L.ctx.prove('told to this group', bv(isinstance(cb, Bound) and getattr(cb.fn, '__name__', None) == '_waited_done_callback')); L.ctx.prove('once', z3.Implies(o.t == x, z3.Not(g['cb']))); g['cb'] = z3.Or(g['cb'], o.t == x)
        g['called back'] = []
    loop(c, '__new__', 0, Loop(inv=inv, havoc=hav)); loop(c, '__new__', 1, Loop(inv=invcb, havoc=havcb, on_step=stepcb))
    r = attempt(c, TaskGroup, lp, given); no_raise(c, r); t = r.value
    D, P = fld(c, t, 'done'), fld(c, t, 'pending')
    c.prove('its sets', bv(len(made) == 2 and D is made[0] and P is made[1])); c.prove('its loop', bv(fld(c, t, 'loop') is lp))
    w = fld(c, t, 'waiters'); c.prove('no request', z3.Not(truth(c, w)))
    inD, inP = SETI.has(c, D, x), SETI.has(c, P, x)
    if given is None: c.prove('empty', z3.And(z3.Not(inD), z3.Not(inP))); return
    among = z3.And(0 <= j, j < n, at(j) == x)
    c.prove('a finished one is done', z3.Implies(z3.And(among, FIN), z3.And(inD, z3.Not(inP)))); c.prove('another is pending', z3.Implies(z3.And(among, z3.Not(FIN)), z3.And(inP, z3.Not(inD))))
    c.prove('pending ones are called back, once, others not', g['cb'] == inP)


# ---------------------------------------------------------------- native
RULE = 'histories of one group (futures added, finished, cancelled; every kind of request, cancelled or answered; done ones popped, exhausted), one handle at a time; distinct by content'
SEARCH_S = 6
WAITERS_OF = ('next', 'first', 'first_and_pop', 'exception', 'exception_and_pop', 'exception_or_cancellation', 'exception_or_cancellation_and_pop', 'first_n', 'all')
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(3, 22)):
            x = rng.random()
            ops.append(['new', rng.randint(0, 3)] if x < .22 else ['end', rng.randint(0, 5), rng.randint(0, 2)] if x < .5 else ['wait', rng.randrange(len(WAITERS_OF)), rng.randint(0, 4)] if x < .72
                else ['drop', rng.randint(0, 5)] if x < .78 else ['turn', rng.choice([1, 1, 2, 99])] if x < .92 else ['pop'] if x < .95 else ['drain'] if x < .97 else ['again', rng.randint(0, 5)])
        yield [rng.randint(0, 3), ops]
def check_case(d):
    lp = FakeLoop(); first, ops = d; futs = []; ended = {}; out = []; reqs = []; bad = []
    def new():
        f = Future(lp); futs.append(f); return f
    start = []
    for i in range(first):
        f = new(); start.append(f)
        if i == 1: f.set_result(0)
        if i == 2: f.cancel()
    t = TaskGroup(lp, start) if start else TaskGroup(lp)
    lp.turn()
    names = lambda: {id(f): i for i, f in enumerate(futs)}
    def wanted(kind, f): return 'exception' not in kind or f.is_done() and bool(f._state & RAISE) or 'cancellation' in kind and bool(f._state & CANCELLED)
    def look(settled):
        nm = names()
        for r in reqs:
            if r['answered'] or not r['w'].is_done(): continue
            r['answered'] = True; w = r['w']; kind = r['kind']
            if w.is_cancelled(): continue
            v = w.get_result()
            if kind == 'first_n':
                if v < r['n']: bad.append(f'wait_first_n({r["n"]}) answered {v}')
            elif kind in ('next', 'all'):
                if kind == 'all' and t.pending: bad.append('wait_all answered with pending ones')
            elif v is None:
                if t.pending: bad.append(f'wait_{kind} answered none with pending ones')
            else:
                if not v.is_done() or not wanted(kind, v): bad.append(f'wait_{kind} answered with another future')
                if kind.endswith('pop'):
                    if v in t.done: bad.append('what was handed out is still done')
                    out.append(v)
        if len({id(f) for f in out}) != len(out): bad.append('a future was handed out twice')
        gone = {id(f) for f in out}
        for f in futs:
            n = (f in t.pending) + (f in t.done) + (id(f) in gone)
            if n != 1: bad.append(f'future {nm[id(f)]} is in {n} places')
            if settled and f.is_done() and f in t.pending: bad.append(f'future {nm[id(f)]} is finished and still pending')
        for r in reqs:
            if r['answered']: continue
            k = r['kind']
            if not t.pending and k not in ('first_n', 'next', 'first') : bad.append(f'wait_{k} waits though nothing is pending')
            if ('pop' in k or 'exception' in k) and any(wanted(k, f) for f in t.done): bad.append(f'wait_{k} waits though one is done')
            if k in ('next', 'first') and settled and len([f for f in futs if f.is_done()]) > r['ended']: bad.append(f'wait_{k} missed a future')
            if k == 'first_n' and settled and r['had'] + len([f for f in futs if f.is_done()]) - r['ended'] >= r['n']: bad.append('wait_first_n waits though enough are done')
    def turn(n):
        k = 0
        while lp._ready and k < n: lp.turn(1); k += 1; look(not lp._ready)
    for op in ops:
        if bad: break
        a = op[0]
        if a == 'new':
            if op[1] == 0: new_f = t.create_future(); futs.append(new_f)
            else:
                f = new()
                if op[1] == 2: f.set_result(0)
                if op[1] == 3: f.set_exception(ValueError())
                if t.add_future(f) is not f: bad.append('add_future gives another future')
        elif a == 'again' and futs:
            f = futs[op[1] % len(futs)]
            if not any(f is o for o in out): t.add_future(f)
        elif a == 'end':
            left = [f for f in futs if not f.is_done()]
            if left: f = left[op[1] % len(left)]; (lambda: f.set_result(1), lambda: f.set_exception(ValueError()), lambda: f.cancel())[op[2]]()
        elif a == 'wait':
            turn(99)
            kind = WAITERS_OF[op[1]]; r = {'kind': kind, 'n': op[2], 'had': len(t.done), 'ended': len([f for f in futs if f.is_done()]), 'answered': False}
            r['w'] = getattr(t, 'wait_' + kind)(*([op[2]] if kind == 'first_n' else [])); reqs.append(r)
        elif a == 'drop' and reqs: reqs[op[1] % len(reqs)]['w'].cancel()
        elif a == 'turn': turn(op[1])
        elif a == 'pop':
            had = bool(t.done); f = t.pop_done()
            if (f is None) == had: bad.append('pop_done gives one exactly if one is done')
            if f is not None: out.append(f)
        elif a == 'drain':
            out.extend(t.exhaust_done())
            if t.done: bad.append('exhausted, yet some are done')
        look(not lp._ready)
    turn(999)
    for f in (*futs, *(r['w'] for r in reqs)): f._state |= SILENCED | (RETRIEVED if f._state & RAISE else 0)
    return '; '.join(dict.fromkeys(bad[:3])) or None
def shrink(d):
    n, ops = d
    for i in range(len(ops)): yield [n, ops[:i] + ops[i + 1:]]
    if n: yield [n - 1, ops]
