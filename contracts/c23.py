"""C23: an async queue is FIFO, loses nothing and respects its bound."""
from contracts.loops import *
from scarletio.core.traps import queues as QU
from scarletio.core.traps.queues import AsyncQueue, AsyncLifoQueue
from scarletio.core.traps.task import Task
from scarletio.core.exceptions import CancelledError
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: between two waits nothing else runs', 'a task waiting for a future goes on when the future is resolved or the task is cancelled (C21, C22)', 'collections.deque']
DESIGN = '''State: the items, the queues of futures of waiting takers and waiting putters, the exception. Each method is proved on its body, from every state, to
be one atomic step between two waits: a put adds its item last, exactly once, only below the bound, and tells one taker that still waits; a take removes
exactly one item (the first; the last for the Lifo queue), returns it, and tells one putter that still waits; a wait is entered only when there is nothing
to take (no place), with an own new future queued last, and whatever happens meanwhile the state is looked at again afterwards (loop invariant: nothing was
changed since the last wait); giving up takes out the own future only or, having been told already, passes the word on. "Tells one that still waits" is
itself proved with a loop invariant over any queue of futures, done ones among them. That these steps leave no taker waiting beside an item and no putter
beside a free place is a lemma over the counters (items, waiting, told but not yet gone on), for every number of each.'''
SO = z3.SeqSort(OBJ)
FLT = z3.Function('still_pending', SO, SO)     # of a queue of futures those that still wait, in order
PEND = z3.Function('future_pending', OBJ, B)
class FutI(Iface):
    name = 'future'
    def m_set_result_if_pending(self, ctx, o, v):
        v = ctx.branch(truth(ctx, v)); k = 'told' if v else 'sent off'
        if ctx.branch(PEND(o.t)): ctx.ghost[k] = z3.Concat(ctx.ghost[k], z3.Unit(o.t)); return 1
        return 0
    def m_set_result(self, ctx, o, v): raise Unsupported('set_result on a future that can be done')
    def m_is_pending(self, ctx, o): return SBool(PEND(o.t))
    def m_is_done(self, ctx, o): return SBool(z3.Not(PEND(o.t)))
    def m_silence(self, ctx, o): return None
    def await_(self, ctx, o): return ctx.ghost['on_wait'](ctx, o)
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
FUT = FutI(); FC = ObjC(FUT)
class ItemI(Iface):
    name = 'item'
    def eq(self, ctx, a, b): raise Unsupported('comparing items')
    def truthy(self, ctx, o): return z3.Function('item_true', OBJ, B)(o.t)
ITEM = ItemI(); IC = ObjC(ITEM)
QUEUES = (AsyncQueue, AsyncLifoQueue)
def fld(c, q, k): return c.it.getattr(q, k)
def items(c, q): return fld(c, q, '_results').as_term(IC)
def takers(c, q): return fld(c, q, '_waiters').as_term(FC)
def putters(c, q): return fld(c, q, '_set_result_waiters').as_term(FC)
def some_exc(ctx): return (None, *ctx.ghost['excs'])[ctx.choose(3)]
def unfold(ctx, t):
    n = z3.Length(t)
    ctx.fact(z3.Implies(n == 0, FLT(t) == z3.Empty(SO)))
    h = t[0]; tl = z3.Extract(t, 1, n - 1)
    ctx.fact(z3.Implies(n > 0, z3.And(t == z3.Concat(z3.Unit(h), tl), FLT(t) == z3.Concat(z3.If(PEND(h), z3.Unit(h), z3.Empty(SO)), FLT(tl)))))
class State:
    def __init__(self, c, q): self.items, self.takers, self.putters, self.exc = items(c, q), takers(c, q), putters(c, q), fld(c, q, '_exception')
    def same(self, c, q, *but):
        return z3.And(*[getattr(self, k) == f(c, q) for k, f in (('items', items), ('takers', takers), ('putters', putters)) if k not in but], bv('exc' in but or fld(c, q, '_exception') is self.exc))
def queue(c, cls, bound=None, exc=True):
    m = None; c.ghost['excs'] = [Inst(c, k, {'args': ()}) for k in (ValueError, CancelledError)]
    if bound if bound is not None else c.choose(2): m = c.int('max_length'); c.assume(m.t >= 0)
    ts = [c.fresh(k, SO) for k in ('items', 'takers', 'putters')]
    if m is not None: c.assume(z3.Length(ts[0]) <= m.t)
    q = inst(c, cls, _loop=Opaque(c.fresh('loop', OBJ)), _results=LList(c, seq=ts[0], codec=IC, kind='deque', maxlen=m), _waiters=LList(c, seq=ts[1], codec=FC),
        _set_result_waiters=LList(c, seq=ts[2], codec=FC), _exception=some_exc(c) if exc else None)
    g = c.ghost; g['told'] = g['sent off'] = z3.Empty(SO); g['q'] = q; g['m'] = m
    wake_loops(c)
    def mk(ctx, *a, **k):
        h = ctx.fresh('own', OBJ); ctx.fact(PEND(h)); g['own'] = h; return Opaque(h, FUT)
    use(c, Future, mk)
    return q, m
def arbitrary(ctx, q):
    """what the others may have done to the queue"""
    g = ctx.ghost
    for k in ('_results', '_waiters', '_set_result_waiters'): fld(ctx, q, k).set_seq(ctx.fresh(k, SO))
    if g['m'] is not None: ctx.assume(z3.Length(items(ctx, q)) <= g['m'].t)
    q.fields['_exception'] = some_exc(ctx)
    g['told'] = g['sent off'] = z3.Empty(SO)
    g['sec'] = State(ctx, q)
def wake_loops(c):
    g = c.ghost
    def lst(L): return L.get('waiters').as_term(FC)
    def entry(L): g['X'] = lst(L); g['told_e'] = g['told']; g['sent_e'] = g['sent off']; g['at entry'] = State(c, g['q']); unfold(c, g['X'])
    def rest(L):
        w = L.get('waiters'); q = g['q']
        mine = [k for f, k in (('_waiters', 'takers'), ('_set_result_waiters', 'putters')) if fld(c, q, f) is w]
        return g['at entry'].same(c, q, *mine)
    def havoc(L): g['told'] = L.ctx.fresh('told', SO); g['sent off'] = L.ctx.fresh('sent', SO)
    loop(c, '_wake_up_next', 0, Loop(on_entry=entry, havoc=havoc, on_head=lambda L: unfold(c, lst(L)), dec=lambda L: z3.Length(lst(L)),
        inv=lambda L: {'only those done are passed over': z3.And(FLT(lst(L)) == FLT(g['X']), g['told'] == g['told_e'], g['sent off'] == g['sent_e']), 'the rest stays': rest(L)}))
    loop(c, '_wake_up_all', 0, Loop(on_entry=entry, havoc=havoc, on_head=lambda L: unfold(c, lst(L)), dec=lambda L: z3.Length(lst(L)),
        inv=lambda L: {'each once, in order': z3.If(truth(c, L.get('result')), z3.And(z3.Concat(g['told'], FLT(lst(L))) == z3.Concat(g['told_e'], FLT(g['X'])), g['sent off'] == g['sent_e']),
            z3.And(z3.Concat(g['sent off'], FLT(lst(L))) == z3.Concat(g['sent_e'], FLT(g['X'])), g['told'] == g['told_e'])), 'the rest stays': rest(L)}))
def told_one(c, what, before, now):
    """exactly the first of the futures in `before` that still wait was told; those behind it are still queued"""
    g = c.ghost; unfold(c, before); unfold(c, now)
    fb, fn = FLT(before), FLT(now)
    c.prove(f'{what} is told, the first that waits, and the others wait on', z3.Or(z3.And(z3.Length(g['told']) == 1, z3.Concat(g['told'], fn) == fb), z3.And(fb == z3.Empty(SO), fn == z3.Empty(SO), g['told'] == z3.Empty(SO))))
    c.prove('no one else is told', g['sent off'] == z3.Empty(SO))
def told_none(c): c.prove('no one is told', z3.And(c.ghost['told'] == z3.Empty(SO), c.ghost['sent off'] == z3.Empty(SO)))
def full(m, t): return z3.BoolVal(False) if m is None else z3.Length(t) >= m.t
def new_item(c): return Opaque(c.fresh('item', OBJ), ITEM)
def nothing_dropped(c): c.prove('no item is dropped', bv(not c.ghost.get('deque_dropped')))

for cls in QUEUES:
    @proof(f'{cls.__name__}.set_result: adds last below the bound and tells one waiting taker; a full queue stays as it is')
    def _(c, cls=cls):
        q, m = queue(c, cls); s = State(c, q); x = new_item(c)
        r = attempt(c, cls.set_result, q, x); no_raise(c, r); nothing_dropped(c)
        if c.branch(full(m, s.items)):
            c.prove('refused', iterm(r.value) == 1); c.prove('nothing changes', s.same(c, q)); told_none(c)
        else:
            c.prove('accepted at once', iterm(r.value) == 0); c.prove('added last', items(c, q) == z3.Concat(s.items, z3.Unit(x.t)))
            c.prove('putters and exception stay', s.same(c, q, 'items', 'takers')); told_one(c, 'a taker', s.takers, takers(c, q))

    def waiting(c, q, m, mine, other, may, ends):
        """installs on_wait and the bookkeeping of the section since the last wait; ends: what the wait can end with"""
        g = c.ghost; g['sec'] = State(c, q); g['waited'] = z3.BoolVal(False); g['end'] = None
        def on_wait(ctx, o):
            s = g['sec']
            ctx.prove('waits only when it cannot go on', may(s))
            ctx.prove('its own future is queued last', z3.And(o.t == g['own'], mine(ctx, q) == z3.Concat(getattr(s, mine.__name__), z3.Unit(g['own']))))
            ctx.prove('and nothing else changed', s.same(ctx, q, mine.__name__)); told_none(ctx)
            g['waited'] = z3.BoolVal(True)
            end = ends[ctx.choose(len(ends))]
            arbitrary(ctx, q)
            if end in ('told', 'sent off'): return end == 'told'
            # the own future is still queued, somewhere, or was taken out
            lst = fld(ctx, q, '_waiters' if mine is takers else '_set_result_waiters')
            if end == 'queued':
                pre, post = ctx.fresh('pre', SO), ctx.fresh('post', SO)
                for k in (pre, post): ctx.fact(z3.Not(z3.Contains(k, z3.Unit(g['own']))))
                lst.set_seq(z3.Concat(pre, z3.Unit(g['own']), post)); g['want'] = z3.Concat(pre, post)
            else: ctx.fact(z3.Not(z3.Contains(lst.as_term(FC), z3.Unit(g['own']))))
            g['sec'] = State(ctx, q); g['end'] = end
            e = g['exc'] = Inst(ctx, (CancelledError, GeneratorExit, ValueError)[ctx.choose(3)], {'args': ()})
            raise PyExc(e)
        g['on_wait'] = on_wait
        def havoc(L): arbitrary(L.ctx, q); g['waited'] = L.ctx.fresh('waited', B)
        return havoc
    def gave_up(c, r, q, mine, why):
        """ends of a wait by an exception"""
        g = c.ghost; s = g['sec']
        c.prove('the exception goes through', bv(r.raised and r.exc is g['exc']))
        k = mine.__name__
        if g['end'] == 'queued':
            c.prove('only its own future is taken out', z3.And(mine(c, q) == g['want'], s.same(c, q, k))); told_none(c)
        elif c.branch(why(s)):
            c.prove('nothing else changes', s.same(c, q, k)); told_one(c, 'someone in its stead', getattr(s, k), mine(c, q))
        else: c.prove('nothing changes', s.same(c, q)); told_none(c)

    @proof(f'{cls.__name__}.set_result_wait: waits for place, then adds last exactly once', budget=120)
    def _(c, cls=cls):
        q, m = queue(c, cls); g = c.ghost; x = new_item(c)
        hav = waiting(c, q, m, putters, takers, lambda s: full(m, s.items), ('told', 'sent off', 'queued', 'gone'))
        loop(c, 'set_result_wait', 0, Loop(havoc=hav, shapes={'set_result': lambda ctx: ctx.int('set_result')},
            inv=lambda L: {'nothing changed since the last wait': z3.And(g['sec'].same(L.ctx, q), g['told'] == z3.Empty(SO), g['sent off'] == z3.Empty(SO)),
                'what is reported': iterm(L.get('set_result')) == z3.If(g['waited'], 2, 0)}))
        r = attempt(c, cls.set_result_wait, q, x); nothing_dropped(c); s = g['sec']
        if g['end']: gave_up(c, r, q, putters, lambda s: z3.Not(full(m, s.items))); return
        no_raise(c, r)
        if c.branch(iterm(r.value) == 1):
            c.prove('refused only after waiting', g['waited']); c.prove('nothing changes', s.same(c, q)); told_none(c); return
        c.prove('there was place', z3.Not(full(m, s.items)))
        c.prove('added last, once', items(c, q) == z3.Concat(s.items, z3.Unit(x.t))); c.prove('putters and exception stay', s.same(c, q, 'items', 'takers'))
        told_one(c, 'a taker', s.takers, takers(c, q))
        c.prove('reports whether it had to wait', iterm(r.value) == z3.If(g['waited'], 2, 0))

    def took(c, cls, q, s, v):
        n = z3.Length(s.items)
        k, rest = (n - 1, z3.Extract(s.items, 0, n - 1)) if cls is AsyncLifoQueue else (0, z3.Extract(s.items, 1, n - 1))
        c.prove('the item whose turn it is', z3.And(n > 0, v.t == s.items[k]) if isinstance(v, Opaque) else z3.BoolVal(False))
        c.prove('exactly it is taken out', items(c, q) == rest); c.prove('takers and exception stay', s.same(c, q, 'items', 'putters'))
        told_one(c, 'a putter', s.putters, putters(c, q))
    def taken(c, cls, q, s, r):
        if r.raised:
            if s.exc is None: c.prove('IndexError only when there is neither item nor exception', z3.And(bv(r.is_a(IndexError)), z3.Length(s.items) == 0))
            else: c.prove('the exception only when no item is left', z3.And(bv(r.exc is s.exc), z3.Length(s.items) == 0))
            c.prove('nothing changes', s.same(c, q)); told_none(c)
        else: took(c, cls, q, s, r.value)
    for name in ('get_result_no_wait', 'result_no_wait'):
        @proof(f'{cls.__name__}.{name}: takes the item whose turn it is and tells one waiting putter; the exception when empty')
        def _(c, cls=cls, name=name):
            q, m = queue(c, cls); s = State(c, q)
            r = attempt(c, c.it.getattr(q, 'get_result_no_wait')) if name == 'get_result_no_wait' else attempt(c, cls.result_no_wait.fget, q)
            if name == 'result_no_wait': no_raise(c, r); r = attempt(c, r.value)
            taken(c, cls, q, s, r)
    for name in ('__await__', 'get_result', 'result', '__anext__'):
        @proof(f'{cls.__name__}.{name}: waits until there is an item or an exception, then takes one', budget=120)
        def _(c, cls=cls, name=name):
            q, m = queue(c, cls); g = c.ghost
            hav = waiting(c, q, m, takers, putters, lambda s: z3.And(z3.Length(s.items) == 0, bv(s.exc is None)), ('told', 'queued', 'gone'))
            loop(c, '_wait_for_result', 0, Loop(havoc=hav, inv=lambda L: {'nothing changed since the last wait': z3.And(g['sec'].same(L.ctx, q), g['told'] == z3.Empty(SO), g['sent off'] == z3.Empty(SO))}))
            r = attempt(c, c.it.getattr(q, 'result')) if name == 'result' else attempt(c, getattr(cls, name), q)
            s = g['sec']
            if g['end']: gave_up(c, r, q, takers, lambda s: z3.Length(s.items) > 0); return
            if r.raised and s.exc is None: c.prove('never fails without an exception set', z3.BoolVal(False))
            if name == '__anext__' and r.raised and s.exc.cls is CancelledError:
                c.prove('ends only when cancelled and empty', z3.And(bv(r.is_a(StopAsyncIteration)), z3.Length(s.items) == 0)); c.prove('nothing changes', s.same(c, q)); told_none(c)
            else: taken(c, cls, q, s, r)

    @proof(f'{cls.__name__}.set_exception: tells every waiting taker, sends every waiting putter off, keeps the items')
    def _(c, cls=cls):
        q, m = queue(c, cls); s = State(c, q); g = c.ghost
        k = c.choose(4)
        e = (ValueError, Inst(c, ValueError, {'args': ()}), StopIteration, Inst(c, StopIteration, {'args': (), 'value': None}))[k]
        r = attempt(c, cls.set_exception, q, e)
        if k >= 2:
            c.prove('StopIteration is refused', bv(r.raised and r.is_a(TypeError))); c.prove('nothing changes', s.same(c, q)); told_none(c); return
        no_raise(c, r); now = fld(c, q, '_exception')
        c.prove('it is set', bv(now is e if k else isinstance(now, Inst) and now.cls is ValueError))
        c.prove('the items stay', items(c, q) == s.items)
        c.prove('every taker that waits is told once', z3.And(g['told'] == FLT(s.takers), FLT(takers(c, q)) == z3.Empty(SO)))
        c.prove('every putter that waits is sent off once', z3.And(g['sent off'] == FLT(s.putters), FLT(putters(c, q)) == z3.Empty(SO)))

    @proof(f'{cls.__name__}.clear: takes every item out and tells a putter for each')
    def _(c, cls=cls):
        q, m = queue(c, cls); s = State(c, q); g = c.ghost
        def havoc(L):
            for k in ('told', 'sent off', 'X', 'told_e', 'sent_e'): g[k] = L.ctx.fresh(k, SO)
            g['at entry'] = None
        def inv(L):
            n = z3.Length(s.items)
            return {'as many told as items taken out, while any wait': z3.And(z3.Concat(g['told'], FLT(putters(L.ctx, q))) == FLT(s.putters), g['sent off'] == z3.Empty(SO),
                    z3.Or(z3.Length(g['told']) == n - z3.Length(items(L.ctx, q)), FLT(putters(L.ctx, q)) == z3.Empty(SO)), z3.Length(g['told']) <= n - z3.Length(items(L.ctx, q))),
                'the rest stays': s.same(L.ctx, q, 'items', 'putters')}
        loop(c, 'clear', 0, Loop(inv=inv, havoc=havoc, dec=lambda L: z3.Length(items(L.ctx, q)), on_head=lambda L: unfold(L.ctx, putters(L.ctx, q))))
        unfold(c, s.putters)
        r = attempt(c, cls.clear, q); no_raise(c, r)
        n = z3.Length(s.items)
        c.prove('empty', z3.Length(items(c, q)) == 0); c.prove('takers and exception stay', s.same(c, q, 'items', 'putters'))
        c.prove('a putter told for each place, in order', z3.And(z3.Concat(g['told'], FLT(putters(c, q))) == FLT(s.putters), z3.Or(z3.Length(g['told']) == n, FLT(putters(c, q)) == z3.Empty(SO))))

    @proof(f'{cls.__name__}: a copy has the same items, bound and exception and no waiter; reading changes nothing')
    def _(c, cls=cls):
        q, m = queue(c, cls); s = State(c, q); k = c.choose(3)
        r = attempt(c, (cls.copy, cls.__len__, cls.max_length.fget)[k], q); no_raise(c, r)
        if k == 0:
            d = r.value; res = fld(c, d, '_results')
            c.prove('of the same class and loop', bv(d.cls is cls and fld(c, d, '_loop') is fld(c, q, '_loop')))
            c.prove('the same items', items(c, d) == s.items); c.prove('the same exception', bv(fld(c, d, '_exception') is s.exc)); c.prove('the same bound', bv(res.maxlen is m))
            c.prove('no waiter', z3.And(z3.Length(takers(c, d)) == 0, z3.Length(putters(c, d)) == 0))
            c.prove('nothing is shared', bv(res is not fld(c, q, '_results') and len({id(fld(c, x, y)) for x in (q, d) for y in ('_waiters', '_set_result_waiters')}) == 4))
        elif k == 1: c.prove('as many as there are items', iterm(r.value) == z3.Length(s.items))
        else: c.prove('its bound', bv(r.value is None) if m is None else eqv(c, r.value, m))
        c.prove('nothing changes', s.same(c, q)); told_none(c)

    @proof(f'{cls.__name__}.reverse: the same items in reverse order')
    def _(c, cls=cls):
        q, m = queue(c, cls); s = State(c, q); n = z3.Length(s.items)
        r = attempt(c, cls.reverse, q); no_raise(c, r)
        rev = z3.Function('rev_' + str(IC.key), SO, SO)      # the model of list.reverse
        c.prove('reversed', z3.And(z3.Length(items(c, q)) == n, items(c, q) == rev(s.items))); c.prove('the rest stays', s.same(c, q, 'items')); told_none(c)

    @proof(f'{cls.__name__}: a new queue holds what it was given, with that bound and exception')
    def _(c, cls=cls):
        lp = Opaque(c.fresh('loop', OBJ)); k = c.choose(4)
        e = (None, ValueError, Inst(c, CancelledError, {'args': ()}), StopIteration)[k]
        m = None
        if c.choose(2): m = c.int('max_length'); c.assume(m.t >= 0)
        r = attempt(c, cls, lp, None, m, e)
        if k == 3: c.prove('StopIteration is refused', bv(r.raised and r.is_a(TypeError))); return
        no_raise(c, r); q = r.value; x = fld(c, q, '_exception')
        c.prove('bound and loop', bv(fld(c, q, '_results').maxlen is m and fld(c, q, '_loop') is lp)); c.prove('empty', z3.Length(items(c, q)) == 0)
        c.prove('that exception', bv(x is None if k == 0 else x is e if k == 2 else isinstance(x, Inst) and x.cls is ValueError))
        c.prove('no waiter', z3.And(z3.Length(takers(c, q)) == 0, z3.Length(putters(c, q)) == 0))

@proof('a new queue holds the items it was given, in order')
def _(c):
    t = c.fresh('given', SO); m = None; cls = QUEUES[c.choose(2)]
    if c.choose(2): m = c.int('max_length'); c.assume(m.t >= z3.Length(t))
    r = attempt(c, cls, Opaque(c.fresh('loop', OBJ)), LList(c, seq=t, codec=IC), m); no_raise(c, r)
    c.prove('the items', items(c, r.value) == t)
    c.prove('bound', bv(fld(c, r.value, '_results').maxlen is m))

@proof('the steps leave no taker waiting beside an item and no putter beside a free place')
def _(c):
    # n items, bound m (or none); P takers / R putters waiting; W takers / V putters told but not gone on yet
    n, P, W, R, V = (c.fresh(k, I) for k in 'nPWRV'); bounded = c.choose(2); m = c.fresh('m', I)
    exc = c.fresh('exception_set', B)
    def inv(n, P, W, R, V, exc): return z3.And(n >= 0, P >= 0, W >= 0, R >= 0, V >= 0, z3.Or(P == 0, z3.And(W >= n, z3.Not(exc))), z3.And(n <= m, z3.Or(R == 0, V >= m - n)) if bounded else R == 0)
    c.assume(inv(n, P, W, R, V, exc)); c.assume(m >= 0)
    c.prove('at rest nobody waits in vain', z3.Implies(z3.And(W == 0, V == 0), z3.And(z3.Or(P == 0, z3.And(n == 0, z3.Not(exc))), z3.Or(R == 0, n == m) if bounded else R == 0)))
    isfull = n >= m if bounded else z3.BoolVal(False)
    tp, tw = z3.If(P > 0, P - 1, P), z3.If(P > 0, W + 1, W)       # one more taker told, if one waits
    rp, rw = z3.If(R > 0, R - 1, R), z3.If(R > 0, V + 1, V)
    def move(name, cond, *st): c.prove(name, z3.Implies(cond, inv(*st)))
    move('a put', z3.Not(isfull), n + 1, tp, tw, R, V, exc)
    move('a put by a putter that was told', z3.And(z3.Not(isfull), V > 0), n + 1, tp, tw, R, V - 1, exc)
    move('a putter begins to wait', isfull, n, P, W, R + 1, V, exc)
    move('a told putter waits again', z3.And(isfull, V > 0), n, P, W, R + 1, V - 1, exc)
    move('a waiting putter gives up', R > 0, n, P, W, R - 1, V, exc)
    move('a told putter gives up while there is place', z3.And(V > 0, z3.Not(isfull)), n, P, W, rp, z3.If(R > 0, V, V - 1), exc)
    move('a told putter gives up while there is none', z3.And(V > 0, isfull), n, P, W, R, V - 1, exc)
    move('a take', n > 0, n - 1, P, W, rp, rw, exc)
    move('a take by a taker that was told', z3.And(n > 0, W > 0), n - 1, P, W - 1, rp, rw, exc)
    can_wait = z3.And(n == 0, z3.Not(exc))
    move('a taker begins to wait', can_wait, n, P + 1, W, R, V, exc)
    move('a told taker waits again', z3.And(can_wait, W > 0), n, P + 1, W - 1, R, V, exc)
    move('a told taker gets the exception', z3.And(n == 0, exc, W > 0), n, P, W - 1, R, V, exc)
    move('a waiting taker gives up', P > 0, n, P - 1, W, R, V, exc)
    move('a told taker gives up beside items', z3.And(W > 0, n > 0), n, tp, z3.If(P > 0, W, W - 1), R, V, exc)
    move('a told taker gives up beside none', z3.And(W > 0, n == 0), n, P, W - 1, R, V, exc)
    move('an exception is set', z3.BoolVal(True), n, z3.IntVal(0), W + P, z3.IntVal(0), V, z3.BoolVal(True))
    t = c.fresh('told', I)
    move('clearing', z3.And(0 <= t, t <= R, z3.Or(t == n, t == R)), z3.IntVal(0), P, W, R - t, V + t, exc)

# ---------------------------------------------------------------- native
RULE = 'tasks putting / taking by every method / iterating / cancelled at any moment, exceptions, clear, reverse, copy on queues bounded by 1-3 or not, stepped one handle at a time; distinct by content'
SEARCH_S = 8
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(2, 18)):
            x = rng.random()
            ops.append(['put'] if x < .17 else ['put_wait'] if x < .34 else ['take', rng.randint(0, 3)] if x < .62 else ['poll'] if x < .67 else ['cancel', rng.randint(0, 9)] if x < .78
                else ['turn', rng.choice([1, 1, 2, 3, 99])] if x < .94 else [rng.choice(['clear', 'reverse', 'copy', 'fail', 'stop'])])
        yield [rng.randint(0, 1), rng.choice([None, None, 1, 1, 2, 3]), rng.choice([0, 0, 0, 1, 2]), ops]
class Fail(Exception): pass
def check_case(case):
    lifo, m, preset, ops = case
    lp = FakeLoop(); preset = list(range(-preset, 0)) if m is None else list(range(-min(m, preset), 0))
    q = (AsyncLifoQueue if lifo else AsyncQueue)(lp, preset or None, m); ref = list(preset); exc = [None]
    tasks = []; bad = []; state = {}; count = [0]; silent = []
    def got(k, v):
        if not ref: bad.append(f'{v} taken from an empty queue'); return
        want = ref.pop() if lifo else ref.pop(0)
        if v != want: bad.append(f'{v} taken where it is {want}\'s turn')
    def failed(k, e):
        if isinstance(e, CancelledError) and k in cancelled: return True
        if ref: bad.append(f'{e!r} while {len(ref)} items are left')
        if exc[0] is None: bad.append(f'{e!r} without an exception set')
        elif not isinstance(e, exc[0]) and not (exc[0] is CancelledError and isinstance(e, StopAsyncIteration)): bad.append(f'{e!r} where {exc[0].__name__} was set')
    cancelled = set()
    def add(v):
        ref.append(v)
        if m is not None and len(ref) > m: bad.append(f'{len(ref)} items in a queue bounded by {m}')
    async def putter(k, v):
        state[k] = 'putting'
        try: rc = await q.set_result_wait(v)
        except CancelledError: state[k] = 'over'; raise
        state[k] = 'over'
        if rc == 1:
            if exc[0] is None: bad.append('a put refused')
        else: add(v)
    async def taker(k, how):
        state[k] = 'taking'
        try:
            if how == 0: v = await q
            elif how == 1: v = await q.get_result()
            elif how == 2: v = await q.result()
            else: v = await q.__anext__()
        except BaseException as e:
            state[k] = 'over'; failed(k, e)
            if isinstance(e, CancelledError) and k in cancelled: raise
            if how == 3 and exc[0] is CancelledError and not isinstance(e, StopAsyncIteration): bad.append(f'iterating ends with {e!r}')
            return
        state[k] = 'over'; got(k, v)
    def step(op):
        if op[0] == 'put':
            v = count[0]; count[0] += 1
            full_ = m is not None and len(ref) >= m
            rc = q.set_result(v)
            if (rc == 1) != full_ or rc not in (0, 1): bad.append(f'set_result gave {rc} with {len(ref)} items, bound {m}')
            if rc == 0: add(v)
        elif op[0] == 'put_wait':
            count[0] += 1; tasks.append(Task(lp, putter(len(tasks), count[0] - 1)))
        elif op[0] == 'take': tasks.append(Task(lp, taker(len(tasks), op[1])))
        elif op[0] == 'poll':
            try: v = q.get_result_no_wait()
            except IndexError:
                if ref or exc[0] is not None: bad.append('IndexError on a queue with items or an exception')
            except (Fail, CancelledError) as e: failed(None, e)
            else: got(None, v)
        elif op[0] == 'cancel' and tasks:
            k = op[1] % len(tasks)
            if not tasks[k].is_done(): cancelled.add(k); tasks[k].cancel()
        elif op[0] == 'turn': lp.turn(op[1])
        elif op[0] == 'clear': q.clear(); ref.clear()
        elif op[0] == 'reverse': q.reverse(); ref.reverse()
        elif op[0] == 'copy':
            d = q.copy()
            if list(d._results) != ref or d.max_length != m: bad.append('copy differs')
            d.clear()
        elif op[0] == 'fail': exc[0] = Fail; q.set_exception(Fail)
        elif op[0] == 'stop': exc[0] = CancelledError; q.set_exception(CancelledError())
        if len(q) != len(ref): bad.append(f'{len(q)} items where {len(ref)} should be')
        if q.max_length != m: bad.append('max_length')
    def rest():
        lp.turn()
        t = [k for k, s in state.items() if s == 'taking' and not tasks[k].is_done()]; p = [k for k, s in state.items() if s == 'putting' and not tasks[k].is_done()]
        if t and (ref or exc[0] is not None): bad.append(f'takers {t} wait while {"items are there" if ref else "an exception is set"}')
        if p and (m is None or len(ref) < m): bad.append(f'putters {p} wait while there is place')
        return t, p
    try:
        for op in ops:
            step(op)
            if bad: return bad[0]
        t, p = rest()
        for _ in range(60):     # drain
            if bad: return bad[0]
            if t: step(['put'])
            elif p or ref: step(['poll'])
            else: break
            t, p = rest()
        if bad: return bad[0]
        if t or p: return f'takers {t} and putters {p} are stuck'
    finally:
        for t_ in tasks: t_.silence(); t_._callbacks.clear()
    return None
def shrink(case):
    lifo, m, p, ops = case
    for k in range(len(ops)): yield [lifo, m, p, ops[:k] + ops[k + 1:]]
