"""C32: connections are pooled and given back without leaks."""
from contracts.loops import *
from pv.heap import Codec
from scarletio.http_client import connection as CN, connector_base as CB, protocol_basket as PB
from scarletio.http_client.connection import Connection
from scarletio.http_client.connection_key import ConnectionKey
from scarletio.http_client.connector_base import ConnectorBase
from scarletio.http_client.protocol_basket import ProtocolBasket
from scarletio.web_common.http_protocol import HttpReadProtocol, HttpReadWriteProtocol
from scarletio.web_common.constants import KEEP_ALIVE_MAX_REQUESTS_DEFAULT
from scarletio.core.traps.task import Task
from scarletio.core.exceptions import CancelledError
PROOFS, proof = proof_registry()
TRUSTED = ['one thread: between two waits nothing else runs', 'closing a protocol or aborting its transport closes the socket (C27 and the transports)', 'times are exact numbers', 'write_exception_async does not raise',
    'the loop runs `_clean_up` at the time it was scheduled for (C27)', 'a host opens connections for the key it is asked for (create_connection)']
DESIGN = '''State of a connector: for each connection key a basket of pooled entries (protocol, expiry, requests) and of protocols in use. Each basket method is
proved on its body with loop invariants over any pool: what is taken out of the pool is either handed out - then it is open, not expired, needs no
closing - or closed; clean-up keeps exactly the unexpired entries and closes the others; closing closes every one. Each connector method is proved to do that to the basket of the
given key only, to keep baskets that hold something and no others, and to give a released protocol back exactly once: out of use, and then
either closed or pooled, never both. A Connection is proved to give its protocol back exactly once whatever its callbacks do (raise, close it), and to run each callback once.'''
SO = z3.SeqSort(OBJ); AB = z3.ArraySort(OBJ, B)
class _RealC(Codec):
    sort = REAL; key = 'real'
    def enc(self, ctx, v):
        if isinstance(v, SReal): return v.t
        if isinstance(v, SInt): return z3.ToReal(v.t)
        if isinstance(v, (int, float)) and not isinstance(v, bool): return z3.RealVal(repr(v))
        raise Unsupported(f'number expected, got {v!r}')
    def dec(self, ctx, t): return SReal(t)
RealC = _RealC()
HAS_T = z3.Function('has_transport', OBJ, B); TR = z3.Function('transport_of', OBJ, OBJ); SHOULD = z3.Function('should_close', OBJ, B)
def close_it(ctx, p): ctx.ghost['closed'] = z3.Store(ctx.ghost['closed'], p, z3.BoolVal(True))
class TrI(Iface):
    name = 'transport'
    def m_abort(self, ctx, o): close_it(ctx, o.extra['p'])
    def m_close(self, ctx, o): close_it(ctx, o.extra['p'])
TRI = TrI()
class ProtoI(Iface):
    name = 'protocol'
    types = (HttpReadProtocol,)
    def m_get_transport(self, ctx, o):
        if not ctx.branch(HAS_T(o.t)): return None
        t = Opaque(TR(o.t), TRI); t.extra['p'] = o.t; return t
    def m_should_close(self, ctx, o): return SBool(SHOULD(o.t))
    def m_close(self, ctx, o): close_it(ctx, o.t)
    def m_close_transport(self, ctx, o, force=False): close_it(ctx, o.t)
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
PROTO = ProtoI()
PC = ObjC(PROTO); EC = TupleC([PC, RealC, IntC]); SE = z3.SeqSort(EC.sort)
P_, X_, N_ = (EC.sort.accessor(0, k) for k in range(3))
GONE = z3.Function('expired', SE, REAL, OBJ, B)          # whether a protocol has an expired entry in a pool
KEPT = z3.Function('unexpired', SE, REAL, SE)            # of a pool the entries not expired at a time, in order
class KeyI(Iface):
    name = 'connection key'
    def get_secure(self, ctx, o): return SBool(z3.Function('secure', OBJ, B)(o.t))
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
KEY = KeyI()
class UsedI(Iface):
    """a set of protocols: g['used'] membership, g['used n'] size"""
    name = 'protocols in use'
    types = (set,)
    def has(self, ctx, t):
        g = ctx.ghost; h = z3.Select(g['used'], t); ctx.fact(z3.Implies(h, g['used n'] > 0)); return h
    def contains(self, ctx, o, x): return self.has(ctx, x.t)
    def truthy(self, ctx, o): return ctx.ghost['used n'] > 0
    def len_(self, ctx, o): return SInt(ctx.ghost['used n'])
    def put(self, ctx, t, v):
        h = self.has(ctx, t); g = ctx.ghost; n = g['used n']
        g['used n'] = z3.If(h == v, n, n + 1 if v else n - 1); g['used'] = z3.Store(g['used'], t, z3.BoolVal(v))
    def m_add(self, ctx, o, x): self.put(ctx, x.t, True)
    def m_discard(self, ctx, o, x): self.put(ctx, x.t, False)
    def m_remove(self, ctx, o, x):
        if not ctx.branch(self.has(ctx, x.t)): raise PyExc(Inst(ctx, KeyError, {'args': ()}))
        self.put(ctx, x.t, False)
    def symiter(self, ctx, o):
        g = ctx.ghost; n = g['used n']; h0 = g['used']; at = z3.Function('used_at', I, OBJ); where = g['place'] = z3.Function('used_place', OBJ, I)
        w = g['witness']; ctx.fact(z3.Implies(z3.Select(h0, w), z3.And(0 <= where(w), where(w) < n, at(where(w)) == w)))
        def get(i):
            ctx.fact(z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(h0, at(i)), where(at(i)) == i))); return Opaque(at(i), PROTO)
        return SymIter(n, get)
USED = UsedI()
def fld(c, o, k): return c.it.getattr(o, k)
def start(c):
    g = c.ghost
    g['closed'] = g['closed0'] = c.fresh('closed', AB); g['witness'] = c.fresh('some_protocol', OBJ); g['split'] = []
    def hook(ctx, o, t, pre, e, post):
        if o.codec is EC: g['split'].append((t, pre, e, post))
    g['split_hooks'] = [hook]
def basket(c, key=None, avail=None, used=None, empty=False):
    """a basket: a pool (None when empty) and protocols in use (None when none)"""
    g = c.ghost
    key = key or Opaque(c.fresh('key', OBJ), KEY)
    a = u = None
    t = z3.Empty(SE)
    if avail if avail is not None else c.choose(2): t = c.fresh('pool', SE); c.assume(z3.Length(t) > 0); a = LList(c, seq=t, codec=EC)
    g['used'], g['used n'] = z3.K(OBJ, z3.BoolVal(False)), z3.IntVal(0)
    if used if used is not None else (a is None and not empty) or c.choose(2):
        g['used'], g['used n'] = c.fresh('used', AB), c.fresh('used_n', I); c.assume(g['used n'] > 0); u = Opaque(c.fresh('used_set', OBJ), USED)
    w = g['witness']; c.fact(z3.Implies(z3.Select(g['used'], w), g['used n'] > 0))
    g['used0'] = g['used']
    return inst(c, ProtocolBasket, available=a, connection_key=key, used=u), t
def pool(c, b):
    a = fld(c, b, 'available')
    return z3.Empty(SE) if a is None else a.as_term(EC)
def member(c, b, t):
    u = fld(c, b, 'used')
    h = z3.Select(c.ghost['used'], t); c.fact(z3.Implies(h, c.ghost['used n'] > 0))
    if u is None: return z3.BoolVal(False)
    if isinstance(u, LSet): return z3.Or(*[x.t == t for x in u.items]) if u.items else z3.BoolVal(False)
    return z3.Select(c.ghost['used'], t)
def tidy(c, b):
    """None stands for nothing"""
    a, u = fld(c, b, 'available'), fld(c, b, 'used')
    c.prove('an empty pool is None', bv(a is None) if a is None else z3.Length(a.as_term(EC)) > 0)
    c.prove('no protocol in use is None', bv(True) if u is None else bv(bool(u.items)) if isinstance(u, LSet) else c.ghost['used n'] > 0)
def is_closed(c, p): return z3.Select(c.ghost['closed'], p)
def was_closed(c, p): return z3.Select(c.ghost['closed0'], p)
def none_closed(c): c.prove('nothing is closed', c.ghost['closed'] == c.ghost['closed0'])
def use_stays(c, b):
    w = c.ghost['witness']; c.prove('what is in use stays', member(c, b, w) == z3.Select(c.ghost['used0'], w))
def usable(p, x, now): return z3.And(HAS_T(p), x >= now, z3.Not(SHOULD(p)))

# ---------------------------------------------------------------- a basket
@proof('taking from the pool: an open, unexpired entry that needs no closing; the others taken out are closed', budget=120)
def _(c):
    start(c); b, t = basket(c); g = c.ghost; now = c.real('now')
    pop_contract(c, b, now)
    r = attempt(c, ProtocolBasket.pop_available_protocol, b, now); no_raise(c, r)
    popped(c, b, t, now, r)
    tidy(c, b); use_stays(c, b)
def tup(ctx): return (Opaque(ctx.fresh('p', OBJ), PROTO), SReal(ctx.fresh('x', REAL)), SInt(ctx.fresh('n', I)))
def pop_contract(c, b, now):
    g = c.ghost
    if fld(c, b, 'available') is None: return
    lst = fld(c, b, 'available')
    def seq(L): return lst.as_term(EC)
    def havoc(L): g['closed'] = L.ctx.fresh('closed', AB); g['split'] = []
    def head(L): g['head'] = seq(L); g['head closed'] = g['closed']
    def step(L):
        ctx = L.ctx
        ctx.prove('one entry is taken out at a time', z3.And(bv(len(g['split']) == 1)))
        (t, pre, e, post), = g['split'][:1] or [(None,) * 4]
        if t is None: return
        ctx.prove('no other is lost', z3.And(g['head'] == z3.Concat(pre, z3.Unit(e), post), seq(L) == z3.Concat(pre, post)))
        ctx.prove('an entry passed over has no transport or is closed', z3.Or(z3.Not(HAS_T(P_(e))), is_closed(ctx, P_(e))))
        ctx.prove('for a reason', z3.Not(usable(P_(e), X_(e), term(now))))
        w = g['witness']; ctx.prove('no other is closed', z3.Implies(w != P_(e), is_closed(ctx, w) == z3.Select(g['head closed'], w)))
    # a protocol is in at most one place: what is still pooled is not closed by the loop
    loop(c, 'pop_available_protocol', 0, Loop(havoc=havoc, on_head=head, on_step=step, dec=lambda L: z3.Length(seq(L)), inv=lambda L: {'the pool': bv(L.get('available') is lst)}))
    def inv(L):
        hit, k = L.get('hit'), iterm(L.get('hit_index'))
        return {'an entry of the pool': z3.And(0 <= k, k < z3.Length(seq(L)), EC.enc(L.ctx, hit) == seq(L)[k])}
    loop(c, 'pop_available_protocol', 1, Loop(inv=inv, shapes={'hit': tup, 'hit_index': lambda ctx: ctx.int('hit_index')}))
def popped(c, b, t, now, r):
    """r: what pop_available_protocol gave"""
    g = c.ghost
    p, n = r.value if isinstance(r.value, tuple) and len(r.value) == 2 else (0, 0)
    if p is None:
        c.prove('nothing only when the pool is used up', z3.And(z3.Length(pool(c, b)) == 0, iterm(n) == 0)); return None
    c.prove('a protocol', bv(isinstance(p, Opaque)))
    ok = len(g['split']) == 1
    c.prove('the one just taken out', bv(ok))
    if not ok: return None
    (h, pre, e, post), = g['split']
    c.prove('from the pool, with its count of requests', z3.And(p.t == P_(e), iterm(n) == N_(e), g['head'] == z3.Concat(pre, z3.Unit(e), post)))
    c.prove('the rest stays pooled', pool(c, b) == z3.Concat(pre, post))
    c.prove('open, not expired, in order', usable(p.t, X_(e), term(now)))
    c.prove('it is not closed', z3.Implies(z3.Not(z3.Select(g['head closed'], p.t)), z3.Not(is_closed(c, p.t))))
    return p

@proof('clean-up keeps exactly the unexpired entries and closes the others', budget=120)
def _(c):
    start(c); b, t = basket(c); g = c.ghost; now = c.real('now'); n = z3.Length(t); N = term(now)
    lst = fld(c, b, 'available')
    k = c.fresh('place', I); e0 = t[k]; w = P_(e0)
    if lst is not None:
        c.assume(z3.And(0 <= k, k < n)); w2 = g['witness']
        def havoc(L): g['closed'] = L.ctx.fresh('closed', AB); g['split'] = []
        def head(L):
            ctx = L.ctx; i = L._i
            P, e, Q = ctx.fresh('P', SE), ctx.fresh('e', EC.sort), ctx.fresh('Q', SE)
            ctx.fact(z3.Implies(i < n, z3.And(t == z3.Concat(P, z3.Unit(e), Q), z3.Length(P) == n - i - 1, z3.Extract(t, 0, n - i) == z3.Concat(P, z3.Unit(e)), z3.Extract(t, 0, n - i - 1) == P,
                z3.Extract(t, n - i, i) == Q, z3.Extract(t, n - i - 1, i + 1) == z3.Concat(z3.Unit(e), Q), t[n - i - 1] == e,
                GONE(z3.Concat(z3.Unit(e), Q), N, w2) == z3.Or(z3.And(P_(e) == w2, X_(e) <= N), GONE(Q, N, w2)),
                KEPT(z3.Concat(z3.Unit(e), Q), N) == z3.Concat(z3.If(X_(e) > N, z3.Unit(e), z3.Empty(SE)), KEPT(Q, N)))))
            ctx.fact(z3.Extract(t, 0, n) == t)
        c.fact(KEPT(z3.Empty(SE), N) == z3.Empty(SE)); c.fact(z3.Not(GONE(z3.Empty(SE), N, w2)))
        def inv(L):
            i = L._i; s = z3.Length(z3.Extract(t, n - i, i))
            return {'the unexpired of those looked at': lst.as_term(EC) == z3.Concat(z3.Extract(t, 0, n - i), KEPT(z3.Extract(t, n - i, i), N)),
                'no other is closed': z3.Implies(z3.Not(GONE(z3.Extract(t, n - i, i), N, w2)), is_closed(L.ctx, w2) == was_closed(L.ctx, w2)),
                'an expired one looked at is closed': z3.Implies(z3.And(k >= n - i, X_(e0) <= N, HAS_T(w)), is_closed(L.ctx, w))}
        loop(c, 'clean_up_expired_protocols', 0, Loop(inv=inv, havoc=havoc, on_head=head))
    r = attempt(c, ProtocolBasket.clean_up_expired_protocols, b, now); no_raise(c, r); tidy(c, b); use_stays(c, b)
    if lst is None: c.prove('nothing is pooled', bv(fld(c, b, 'available') is None)); none_closed(c); return
    c.prove('exactly the unexpired are kept', pool(c, b) == KEPT(t, N))
    c.prove('no other is closed', z3.Implies(z3.Not(GONE(t, N, w2)), is_closed(c, w2) == was_closed(c, w2)))
    c.prove('every expired one is closed', z3.Implies(z3.And(X_(e0) <= N, HAS_T(w)), is_closed(c, w)))

@proof('closing a basket closes every protocol pooled or in use')
def _(c):
    start(c); b, t = basket(c, empty=True); g = c.ghost; n = z3.Length(t); lst = fld(c, b, 'available'); u = fld(c, b, 'used')
    k = c.fresh('place', I); w = g['witness']; pooled = z3.And(0 <= k, k < n, P_(t[k]) == w); used = z3.Select(g['used0'], w)
    def havoc(L): g['closed'] = L.ctx.fresh('closed', AB)
    x = z3.Const('x', OBJ)
    def inv1(L): return {'those before are closed': z3.Implies(z3.And(pooled, k < L._i), is_closed(L.ctx, w))}
    def inv2(L): return {'those before are closed': z3.And(z3.Implies(z3.And(used, g['place'](w) < L._i), is_closed(L.ctx, w)), z3.Implies(pooled, is_closed(L.ctx, w)))}
    if lst is not None: loop(c, 'close', 0, Loop(inv=inv1, havoc=havoc))
    if u is not None: loop(c, 'close', 1, Loop(inv=inv2, havoc=havoc))
    r = attempt(c, ProtocolBasket.close, b); no_raise(c, r)
    c.prove('every pooled one', z3.Implies(pooled, is_closed(c, w))); c.prove('every one in use', z3.Implies(used, is_closed(c, w)))
    c.prove('none is kept', bv(fld(c, b, 'available') is None and fld(c, b, 'used') is None))

@proof('a basket holds what is put in')
def _(c):
    start(c); b, t = basket(c, empty=True); g = c.ghost; w = g['witness']; k = c.choose(4)
    p = Opaque(c.fresh('protocol', OBJ), PROTO); u0 = z3.Select(g['used0'], w)
    if k == 0:
        r = attempt(c, ProtocolBasket.add_used_protocol, b, p); no_raise(c, r)
        c.prove('in use', z3.And(member(c, b, p.t), z3.Implies(w != p.t, member(c, b, w) == u0))); c.prove('the pool stays', pool(c, b) == t)
    elif k == 1:
        r = attempt(c, ProtocolBasket.remove_used_protocol, b, p); no_raise(c, r)
        c.prove('no longer in use', z3.And(z3.Not(member(c, b, p.t)), z3.Implies(w != p.t, member(c, b, w) == u0))); c.prove('the pool stays', pool(c, b) == t)
    elif k == 2:
        now, ka, nr = c.real('now'), c.real('keep_alive'), c.int('requests')
        r = attempt(c, ProtocolBasket.add_available_protocol, b, p, now, ka, nr); no_raise(c, r)
        c.prove('pooled last, until its time', pool(c, b) == z3.Concat(t, z3.Unit(EC.sort.constructor(0)(p.t, term(now) + term(ka), nr.t)))); use_stays(c, b)
    else:
        r = attempt(c, ProtocolBasket.__bool__, b); no_raise(c, r)
        c.prove('whether it holds anything', truth(c, r.value) == z3.Or(z3.Length(t) > 0, g['used n'] > 0)); c.prove('a read', pool(c, b) == t)
    tidy(c, b); none_closed(c)

# ---------------------------------------------------------------- the connector
class BasketsI(Iface):
    """protocols_by_host as seen from one key: g['basket'] (or None)"""
    name = 'baskets'
    types = (dict,)
    def mine(self, ctx, k):
        if not isinstance(k, Opaque) or not z3.is_true(z3.simplify(k.t == ctx.ghost['key'].t)): raise Unsupported('another key')
    def getitem(self, ctx, o, k):
        self.mine(ctx, k)
        if ctx.ghost['basket'] is None: raise PyExc(Inst(ctx, KeyError, {'args': (k,)}))
        return ctx.ghost['basket']
    def m_get(self, ctx, o, k, default=None):
        self.mine(ctx, k); b = ctx.ghost['basket']; return default if b is None else b
    def contains(self, ctx, o, k): self.mine(ctx, k); return z3.BoolVal(ctx.ghost['basket'] is not None)
    def setitem(self, ctx, o, k, v):
        self.mine(ctx, k); ctx.prove('a basket of that key', bv(isinstance(v, Inst) and v.cls is ProtocolBasket and fld(ctx, v, 'connection_key') is k)); ctx.ghost['basket'] = v
    def m_setdefault(self, ctx, o, k, v):
        if ctx.ghost['basket'] is None: self.setitem(ctx, o, k, v)
        return ctx.ghost['basket']
    def delitem(self, ctx, o, k):
        self.mine(ctx, k)
        if ctx.ghost['basket'] is None: raise PyExc(Inst(ctx, KeyError, {'args': (k,)}))
        ctx.ghost['basket'] = None
    def m_pop(self, ctx, o, k, *d):
        self.mine(ctx, k); b = ctx.ghost['basket']
        if b is None and not d: raise PyExc(Inst(ctx, KeyError, {'args': (k,)}))
        ctx.ghost['basket'] = None; return d[0] if b is None else b
BASKETS = BasketsI()
class LoopI(Iface):
    name = 'loop'
    def get_running(self, ctx, o): return ctx.ghost['running']
    def m_call_after_weak(self, ctx, o, after, f, *a): ctx.ghost['scheduled'].append(('after', after, f, a)); return Opaque(ctx.fresh('handle', OBJ), HANDLE)
    def m_call_at_weak(self, ctx, o, when, f, *a): ctx.ghost['scheduled'].append(('at', when, f, a)); return Opaque(ctx.fresh('handle', OBJ), HANDLE)
class HandleI(Iface):
    name = 'handle'
    def m_cancel(self, ctx, o): ctx.ghost['cancelled'].append(o)
LOOPI = LoopI(); HANDLE = HandleI()
def no_basket(c):
    g = c.ghost; g['used'] = g['used0'] = z3.K(OBJ, z3.BoolVal(False)); g['used n'] = z3.IntVal(0); g['basket'] = None
    return None, z3.Empty(SE)
def connector(c, closed=False, **fields):
    g = c.ghost; start(c); g['key'] = Opaque(c.fresh('key', OBJ), KEY); g['scheduled'] = []; g['cancelled'] = []; g['running'] = c.bool('running')
    g['now'] = c.real('now'); c.ghost.setdefault('globals', {}); use(c, CB.LOOP_TIME, lambda ctx: g['now'])
    b, t = basket(c, g['key']) if not closed and c.choose(2) else no_basket(c)
    g['basket'] = b
    f = dict(loop=Opaque(c.fresh('loop', OBJ), LOOPI), protocols_by_host=Opaque(c.fresh('baskets', OBJ), BASKETS), closed=closed, force_close=c.bool('force_close'),
        clean_up_handle=(None, Opaque(c.fresh('handle', OBJ), HANDLE))[c.choose(2)])
    f.update(fields)
    o = inst(c, ConnectorBase, **f)
    return o, b, t
def the_basket(c):
    """after a step: the basket of the key, which exists exactly when it holds something"""
    b = c.ghost['basket']; g = c.ghost
    if b is None:
        def left(t): c.fact(z3.Implies(z3.Select(g['used'], t), g['used n'] > 0)); return z3.BoolVal(False)
        return z3.Empty(SE), left
    tidy(c, b); a, u = fld(c, b, 'available'), fld(c, b, 'used')
    c.prove('a kept basket holds something', bv(a is not None or u is not None)); c.prove('of that key', bv(fld(c, b, 'connection_key') is c.ghost['key']))
    return pool(c, b), lambda t: member(c, b, t)
def entry(p, x, n): return EC.sort.constructor(0)(p.t, x, iterm(n))
def scheduled_none(c): c.prove('nothing is scheduled', bv(not c.ghost['scheduled']))

@proof('taking a protocol for a key: from the pool of that key, or none', budget=120)
def _(c):
    o, b, t = connector(c); g = c.ghost; w = g['witness']; u0 = z3.Select(g['used0'], w)
    if b is not None: pop_contract(c, b, g['now'])
    r = attempt(c, ConnectorBase.pop_available_protocol, o, g['key']); no_raise(c, r)
    m, mem = the_basket(c)
    if b is None: c.prove('none', bv(isinstance(r.value, tuple) and r.value[0] is None)); none_closed(c); return
    popped(c, b, t, g['now'], r)
    c.prove('what is in use stays', mem(w) == u0)
    if g['basket'] is None: c.prove('only an empty basket goes', z3.And(z3.Length(pool(c, b)) == 0, z3.Not(u0)))
    scheduled_none(c)

@proof('connecting: a usable pooled protocol or a new one, in use afterwards; none is left open when the connector was closed meanwhile', budget=120)
def _(c):
    o, b, t = connector(c); g = c.ghost; w = g['witness']
    if b is not None: pop_contract(c, b, g['now'])
    new = Opaque(c.fresh('new_protocol', OBJ), PROTO); g['created'] = 0
    class Aw(Iface):
        name = 'connecting'
        def await_(self, ctx, a):
            g['created'] += 1; k = ctx.choose(3)
            if k == 2: raise PyExc(g.setdefault('exc', Inst(ctx, OSError, {'args': ()})))
            # meanwhile anything can happen
            if k: o.fields['closed'] = True
            g['basket'] = basket(ctx, g['key'])[0] if not k and ctx.choose(2) else no_basket(ctx)[0]
            g['closed'] = g['closed0'] = ctx.fresh('closed_then', AB); ctx.fact(z3.Not(z3.Select(g['closed'], new.t)))
            return new
    aw = Aw()
    use(c, ConnectorBase.create_connection, lambda ctx, self, request: Opaque(ctx.fresh('connecting', OBJ), aw))
    class ReqI(Iface):
        name = 'request'
        def get_connection_key(self, ctx, a): return g['key']
    r = attempt(c, ConnectorBase.connect, o, Opaque(c.fresh('request', OBJ), ReqI()))
    if g['created']:
        c.prove('at most one connection is opened', bv(g['created'] == 1))
        if 'exc' in g: c.prove('its failure goes through', bv(r.raised and r.exc is g['exc'])); return
        if o.fields['closed'] is True:
            c.prove('refused, and the new protocol is closed', z3.And(bv(r.raised and r.is_a(ConnectionError)), is_closed(c, new.t))); return
    no_raise(c, r); x = r.value; p = fld(c, x, 'protocol')
    c.prove('a connection of this connector and key', bv(x.cls is Connection and fld(c, x, 'connector') is o and fld(c, x, 'key') is g['key'] and isinstance(p, Opaque)))
    c.prove('without callbacks', bv(fld(c, x, 'callbacks').items == []))
    n = iterm(fld(c, x, 'performed_requests'))
    if g['created']: c.prove('the new protocol, with no request yet, open', z3.And(p.t == new.t, n == 0, z3.Not(is_closed(c, p.t)))); t1 = None
    else:
        popped(c, b, t, g['now'], Res((p, fld(c, x, 'performed_requests'))))
    m, mem = the_basket(c)
    c.prove('it is in use, like those before', z3.And(mem(p.t), z3.Implies(w != p.t, mem(w) == z3.Select(g['used0'], w))))
class Res:
    raised = False
    def __init__(self, value): self.value = value

@proof('releasing: out of use, and then either closed or pooled for its key with its time and count, never both')
def _(c):
    o, b, t = connector(c); g = c.ghost; w = g['witness']; u0 = z3.Select(g['used0'], w)
    p = Opaque(c.fresh('protocol', OBJ), PROTO); sc = c.bool('should_close'); ka = c.real('keep_alive'); n = c.int('requests'); h0 = fld(c, o, 'clean_up_handle')
    c.assume(z3.Not(was_closed(c, p.t)))
    r = attempt(c, ConnectorBase.release, o, g['key'], p, sc, ka, n); no_raise(c, r)
    m, mem = the_basket(c)
    c.prove('it is no longer in use, the others are', z3.And(z3.Not(mem(p.t)), z3.Implies(w != p.t, mem(w) == u0)))
    must = z3.Or(sc.t, truth(c, fld(c, o, 'force_close')), SHOULD(p.t))
    c.prove('closed when it must be', z3.Implies(must, z3.And(is_closed(c, p.t), m == t)))
    c.prove('else pooled until its time', z3.Implies(z3.Not(must), z3.And(z3.Not(is_closed(c, p.t)), m == z3.Concat(t, z3.Unit(entry(p, term(g['now']) + ka.t, n))))))
    c.prove('no other is closed', z3.Implies(w != p.t, is_closed(c, w) == was_closed(c, w)))
    h = fld(c, o, 'clean_up_handle'); s = g['scheduled']
    c.prove('a clean-up is due when something is pooled', z3.Or(must, bv(h is not None)))
    if h0 is not None: c.prove('a clean-up that is due stays', bv(h is h0 and not s))
    elif s: c.prove('the clean-up is due when it expires', z3.And(bv(len(s) == 1 and h is not None and s[0][0] == 'after' and not s[0][3] and is_method(s[0][2], o, '_clean_up')), term(s[0][1]) == ka.t))
    else: c.prove('nothing is due', bv(h is None))
def is_method(f, o, name): return isinstance(f, Bound) and f.self is o and getattr(f.fn, '__name__', None) == name

@proof('detaching: out of use, neither closed nor pooled; a closed connector is left alone')
def _(c):
    k = c.choose(3)
    o, b, t = connector(c, closed=k > 0); g = c.ghost; w = g['witness']; u0 = z3.Select(g['used0'], w); p = Opaque(c.fresh('protocol', OBJ), PROTO)
    if k == 2: r = attempt(c, ConnectorBase.release, o, g['key'], p, c.bool('should_close'), c.real('keep_alive'), c.int('requests'))
    else: r = attempt(c, ConnectorBase.release_used_protocol, o, g['key'], p)
    no_raise(c, r); m, mem = the_basket(c)
    c.prove('it is not in use, the others are', z3.And(z3.Not(mem(p.t)), z3.Implies(w != p.t, mem(w) == u0)))
    c.prove('the pool stays', m == t); scheduled_none(c)
    if k < 2: none_closed(c)

@proof('putting a protocol in use or in the pool of a key')
def _(c):
    o, b, t = connector(c); g = c.ghost; w = g['witness']; u0 = z3.Select(g['used0'], w); p = Opaque(c.fresh('protocol', OBJ), PROTO)
    if c.choose(2):
        r = attempt(c, ConnectorBase.add_used_protocol, o, g['key'], p); no_raise(c, r); m, mem = the_basket(c)
        c.prove('in use, like those before', z3.And(mem(p.t), z3.Implies(w != p.t, mem(w) == u0))); c.prove('the pool stays', m == t)
    else:
        ka, n = c.real('keep_alive'), c.int('requests')
        r = attempt(c, ConnectorBase.add_available_protocol, o, g['key'], p, ka, n); no_raise(c, r); m, mem = the_basket(c)
        c.prove('pooled last, until its time', m == z3.Concat(t, z3.Unit(entry(p, term(g['now']) + ka.t, n)))); c.prove('what is in use stays', mem(w) == u0)
    none_closed(c); scheduled_none(c)

# every basket
EMPTIED = z3.Function('empty_after_clean_up', OBJ, B); KEY_OF = z3.Function('key_of', OBJ, OBJ)
class BasketI(Iface):
    name = 'basket'
    types = (ProtocolBasket,)
    def m_close(self, ctx, o): ctx.ghost['did'] = z3.Concat(ctx.ghost['did'], z3.Unit(o.t))
    def m_clean_up_expired_protocols(self, ctx, o, now):
        ctx.prove('as of now', eqv(ctx, now, ctx.ghost['now'])); ctx.ghost['did'] = z3.Concat(ctx.ghost['did'], z3.Unit(o.t))
    def truthy(self, ctx, o): return z3.Not(EMPTIED(o.t))
    def get_connection_key(self, ctx, o): return Opaque(KEY_OF(o.t), KEY)
    def m_get_closest_expiration(self, ctx, o): return SReal(CLOSEST(o.t))
CLOSEST = z3.Function('closest_expiration', OBJ, REAL)
BASKET = BasketI(); BC = ObjC(BASKET); KC = ObjC(KEY)
EMPTY_KEYS = z3.Function('keys_of_the_empty', SO, SO)
class AllI(Iface):
    """protocols_by_host as the sequence of its baskets"""
    name = 'all baskets'
    types = (dict,)
    def truthy(self, ctx, o): return z3.Length(ctx.ghost['baskets']) > 0
    def m_values(self, ctx, o): return LList(ctx, seq=ctx.ghost['baskets'], codec=BC)
    def delitem(self, ctx, o, k): ctx.ghost['removed'] = z3.Concat(ctx.ghost['removed'], z3.Unit(k.t))
    def m_clear(self, ctx, o): ctx.ghost['cleared'] = True
ALL = AllI()
def all_baskets(c, **f):
    closed = f.pop('closed', False)
    o, b, t = connector(c, closed=True, protocols_by_host=Opaque(c.fresh('baskets', OBJ), ALL), **f); g = c.ghost
    o.fields['closed'] = closed
    g['baskets'] = c.fresh('all_baskets', SO); g['did'] = g['removed'] = z3.Empty(SO); g['cleared'] = False
    return o
@proof('closing the connector closes every basket once; closing it again does nothing')
def _(c):
    again = bool(c.choose(2)); o = all_baskets(c, **({'closed': True} if again else {})); g = c.ghost; t = g['baskets']
    def havoc(L): g['did'] = L.ctx.fresh('did', SO)
    loop(c, 'close', 0, Loop(inv=lambda L: {'those before': g['did'] == z3.Extract(t, 0, L._i)}, havoc=havoc))
    c.fact(z3.Extract(t, 0, z3.Length(t)) == t)
    r = attempt(c, ConnectorBase.close, o); no_raise(c, r)
    c.prove('closed', truth(c, fld(c, o, 'closed')))
    if again: c.prove('nothing is done', z3.And(g['did'] == z3.Empty(SO), bv(not g['cleared']))); return
    c.prove('none is kept', bv(g['cleared']))
    c.prove('every basket is closed, once', z3.Implies(truth(c, g['running']), g['did'] == t))

@proof('clean-up: every basket is cleaned, the empty ones are removed, the next clean-up is due at the next expiry', budget=120)
def _(c):
    o = all_baskets(c); g = c.ghost; t = g['baskets']; h0 = fld(c, o, 'clean_up_handle'); nxt = c.real('closest')
    use(c, ConnectorBase.get_closest_expiration, lambda ctx, self: nxt)
    def removed(L):
        v = L.get('to_remove_keys')
        return z3.Empty(SO) if v is None else v.as_term(KC)
    def havoc(L): g['did'] = L.ctx.fresh('did', SO)
    def head(L):
        ctx = L.ctx; i = L._i; P, e = ctx.fresh('P', SO), ctx.fresh('e', OBJ)
        ctx.fact(z3.Implies(i < z3.Length(t), z3.And(z3.Extract(t, 0, i) == P, z3.Extract(t, 0, i + 1) == z3.Concat(P, z3.Unit(e)), t[i] == e,
            EMPTY_KEYS(z3.Concat(P, z3.Unit(e))) == z3.Concat(EMPTY_KEYS(P), z3.If(EMPTIED(e), z3.Unit(KEY_OF(e)), z3.Empty(SO))))))
    c.fact(EMPTY_KEYS(z3.Empty(SO)) == z3.Empty(SO))
    def keys(ctx):
        return None if ctx.choose(2) else LList(ctx, seq=ctx.fresh('to_remove', SO), codec=KC)
    loop(c, '_clean_up', 0, Loop(inv=lambda L: {'those before': z3.And(g['did'] == z3.Extract(t, 0, L._i), removed(L) == EMPTY_KEYS(z3.Extract(t, 0, L._i)))}, havoc=havoc, on_head=head, shapes={'to_remove_keys': keys}, lists={'to_remove_keys': KC}))
    def havoc2(L): g['removed'] = L.ctx.fresh('removed', SO)
    loop(c, '_clean_up', 1, Loop(inv=lambda L: {'those before': g['removed'] == z3.Extract(removed(L), 0, L._i)}, havoc=havoc2, on_head=lambda L: L.ctx.fact(z3.Extract(removed(L), 0, z3.Length(removed(L))) == removed(L))))
    c.fact(z3.Extract(t, 0, z3.Length(t)) == t)
    r = attempt(c, ConnectorBase._clean_up, o); no_raise(c, r)
    h = fld(c, o, 'clean_up_handle'); s = g['scheduled']
    c.prove('every basket is cleaned up once', g['did'] == t); c.prove('exactly the empty ones are removed', g['removed'] == EMPTY_KEYS(t))
    c.prove('the old handle is not kept', bv(h0 is None or h is not h0))
    if s: c.prove('the next one is due at the next expiry', z3.And(bv(len(s) == 1 and h is not None and s[0][0] == 'at' and is_method(s[0][2], o, '_clean_up') and not s[0][3]), term(s[0][1]) == nxt.t))
    else: c.prove('none is due only when nothing is pooled', z3.And(bv(h is None), z3.Or(z3.Length(t) == 0, nxt.t == -1)))

@proof('the next expiry is the smallest of all baskets, -1 when there is none')
def _(c):
    o = all_baskets(c); g = c.ghost; t = g['baskets']; k = c.fresh('place', I); e = CLOSEST(t[k])
    c.assume(z3.And(0 <= k, k < z3.Length(t))) if c.choose(2) else c.assume(z3.Length(t) == 0)
    def inv(L):
        v, i, j = term(L.get('closest_expiration')), L._i, g.setdefault('from', z3.IntVal(-1))
        return {'none when none was seen': z3.Or(z3.And(v == -1, j == -1), z3.And(v != -1, 0 <= j, j < i, v == CLOSEST(t[j]))),
            'at most every one seen': z3.Implies(z3.And(0 <= k, k < i, e != -1), z3.And(v != -1, v <= e))}
    def havoc(L): g['from'] = L.ctx.fresh('from', I)
    def step(L):
        v = term(L.get('closest_expiration')); i = g['at']; 
        g['from'] = z3.If(v == g['before'], g['from'], i)
    def head(L): g['at'] = L._i; g['before'] = term(L.get('closest_expiration'))
    loop(c, 'get_closest_expiration', 0, Loop(inv=inv, havoc=havoc, on_step=step, on_head=head, shapes={'closest_expiration': lambda ctx: SReal(ctx.fresh('closest', REAL))}))
    r = attempt(c, ConnectorBase.get_closest_expiration, o); no_raise(c, r); v = term(r.value); j = g.get('from', z3.IntVal(-1))
    c.prove('-1, or the expiry of a basket', z3.Or(v == -1, z3.And(0 <= j, j < z3.Length(t), v == CLOSEST(t[j]))))
    c.prove('none is earlier', z3.Implies(z3.And(0 <= k, k < z3.Length(t), e != -1), z3.And(v != -1, v <= e)))

# ---------------------------------------------------------------- a key
class EqI(Iface):
    name = 'host, port, proxy, TLS settings'
    def eq(self, ctx, a, b): return a.t == b.t if isinstance(b, Opaque) else z3.BoolVal(False)
EQI = EqI(); FIELDS = ('host', 'port', 'proxy', 'secure', 'ssl_context', 'ssl_fingerprint')
def a_key(c, cls=ConnectionKey):
    f = {k: Opaque(c.fresh(k, OBJ), EQI) for k in ('host',)}
    f.update(port=c.int('port'), secure=c.bool('secure'))
    for k in ('proxy', 'ssl_context', 'ssl_fingerprint'): f[k] = Opaque(c.fresh(k, OBJ), EQI) if c.choose(2) else None
    return inst(c, cls, **f)
def same(c, a, b):
    return z3.And(*[bv(x is y) if x is None or y is None else eqv(c, x, y) for x, y in ((a.fields[k], b.fields[k]) for k in FIELDS)])
@proof('keys are equal exactly when host, port, proxy, TLS and its settings are')
def _(c):
    a, b = a_key(c), a_key(c)
    r = attempt(c, ConnectionKey.__eq__, a, b); no_raise(c, r); c.prove('all of them', truth(c, r.value) == same(c, a, b))
@proof('a key keeps what it is given')
def _(c):
    a = a_key(c); r = attempt(c, ConnectionKey, *[a.fields[k] for k in FIELDS]); no_raise(c, r); c.prove('all of it', same(c, a, r.value))

# ---------------------------------------------------------------- a connection
class ConnI(Iface):
    name = 'connector'
    def m_release(self, ctx, o, key, protocol, sc, ka, n): ctx.ghost['given'].append(('release', key, protocol, sc, ka, n))
    def m_release_used_protocol(self, ctx, o, key, protocol): ctx.ghost['given'].append(('detach', key, protocol))
    def get_loop(self, ctx, o): return ctx.ghost['loop']
CONN = ConnI()
class CbI(Iface):
    name = 'callback'
    def call(self, ctx, o, args, kwargs):
        g = ctx.ghost; x = g['connection']
        ctx.prove('called without arguments', bv(not args and not kwargs))
        g['ran'] = z3.Concat(z3.Unit(o.t), g['ran'])
        k = ctx.choose(4)
        if k == 3:      # it closes the connection: runs the other callbacks and gives the protocol back
            l = x.fields['callbacks']; g['ran'] = z3.Concat(l.as_term(CC), g['ran']); ctx.touch(l, 'content'); l.set_seq(z3.Empty(SO))
            if x.fields['protocol'] is not None: x.fields['protocol'] = None; g['given'] = [('nested',)]
        elif k: raise PyExc(Inst(ctx, (ValueError, CancelledError)[k - 1], {'args': ()}))
CBI = CbI(); CC = ObjC(CBI)
class KaI(Iface):
    name = 'keep alive'
    def get_max_requests(self, ctx, o): return ctx.ghost['max']
    def get_connection_timeout(self, ctx, o): return ctx.ghost['timeout']
KA = KaI()
def connection(c, protocol=None):
    g = c.ghost; start(c); t = c.fresh('callbacks', SO); g['given'] = []; g['ran'] = z3.Empty(SO); g['loop'] = Opaque(c.fresh('loop', OBJ), LOOPI); g['running'] = c.bool('running')
    p = Opaque(c.fresh('protocol', OBJ), PROTO) if protocol or protocol is None and c.choose(2) else None
    x = g['connection'] = inst(c, Connection, callbacks=LList(c, seq=t, codec=CC), connector=Opaque(c.fresh('connector', OBJ), CONN), key=Opaque(c.fresh('key', OBJ), KEY), performed_requests=c.int('performed'), protocol=p)
    use(c, CN.write_exception_async, lambda ctx, *a, **k: None)
    def havoc(L):
        g['ran'] = L.ctx.fresh('ran', SO)
        x.fields['protocol'] = p; g['given'] = []
        if p is not None and L.ctx.choose(2): x.fields['protocol'] = None; g['given'] = [('nested',)]
    loop(c, '_run_callbacks', 0, Loop(havoc=havoc, dec=lambda L: z3.Length(x.fields['callbacks'].as_term(CC)),
        inv=lambda L: {'each callback once': z3.Concat(x.fields['callbacks'].as_term(CC), g['ran']) == t,
            'the protocol is given back at most once': bv(x.fields['protocol'] is p and not g['given'] or p is not None and x.fields['protocol'] is None and g['given'] == [('nested',)])}))
    return x, p, t
for name in ('close', 'release', 'detach'):
    @proof(f'Connection.{name}: gives the protocol back exactly once, whatever the callbacks do, each of which runs once')
    def _(c, name=name):
        x, p, t = connection(c); g = c.ghost; n0 = x.fields['performed_requests']
        g['max'], g['timeout'] = c.int('max_requests'), c.real('timeout'); ka = Opaque(c.fresh('keep_alive', OBJ), KA) if c.choose(2) else None
        r = attempt(c, getattr(Connection, name), x, *([ka] if name == 'release' else [])); no_raise(c, r)
        c.prove('every callback ran once', z3.And(g['ran'] == t, z3.Length(x.fields['callbacks'].as_term(CC)) == 0))
        c.prove('the protocol is given up', bv(fld(c, x, 'protocol') is None)); none_closed(c)
        gv = g['given']
        if p is None: c.prove('there is nothing to give back', bv(not gv)); return
        c.prove('given back once', bv(len(gv) == 1))
        if not gv or gv[0][0] == 'nested': return
        c.prove('that protocol, for that key', bv(gv[0][1] is x.fields['key'] and gv[0][2] is p))
        if name == 'detach': c.prove('taken out of use only', bv(gv[0][0] == 'detach')); return
        c.prove('released', bv(gv[0][0] == 'release'))
        if gv[0][0] != 'release': return
        _, _, _, sc, tm, n = gv[0]
        if name == 'close': c.prove('to be closed', truth(c, sc)); return
        reuse = z3.And(z3.Not(SHOULD(p.t)), bv(ka is not None), z3.Or(g['max'].t == KEEP_ALIVE_MAX_REQUESTS_DEFAULT, n0.t + 1 < g['max'].t))
        c.prove('kept exactly when both sides allow it', truth(c, sc) == z3.Not(reuse))
        c.prove('with one more request, for the agreed time', z3.Implies(reuse, z3.And(iterm(n) == n0.t + 1, eqv(c, tm, g['timeout']))))
@proof('a connection that is dropped gives its protocol back to be closed')
def _(c):
    x, p, t = connection(c); g = c.ghost
    r = attempt(c, Connection.__del__, x); no_raise(c, r); gv = g['given']; none_closed(c)
    if p is None: c.prove('nothing to give back', bv(not gv)); return
    if gv: c.prove('once, to be closed', z3.And(bv(len(gv) == 1 and gv[0][:1] + gv[0][2:3] == ('release', p) and gv[0][1] is x.fields['key']), truth(c, gv[0][3]) if gv[0][0] == 'release' else z3.BoolVal(False)))
    else: c.prove('unless the loop does not run', z3.Not(truth(c, g['running'])))
@proof('add_callback: kept for later, or run at once on a closed connection')
def _(c):
    x, p, t = connection(c); g = c.ghost; f = Opaque(c.fresh('callback', OBJ), CBI)
    open_ = z3.BoolVal(False) if p is None else HAS_T(p.t)
    r = attempt(c, Connection.add_callback, x, f); no_raise(c, r)
    now = x.fields['callbacks'].as_term(CC)
    if c.branch(open_): c.prove('kept, not run', z3.And(now == z3.Concat(t, z3.Unit(f.t)), g['ran'] == z3.Empty(SO), bv(not g['given'])))
    else: c.prove('run once, not kept', z3.And(z3.Concat(now, g['ran']) == z3.Concat(t, z3.Unit(f.t)), z3.Length(g['ran']) >= 1))
@proof('what a connection reports')
def _(c):
    x, p, t = connection(c); k = c.choose(2)
    r = attempt(c, (Connection.is_closed, Connection.get_transport)[k], x); no_raise(c, r); none_closed(c)
    open_ = z3.BoolVal(False) if p is None else HAS_T(p.t)
    if k == 0: c.prove('closed exactly without a transport', truth(c, r.value) == z3.Not(open_))
    else: c.prove('its transport', z3.Not(open_) if r.value is None else z3.And(open_, r.value.t == TR(p.t)))
class ChunksI(Iface):
    name = 'received chunks'
    def truthy(self, ctx, o): return ctx.ghost['unread']
CHUNKS = ChunksI()
@proof('a connection needs closing exactly when the other side closed it, an error is set, a payload is being read or bytes nobody asked for came')
def _(c):
    g = c.ghost; g['unread'] = c.fresh('unread', B); off = c.int('offset'); eof = c.bool('at_eof'); c.assume(off.t >= 0)
    s, e = (Opaque(c.fresh(n, OBJ), EQI) if c.choose(2) else None for n in ('payload', 'exception'))
    o = inst(c, HttpReadWriteProtocol, _payload_stream=s, _exception=e, _at_eof=eof, _offset=off, _chunks=Opaque(c.fresh('chunks', OBJ), CHUNKS))
    r = attempt(c, HttpReadProtocol.should_close, o); no_raise(c, r)
    c.prove('exactly then', truth(c, r.value) == z3.Or(bv(s is not None), bv(e is not None), eof.t, off.t > 0, g['unread']))

# ---------------------------------------------------------------- the real connector, protocols and connections on a stepped loop
RULE = 'connections opened (failing, slow), reused, given back in every way (keep alive settings, detached, dropped, inside callbacks), closed / written to by the server, aborted reads, time passing, clean-up, the connector closed; 7 keys; distinct by content'
SEARCH_S = 8
def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(3, 24)):
            x = rng.random(); k = rng.randint(0, 9)
            ops.append(['connect', rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6]), rng.choice([0, 0, 0, 1, 1, 2])] if x < .34
                else ['give', k, rng.choice([0, 0, 0, 0, 1, 2, 3, 4]), rng.choice([5, 5, 15, 1, 0]), rng.choice([0, 0, 1, 2, 3])] if x < .66
                else ['time', rng.choice([1, 4, 5, 6, 15, 20])] if x < .76 else ['server', k, rng.randint(0, 3)] if x < .86 else ['callback', k, rng.randint(0, 3)] if x < .93
                else ['open'] if x < .96 else ['clean'] if x < .985 else ['shut'])
        yield [rng.random() < .06, ops]
class Transport:
    closed = False
    def __init__(self, lp, protocol): self.loop = lp; self.protocol = protocol
    def close(self):
        if not self.closed: self.closed = True; self.loop.call_after(2, self.protocol.connection_lost, None)       # what is still to be written goes first
    def abort(self, exception=None): self.close()
    def get_extra_info(self, name, default=None): return default
    def pause_reading(self): return True
    def resume_reading(self): return True
KEYS = [('a', 80, None, False, None, None), ('a', 80, None, True, None, None), ('b', 80, None, False, None, None), ('a', 443, None, False, None, None), ('a', 80, 'proxy', False, None, None),
    ('a', 80, None, True, 'context', None), ('a', 80, None, True, None, 'fingerprint')]
def check_case(case):
    from scarletio.web_common.keep_alive_info import KeepAliveInfo
    force, ops = case
    lp = FakeLoop(); bad = []; tasks = []; live = []; protos = []; info = {}; waiting = []; now = []
    saved = CB.LOOP_TIME, CN.write_exception_async
    CB.LOOP_TIME = lambda: lp.now; CN.write_exception_async = lambda *a, **k: None
    class Connector(ConnectorBase):
        __slots__ = ()
        async def create_connection(self, request):
            how = request.how
            if how == 1: f = Future(lp); waiting.append(f); await f
            if how == 2: raise OSError('refused')
            p = HttpReadWriteProtocol(lp); p.connection_made(Transport(lp, p)); protos.append(p)
            info[p] = d = dict(key=request.key, state='new', n=0, until=None, gone=False); request.made = p; return p
    class Request:
        def __init__(self, k, how): self.key = k; self.how = how; self.connection_key = ConnectionKey(*KEYS[k]); self.made = None
    cn = Connector(lp, force_close=force)
    def dead(p): d = info[p]; return d['gone'] or p.get_transport() is None or p.get_transport().closed
    def opening(request, could):
        async def f():
            try: x = await cn.connect(request)
            except (OSError, ConnectionError) as e:
                if request.made is not None and not request.made.get_transport().closed: bad.append('a connection opened for nothing stays open')
                if request.how == 2 and request.made is None and not could or isinstance(e, ConnectionError) and cn.closed: return
                bad.append(f'connect failed with {e!r}'); return
            p = x.protocol; d = info[p]
            if cn.closed and request.made is not None: bad.append('a connection of a closed connector is given out')
            if d['state'] == 'new':
                if p is not request.made or x.performed_requests != 0: bad.append('a new connection is not new')
                if could: bad.append('a usable pooled connection is not used')
            elif d['state'] != 'pooled': bad.append(f'a {d["state"]} connection is handed out')
            else:
                if request.made is not None: bad.append('opened for nothing')
                if d['until'] < lp.now: bad.append('an expired connection is reused')
                if x.performed_requests != d['n']: bad.append(f'{x.performed_requests} requests counted instead of {d["n"]}')
                if 'why' in d: bad.append(f'a connection that {d["why"]} is reused')
            if d['key'] != request.key: bad.append(f'a connection to {KEYS[d["key"]]} is used for {KEYS[request.key]}')
            if dead(p): bad.append('a closed connection is handed out')
            d['state'] = 'live'; d['n'] = x.performed_requests; d['calls'] = []; d['expect'] = []; live.append(x)
        return f()
    def end(x, how, timeout, most):
        """gives x back; what is due then"""
        p = x.protocol; d = info[p]; was = dead(p); must = how != 0 or 'why' in d or force or most and d['n'] + 1 >= most
        d['state'] = 'ending'; d['due'] = (must, how, timeout); now[:] = [x]
        if how == 0: x.release(KeepAliveInfo(timeout, most))
        elif how == 1: x.release(None)
        elif how == 2: x.close()
        elif how == 3: x.detach()
        now.clear()
        if how != 4 and sorted(d['calls']) != sorted(d['expect']): bad.append(f'callbacks {d["expect"]} ran as {d["calls"]}')
        if how != 4 and x.protocol is not None: bad.append('the protocol is kept')
        settle(d, p)
    def settle(d, p):
        must, how, timeout = d['due']
        if d['state'] != 'ending': return          # a callback closed it
        if how == 3: d['state'] = 'closed' if dead(p) else 'detached'; return
        if must:
            d['state'] = 'closed'
            if not dead(p): bad.append(f'given back ({how}) without being closed')
        else:
            d['state'] = 'pooled' if not cn.closed else 'closed'; d['n'] += 1; d['until'] = lp.now + timeout
            if dead(p) and not d['gone'] and not cn.closed: bad.append('a pooled connection is closed')
    def step(op):
        if op[0] == 'connect':
            r = Request(op[1], op[2]); could = any(d['state'] == 'pooled' and d['key'] == op[1] and d['until'] >= lp.now and not dead(p) and 'why' not in d for p, d in info.items())
            tasks.append(Task(lp, opening(r, could))); lp.turn()
        elif op[0] == 'give' and live:
            x = live.pop(op[1] % len(live)); how = op[2]
            if how == 4:
                p = x.protocol; d = info[p]; d['state'] = 'ending'; d['due'] = (True, 4, 0); d['x'] = None; del x; settle(d, p)
            else: end(x, *op[2:])
            lp.turn()
        elif op[0] == 'time': lp.advance(op[1]); lp.turn()
        elif op[0] == 'server' and protos:
            p = protos[op[1] % len(protos)]; d = info[p]
            if d['gone'] or p.get_transport().closed: return
            if op[2] == 0: p.get_transport().closed = True; p.connection_lost(None); d['gone'] = True; d['why'] = 'the server closed'
            elif op[2] == 1: p.get_transport().closed = True; p.connection_lost(OSError('reset')); d['gone'] = True; d['why'] = 'was reset'
            elif op[2] == 2: p.data_received(b'unexpected'); d['why'] = 'the server wrote to while idle'
            elif d['state'] == 'live': p.eof_received(); d['why'] = 'was given up while reading'
        elif op[0] == 'callback' and live:
            x_ = live[op[1] % len(live)]; d = info[x_.protocol]; n = len(d['expect']); d['expect'].append(n); calls = d['calls']
            def f(n=n, k=op[2]):
                calls.append(n)
                if k == 1: raise ValueError
                if k == 2: raise CancelledError
                if k == 3 and now and now[0].protocol is not None: info[now[0].protocol]['due'] = (True, 2, 0); now[0].close()
            x_.add_callback(f); del x_
        elif op[0] == 'open':
            for f in waiting: f.set_result_if_pending(None)
            lp.turn()
        elif op[0] == 'clean':
            cn._clean_up()
            for p, d in info.items():
                if d['state'] == 'pooled' and d['until'] <= lp.now and not dead(p): bad.append('an expired connection is not closed by the clean-up')
        elif op[0] == 'shut':
            cn.close()
            for p, d in info.items():
                if d['state'] in ('pooled', 'live') and not dead(p): bad.append(f'a {d["state"]} connection stays open when the connector is closed')
        for p, d in info.items():
            if d['state'] in ('live', 'detached') and dead(p) and not d['gone'] and not cn.closed: bad.append(f'a {d["state"]} connection is closed')
            if d['state'] == 'detached' and dead(p) and not d['gone']: bad.append('a detached connection is closed')
            if d['state'] == 'pooled' and dead(p) and not d['gone'] and d['until'] > lp.now and 'why' not in d and not cn.closed: bad.append('a pooled connection is closed before its time')
            if d['state'] == 'closed' and not dead(p): bad.append('a closed connection is open again')
    try:
        for op in ops:
            step(op)
            if bad: return bad[0]
        step(['open'])
        live.clear()
        lp.advance(0); lp.turn()
        for _ in range(60):
            nxt = [h.when for h in lp._scheduled if not h.cancelled]
            if not nxt: break
            lp.advance(max(0, min(nxt) - lp.now)); lp.turn()
        if bad: return bad[0]
        for p, d in info.items():
            if d['state'] not in ('detached', 'new') and not dead(p): return f'a connection last {d["state"]} is never closed'
    finally:
        CB.LOOP_TIME, CN.write_exception_async = saved
        for t in tasks + waiting: t.silence(); t._callbacks.clear()
    return None
def shrink(case):
    force, ops = case
    for k in range(len(ops)): yield [force, ops[:k] + ops[k + 1:]]
    if force: yield [False, ops]
