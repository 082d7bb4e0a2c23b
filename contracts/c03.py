"""C03: a sorted list stays sorted and loses nothing."""
from pv.lib import *
from scarletio.utils.sorted_list import SortedList

PROOFS, proof = proof_registry()
TRUSTED = ['sorted() and list.sort() give a sorted permutation of their input', 'elements are totally ordered and their comparisons are pure: a rank stands for each element']

KEY = z3.Function('rank', OBJ, I)           # place of an element in the total order
KEYF = z3.Function('key_of', OBJ, I)        # what the key function of get / pop gives
MS = z3.Function('multiset', z3.ArraySort(I, OBJ), I, z3.ArraySort(OBJ, I))

class ElemI(Iface):
    name = 'element'
    def order(self, ctx, op, a, b):
        if not (isinstance(a, Opaque) and isinstance(b, Opaque)): raise Unsupported('order')
        x, y = KEY(a.t), KEY(b.t)
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
    def eq(self, ctx, a, b):
        if not isinstance(b, Opaque): return z3.BoolVal(False)
        return KEY(a.t) == KEY(b.t)
class KeyI(Iface):
    name = 'key function'
    def call(self, ctx, o, args, kwargs): return SInt(KEYF(args[0].t))
ELEM = ElemI(); KEYFN = KeyI()
CODEC = ObjC(ELEM)

def le(rev, x, y, key=KEY): return key(x) >= key(y) if rev else key(x) <= key(y)
def is_sorted(arr, n, rev, key=KEY):
    i, j = z3.Ints('i j')
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), le(rev, z3.Select(arr, i), z3.Select(arr, j), key)), patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))])

def each(arr, lo, hi, p):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), p(z3.Select(arr, j))), patterns=[z3.Select(arr, j)])

def rank_of(v): return KEY(v.t)

def array(c, name):
    n = c.fresh(name + '_len', I); c.assume(n >= 0)
    return LArray(c, c.fresh(name, z3.ArraySort(I, OBJ)), n, CODEC)

def direction(c): return c.choose(2) == 1

def sorted_list(c, rev, name='elements', key=KEY):
    a = array(c, name)
    c.assume(is_sorted(a.arr, a.n, rev, key))
    return inst(c, SortedList, base=a, _reversed=rev)

def value(c, name='value'): return Opaque(c.fresh(name, OBJ), ELEM)

def split_at(a, rev, index, k, key=KEY):
    """everything before index comes strictly before a value of rank k, nothing from index on does"""
    before = (lambda x: key(x) > k) if rev else (lambda x: key(x) < k)
    return z3.And(index >= 0, index <= a.n, each(a.arr, z3.IntVal(0), index, before), each(a.arr, index, a.n, lambda x: z3.Not(before(x))))

def search_loops(c, fn, a, rev, key=KEY, rank=None):
    def inv(L):
        bot, top = L.t('bot'), L.t('top'); k = rank(L)
        before = (lambda x: key(x) > k) if rev else (lambda x: key(x) < k)
        return {'bounds': z3.And(0 <= bot, bot <= top, top <= a.n), 'left of bot is before': each(a.arr, z3.IntVal(0), bot, before), 'from top on is not': each(a.arr, top, a.n, lambda x: z3.Not(before(x)))}
    for o in (0, 1): loop(c, fn, o, Loop(inv=inv, dec=lambda L: L.t('top') - L.t('bot')))


@proof('relative_index finds the insertion point')
def _(c):
    rev = direction(c)
    s = sorted_list(c, rev); v = value(c)
    search_loops(c, 'SortedList.relative_index', s.base, rev, rank=lambda L: rank_of(v))
    r = attempt(c, SortedList.relative_index, s, v)
    no_raise(c, r)
    c.prove('splits the list at the value', split_at(s.base, rev, iterm(r.value), rank_of(v)))
    c.prove('nothing changed', s.base.n == s.base.n)


@proof('keyed_relative_index finds the insertion point')
def _(c):
    rev = direction(c)
    s = sorted_list(c, rev, key=KEYF); k = c.int('key value')
    search_loops(c, 'SortedList.keyed_relative_index', s.base, rev, key=KEYF, rank=lambda L: k.t)
    r = attempt(c, SortedList.keyed_relative_index, s, k, Opaque(c.fresh('key', OBJ), KEYFN))
    no_raise(c, r)
    c.prove('splits the list at the value', split_at(s.base, rev, iterm(r.value), k.t, KEYF))


def relative_index_contract(ctx, s, v):
    i = ctx.fresh('index', I)
    ctx.assume(split_at(s.base, s.fields['_reversed'], i, rank_of(v)))
    return SInt(i)
def keyed_contract(ctx, s, k, key):
    i = ctx.fresh('index', I)
    ctx.assume(split_at(s.base, s.fields['_reversed'], i, iterm(k), KEYF))
    return SInt(i)
def setup(c):
    use(c, SortedList.relative_index, relative_index_contract)
    use(c, SortedList.keyed_relative_index, keyed_contract)

def present(a, n, k, key=KEY):
    j = z3.Int('j')
    return z3.Exists([j], z3.And(0 <= j, j < n, key(z3.Select(a, j)) == k))

def same(a, b, lo, hi, shift=0):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.Select(a, j) == z3.Select(b, j + shift)), patterns=[z3.Select(a, j)])


@proof('add keeps order; replaces an equal element or inserts one')
def _(c):
    setup(c)
    rev = direction(c)
    s = sorted_list(c, rev); v = value(c)
    a0, n0 = s.base.arr, s.base.n
    # the place is a function of list and value (split_at determines it): remembered for the frame conditions
    place = []
    use(c, SortedList.relative_index, lambda ctx, s_, v_: (place.append(relative_index_contract(ctx, s_, v_)), place[-1])[1])
    r = attempt(c, SortedList.add, s, v)
    no_raise(c, r)
    a1, n1 = s.base.arr, s.base.n
    c.prove('sorted', is_sorted(a1, n1, rev))
    p = iterm(place[-1])
    c.prove('at most one more', z3.Or(n1 == n0, n1 == n0 + 1))
    c.prove('the value is in', z3.And(p < n1, z3.Select(a1, p) == v.t))
    c.prove('elements before stay', same(a1, a0, z3.IntVal(0), p))
    if c.branch(n1 == n0):
        c.prove('only an equal element was replaced', KEY(z3.Select(a0, p)) == rank_of(v))
        c.prove('elements after stay', same(a1, a0, p + 1, n1))
    else:
        c.prove('inserted only when no equal element was there', z3.Or(p == n0, KEY(z3.Select(a0, p)) != rank_of(v)))
        c.prove('elements after move by one', same(a1, a0, p + 1, n1, -1))


@proof('remove takes out one equal element or changes nothing')
def _(c):
    setup(c)
    rev = direction(c)
    s = sorted_list(c, rev); v = value(c)
    a0, n0 = s.base.arr, s.base.n
    place = []
    use(c, SortedList.relative_index, lambda ctx, s_, v_: (place.append(relative_index_contract(ctx, s_, v_)), place[-1])[1])
    r = attempt(c, SortedList.remove, s, v)
    no_raise(c, r)
    a1, n1 = s.base.arr, s.base.n
    p = iterm(place[-1])
    c.prove('sorted', is_sorted(a1, n1, rev))
    if c.branch(n1 == n0):
        c.prove('unchanged', same(a1, a0, z3.IntVal(0), n0))
        c.prove('because absent', each(a0, z3.IntVal(0), n0, lambda x: KEY(x) != rank_of(v)))
    else:
        c.prove('one less', n1 == n0 - 1)
        c.prove('an equal one went', z3.And(p < n0, KEY(z3.Select(a0, p)) == rank_of(v)))
        c.prove('elements before stay', same(a1, a0, z3.IntVal(0), p))
        c.prove('elements after move by one', same(a1, a0, p, n1, 1))


@proof('membership and index find an element exactly when one is present')
def _(c):
    setup(c)
    rev = direction(c)
    s = sorted_list(c, rev); v = value(c)
    a, n = s.base.arr, s.base.n
    absent = each(a, z3.IntVal(0), n, lambda x: KEY(x) != rank_of(v))
    if c.choose(2):
        r = attempt(c, SortedList.__contains__, s, v)
        no_raise(c, r)
        if truth_branch(c, r.value): c.prove('present when reported', present(a, n, rank_of(v)))
        else: c.prove('absent when denied', absent)
    else:
        r = attempt(c, SortedList.index, s, v)
        only_raises(c, r, ValueError)
        if r.raised: c.prove('absent when it raises', absent)
        else: c.prove('the index holds it', z3.And(iterm(r.value) >= 0, iterm(r.value) < n, KEY(z3.Select(a, iterm(r.value))) == rank_of(v)))
    c.prove('nothing changed', z3.And(s.base.n == n, same(s.base.arr, a, z3.IntVal(0), n)))

def truth_branch(c, v): return c.it.truth(v)


@proof('get and pop by key find an element exactly when one is present')
def _(c):
    setup(c)
    rev = direction(c)
    s = sorted_list(c, rev, key=KEYF); k = c.int('key value')
    key = Opaque(c.fresh('key', OBJ), KEYFN)
    a, n = s.base.arr, s.base.n
    default = Opaque(c.fresh('default', OBJ))
    pop = c.choose(2) == 1
    place = []
    use(c, SortedList.keyed_relative_index, lambda ctx, s_, v_, f_: (place.append(keyed_contract(ctx, s_, v_, f_)), place[-1])[1])
    r = attempt(c, SortedList.pop if pop else SortedList.get, s, k, key, default)
    no_raise(c, r)
    a1, n1 = s.base.arr, s.base.n
    p = iterm(place[-1])
    if r.value is default:
        c.prove('default only when absent', each(a, z3.IntVal(0), n, lambda x: KEYF(x) != k.t))
        c.prove('nothing changed', z3.And(n1 == n, same(a1, a, z3.IntVal(0), n)))
        return
    c.prove('an element with that key', z3.And(p < n, r.value.t == z3.Select(a, p), KEYF(r.value.t) == k.t))
    if not pop: c.prove('nothing changed', z3.And(n1 == n, same(a1, a, z3.IntVal(0), n))); return
    c.prove('exactly that element went', z3.And(n1 == n - 1, same(a1, a, z3.IntVal(0), p), same(a1, a, p, n1, 1)))
    c.prove('sorted', is_sorted(a1, n1, rev, KEYF))


def sort_contract(ctx, it_arr, rev):
    """a sorted permutation"""
    new = LArray(ctx, ctx.fresh('sorted', z3.ArraySort(I, OBJ)), it_arr.n, CODEC)
    ctx.assume(is_sorted(new.arr, new.n, rev), MS(new.arr, new.n) == MS(it_arr.arr, it_arr.n))
    return new


def ms_step(ctx, arr, i):
    """multiset of a prefix"""
    x = z3.Select(arr, i)
    ctx.fact(MS(arr, z3.IntVal(0)) == z3.K(OBJ, z3.IntVal(0)))
    ctx.fact(z3.Implies(i >= 0, MS(arr, i + 1) == z3.Store(MS(arr, i), x, z3.Select(MS(arr, i), x) + 1)))


def extend_setup(c, s, rev):
    def inserts(ctx, lst, i, v):
        a0, n0 = lst.base.arr, lst.base.n
        models.call_method(ctx.it, lst.base, 'insert', [i, v], {})
        ctx.fact(MS(lst.base.arr, lst.base.n) == z3.Store(MS(a0, n0), v.t, z3.Select(MS(a0, n0), v.t) + 1))
    def list_extend(ctx, lst, o):
        o = o.base if isinstance(o, Inst) else o
        lst.base = LArray(ctx, o.arr, o.n, CODEC)
    use(c, list.insert, inserts); use(c, list.extend, list_extend)
    use(c, sorted, lambda ctx, v, key=None, reverse=False: sort_contract(ctx, v if isinstance(v, LArray) else v.base, ctx.it.truth(reverse)))


@proof('extend adds exactly the new elements and keeps order', budget=300)
def _(c):
    rev = direction(c)
    s = sorted_list(c, rev)
    kind = c.choose(4)
    if kind == 0: other = array(c, 'others'); src = other
    elif kind == 3: other = s; src = None
    else: other = sorted_list(c, kind == 2, 'others'); src = other.base
    a0, n0 = s.base.arr, s.base.n
    o_arr, o_n = (src.arr, src.n) if src is not None else (a0, n0)
    extend_setup(c, s, rev)
    ms0 = MS(a0, n0)

    def outer(L):
        ctx = L.ctx; b = s.base; bot = L.t('bot'); i = L._i; n = L._n
        x = L._src.get(i).t
        nxt = z3.Implies(i < n, each(b.arr, z3.IntVal(0), bot, lambda y: le(rev, y, x)))
        return {
            'bounds': z3.And(bot >= 0, bot <= b.n, L.t('ln') == b.n, i >= 0, i <= n, b.n == n0 + i, n == o_n),
            'sorted': is_sorted(b.arr, b.n, rev),
            'left of bot comes before what follows': nxt,
            'contents': MS(b.arr, b.n) == L.env['ms'],
        }
    def entry(L): return {'ms': ms0}
    def havoc(L): L.env['ms'] = L.ctx.fresh('ms', z3.ArraySort(OBJ, I))
    def step(L):
        x = L._src.get(L._i - 1).t
        L.env['ms'] = z3.Store(L.env['ms'], x, z3.Select(L.env['ms'], x) + 1)
    def inner(L):
        b = s.base; bot, top = L.t('bot'), L.t('top'); x = L.value.t
        return {'bounds': z3.And(0 <= bot, bot <= top, top <= b.n),
            'left of bot': each(b.arr, z3.IntVal(0), bot, lambda y: le(rev, y, x)),
            'from top on': each(b.arr, top, b.n, lambda y: le(rev, x, y))}
    for o in (0, 2): loop(c, 'SortedList.extend', o, Loop(inv=outer, on_entry=entry, havoc=havoc, on_step=step))
    for o in (1, 3): loop(c, 'SortedList.extend', o, Loop(inv=inner, dec=lambda L: L.t('top') - L.t('bot')))
    r = attempt(c, SortedList.extend, s, other)
    no_raise(c, r)
    c.prove('sorted', is_sorted(s.base.arr, s.base.n, rev))
    c.prove('as many more as given', s.base.n == n0 + o_n)
    if src is not None: c.prove('the source is left alone', z3.And(src.n == o_n, same(src.arr, o_arr, z3.IntVal(0), o_n)))


@proof('creating a list sorts it, in the asked direction')
def _(c):
    rev = c.choose(2) == 1
    src = array(c, 'source')
    ms = MS(src.arr, src.n)
    def ext(ctx, lst, iterable):
        ctx.prove('extends with the source', bv(iterable is src))
        n = ctx.fresh('n', I); arr = ctx.fresh('arr', z3.ArraySort(I, OBJ))
        ctx.assume(n >= 0, MS(arr, n) == ms)
        lst.base = LArray(ctx, arr, n, CODEC)
    def srt(ctx, lst, key=None, reverse=False):
        lst.base = sort_contract(ctx, lst.base, ctx.it.truth(reverse))
    use(c, SortedList.extend, ext); use(c, list.sort, srt); use(c, list.extend, ext)
    use(c, sorted, lambda ctx, v, key=None, reverse=False: sort_contract(ctx, v, ctx.it.truth(reverse)))
    r = attempt(c, SortedList, src, rev)
    no_raise(c, r)
    l = r.value
    c.prove('direction kept', eqv(c, l.fields['_reversed'], rev))
    c.prove('sorted', is_sorted(l.base.arr, l.base.n, rev))
    c.prove('same contents', MS(l.base.arr, l.base.n) == ms)


@proof('resort, copy and turning the direction keep the contents and sort')
def _(c):
    rev = direction(c)
    kind = c.choose(3)
    if kind == 0:
        a = array(c, 'elements'); ms = MS(a.arr, a.n)
        s = inst(c, SortedList, base=a, _reversed=rev)
        def srt(ctx, lst, key=None, reverse=False):
            lst.base = sort_contract(ctx, lst.base, ctx.it.truth(reverse))
        use(c, list.sort, srt)
        r = attempt(c, SortedList.resort, s)
        no_raise(c, r)
        c.prove('sorted', is_sorted(s.base.arr, s.base.n, rev)); c.prove('same contents', MS(s.base.arr, s.base.n) == ms)
        return
    s = sorted_list(c, rev)
    a0, n0 = s.base.arr, s.base.n
    if kind == 1:
        def extend(ctx, lst, o):
            o = o.base if isinstance(o, Inst) else o
            lst.base = LArray(ctx, o.arr, o.n, CODEC)
        use(c, list.extend, extend)
        r = attempt(c, SortedList.copy, s)
        no_raise(c, r)
        k = r.value
        c.prove('another list', bv(k is not s and k.base is not s.base and k.cls is SortedList))
        c.prove('same elements', z3.And(k.base.n == n0, same(k.base.arr, a0, z3.IntVal(0), n0)))
        c.prove('same direction', eqv(c, k.fields['_reversed'], rev))
        c.prove('original unchanged', z3.And(s.base.n == n0, same(s.base.arr, a0, z3.IntVal(0), n0)))
        return
    new = c.bool('new direction')
    try: c.it.setattr(s, 'reverse', new)
    except PyExc as e: no_raise(c, Outcome(exc=e.value))
    nrev = c.it.truth(new)
    c.prove('direction set', eqv(c, s.fields['_reversed'], nrev))
    c.prove('sorted in the new direction', is_sorted(s.base.arr, s.base.n, nrev))
    j = z3.Int('j')
    c.prove('same elements, mirrored when turned', z3.And(s.base.n == n0, same(s.base.arr, a0, z3.IntVal(0), n0) if nrev == rev else
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), z3.Select(s.base.arr, j) == z3.Select(a0, n0 - 1 - j)))))


RULE = 'random operation histories (add, remove, extend, pop, get, index, copy, resort, reverse, deletion, refused operations) against a list model; distinct by history'
SEARCH_S = 5

class E:
    __slots__ = ('k', 'tag')
    def __init__(self, k, tag): self.k = k; self.tag = tag
    def __lt__(self, o): return self.k < o.k
    def __gt__(self, o): return self.k > o.k
    def __le__(self, o): return self.k <= o.k
    def __ge__(self, o): return self.k >= o.k
    def __eq__(self, o): return isinstance(o, E) and self.k == o.k
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.k)
    def __repr__(self): return f'{self.k}{self.tag}'

def cases(rng, part, parts):
    while True:
        ops = []
        for _ in range(rng.randint(1, 9)):
            op = rng.choice(['add', 'add', 'add', 'remove', 'extend', 'extend_sorted', 'extend_self', 'pop', 'get', 'index', 'contains', 'copy', 'resort', 'reverse', 'del', 'refused', 'mutate'])
            ops.append([op, rng.randint(0, 6), [rng.randint(0, 6) for _ in range(rng.randint(0, 5))], rng.random() < .5])
        yield [[rng.randint(0, 6) for _ in range(rng.randint(0, 6))], rng.random() < .5, ops]

def check_case(case):
    init, rev, ops = case
    init = [E(k, i) for i, k in enumerate(init)]
    s = SortedList(init, reverse=rev)
    tag = 100
    want = {id(e): e for e in init}
    if len(want) != len(s) or {id(e) for e in s} != set(want): return f'created from {init} gives {list(s)}'
    for op, k, ks, flag in ops:
        tag += 1
        e = E(k, tag)
        has = [x for x in s if x.k == k]
        before = list(s)
        what = f'{op}({k}{"" if not ks else ks}, {flag}) on {before} (reversed: {rev})'
        if op == 'add':
            s.add(e)
            want[id(e)] = e
            if has:
                gone = [x for x in has if not any(y is x for y in s)]
                if len(gone) != 1: return f'{what}: an equal element is not replaced: {list(s)}'
                del want[id(gone[0])]
        elif op == 'remove':
            s.remove(e)
            gone = [x for x in before if not any(y is x for y in s)]
            if len(gone) != (1 if has else 0) or any(x.k != k for x in gone): return f'{what}: removed {gone}'
            for x in gone: del want[id(x)]
        elif op in ('extend', 'extend_sorted'):
            es = [E(x, tag * 10 + i) for i, x in enumerate(ks)]
            s.extend(list(es) if op == 'extend' else SortedList(es, reverse=flag))
            for x in es: want[id(x)] = x
        elif op == 'extend_self':
            n = len(s)
            if n > 60: continue
            s.extend(s)
            if sorted(x.k for x in s) != sorted([x.k for x in before] * 2): return f'{what}: {list(s)}'
            s = SortedList([x for i, x in enumerate(s) if not any(y is x for y in list(s)[:i])], reverse=rev)
        elif op in ('pop', 'get'):
            d = object()
            r = getattr(s, op)(k, (lambda x: x.k), d)
            if has:
                if r is d or r.k != k: return f'{what} gives {r!r}'
                if op == 'pop': del want[id(r)]
            elif r is not d: return f'{what} gives {r!r}, nothing has that key'
        elif op == 'index':
            try: i = s.index(e)
            except ValueError: i = None
            if (i is None) != (not has) or (i is not None and s[i].k != k): return f'{what} gives {i}'
        elif op == 'contains':
            if (e in s) != bool(has): return f'{what} gives {e in s}'
        elif op == 'copy':
            c = s.copy()
            if list(map(id, c)) != list(map(id, s)) or c.reverse != s.reverse or type(c) is not SortedList: return f'{what} gives {c!r}'
            c.add(E(3, 0)); c.extend([E(1, 0)])
            if list(map(id, before)) != list(map(id, s)): return f'{what}: changing the copy changed the original'
        elif op == 'resort': s.resort()
        elif op == 'mutate':
            for x in s: x.k = 7 - x.k
            s.resort()
        elif op == 'reverse':
            s.reverse = flag; rev = flag
            if s.reverse != flag: return f'{what}: direction is {s.reverse}'
        elif op == 'del':
            if before:
                i = k % len(before)
                del want[id(s[i])]
                del s[i]
        elif op == 'refused':
            n = ['append', 'insert', 'sort', '__setitem__', '__iadd__', '__add__', '__imul__', '__mul__'][k % 8]
            try: getattr(s, n)
            except AttributeError: pass
            else: return f'{n} is available: it can break the order'
        l = list(s)
        ks2 = [x.k for x in l]
        if ks2 != sorted(ks2, reverse=rev): return f'{what}: not sorted: {l}'
        if len(l) != len(want) or {id(x) for x in l} != set(want): return f'{what}: contents are {l}, expected {sorted(want.values())}'
    return None

def shrink(case):
    init, rev, ops = case
    for k in range(len(ops)): yield [init, rev, ops[:k] + ops[k + 1:]]
    for k in range(len(init)): yield [init[:k] + init[k + 1:], rev, ops]
    if rev: yield [init, False, ops]
