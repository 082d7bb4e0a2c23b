"""
Regular expressions: the matching engine is external. A proof states the contract of each pattern it meets (keyed by the exact pattern text, so a
changed pattern has no contract and its callers fall back to the bounded check); concrete arguments are matched natively.
"""
import re
from .engine import *
from .heap import *
from .models import is_nat, wrap_native


FLAGS = int(re.I | re.S | re.M | re.X | re.A)


class MatchI(Iface):
    """a match: .extra['groups'] (tuple of values), .extra['span'] (start, end)"""
    name = 'match'
    def m_groups(self, ctx, o, default=None): return tuple(default if g is None else g for g in o.extra['groups'])
    def m_group(self, ctx, o, *ks):
        if not ks: ks = (0,)
        def one(k):
            if isinstance(k, str): k = o.extra['names'][k]
            return o.extra['whole'] if k == 0 else o.extra['groups'][k - 1]
        return one(ks[0]) if len(ks) == 1 else tuple(one(k) for k in ks)
    def m_end(self, ctx, o, k=0):
        if k: raise Unsupported('match.end(group)')
        return o.extra['span'][1]
    def m_start(self, ctx, o, k=0):
        if k: raise Unsupported('match.start(group)')
        return o.extra['span'][0]
    def m_span(self, ctx, o, k=0):
        if k: raise Unsupported('match.span(group)')
        return o.extra['span']
    def getitem(self, ctx, o, k): return self.m_group(ctx, o, k)
    def truth(self, ctx, o): return True
MATCH = MatchI()


def make_match(ctx, groups, whole=None, span=None, names=None):
    o = Opaque(ctx.fresh('match', OBJ), MATCH)
    o.extra.update(groups=tuple(groups), whole=whole, span=span, names=names or {})
    return o


def contract(ctx, pattern, method, handler):
    """pattern: its text, or (text, flags). handler(ctx, string, *args) -> match or None"""
    if not isinstance(pattern, tuple): pattern = (pattern, 0)
    ctx.ghost.setdefault('regex', {})[pattern, method] = handler


def pattern_method(it, o, name, args, kwargs):
    ctx = it.ctx
    if all(is_nat(a) for a in args) and all(is_nat(a) for a in kwargs.values()):
        r = getattr(o, name)(*args, **kwargs)
        if r is None: return None
        if isinstance(r, re.Match):
            return make_match(ctx, r.groups(), r.group(), r.span(), r.re.groupindex)
        return wrap_native(it, r)
    h = ctx.ghost.get('regex', {}).get(((o.pattern, o.flags & FLAGS), name))
    if h is None: raise Unsupported(f'no contract for {name} of the pattern {o.pattern!r}')
    return h(ctx, *args, **kwargs)


# ---- patterns that are runs of character classes: their contract is read off the pattern itself
import re._parser as _sre
import re._constants as _src


def _class_pred(items):
    """items of an IN (or one LITERAL) -> predicate on a character code"""
    neg = False; alts = []
    for op, arg in items:
        if op is _src.NEGATE: neg = True
        elif op is _src.LITERAL: alts.append((arg, arg))
        elif op is _src.RANGE: alts.append(tuple(arg))
        else: raise Unsupported('character class')
    def pred(x):
        t = z3.Or(*[x == a if a == b else z3.And(x >= a, x <= b) for a, b in alts])
        return z3.Not(t) if neg else t
    return pred

def runs(pattern, flags=0):
    """pattern text -> [('run', least, pred) | ('opt', code, least, pred)], the second an optional literal followed by a run"""
    if flags: raise Unsupported('flags')
    def run(e):
        op, arg = e
        if op is not _src.MAX_REPEAT or arg[0] > 1 or arg[1] is not _src.MAXREPEAT or len(arg[2]) != 1: raise Unsupported(f'pattern {pattern!r}')
        (o, a), = arg[2]
        return arg[0], _class_pred(a if o is _src.IN else [(o, a)])
    out = []
    for e in _sre.parse(pattern):
        op, arg = e
        if op is _src.MAX_REPEAT and arg[:2] == (0, 1):
            inner = list(arg[2])
            if len(inner) == 1 and inner[0][0] is _src.SUBPATTERN and inner[0][1][0] is None: inner = list(inner[0][1][3])
            if len(inner) != 2 or inner[0][0] is not _src.LITERAL: raise Unsupported(f'pattern {pattern!r}')
            out.append(('opt', inner[0][1]) + run(inner[1]))
        else: out.append(('run',) + run(e))
    # greedy without backtracking is exact only when a run cannot eat what follows it
    if len(out) > 2 or (len(out) == 2 and (out[0][0] != 'run' or out[1][0] != 'opt')): raise Unsupported(f'pattern {pattern!r}')
    return out

def run_match(on_run):
    """contract of `match` for such patterns; on_run(ctx, text, i, pred): where the run from i ends"""
    def make(pattern):
        parts = runs(pattern)
        def h(ctx, string, pos=0):
            if isinstance(string, str): string = SSeq(lit(string), 'str')
            s = string.t; n = z3.Length(s); i = pos.t if isinstance(pos, SInt) else z3.IntVal(pos)
            ctx.prove('matching starts in the text', z3.And(i >= 0, i <= n))
            _, least, pred = parts[0]
            r = on_run(ctx, s, i, pred)
            ctx.fact(z3.And(i <= r, r <= n, z3.Or(r == n, z3.Not(pred(s[r])))))
            if least and ctx.branch(r == i): return None
            if len(parts) > 1:
                _, code, least2, pred2 = parts[1]
                if ctx.implied(z3.And(r < n, pred(z3.IntVal(code)))): raise Unsupported('the run may take the separator')
                if ctx.branch(z3.And(r < n, s[r] == code)):
                    r2 = on_run(ctx, s, r + 1, pred2)
                    ctx.fact(z3.And(r + 1 <= r2, r2 <= n, z3.Or(r2 == n, z3.Not(pred2(s[r2])))))
                    if least2 == 0 or not ctx.branch(r2 == r + 1): r = r2
            return make_match(ctx, (), SSeq(z3.Extract(s, i, r - i), 'str'), (SInt(i), SInt(r)))
        return h
    return make

def contract_runs(ctx, module, on_run):
    """every run pattern of a module gets its contract"""
    make = run_match(on_run)
    for v in vars(module).values():
        if isinstance(v, re.Pattern):
            try: h = make(v.pattern)
            except Unsupported: continue
            if v.flags & FLAGS: continue
            contract(ctx, v.pattern, 'match', h)
