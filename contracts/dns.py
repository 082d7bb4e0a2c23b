"""Shared: names in DNS messages (C17, C18)."""
from pv.lib import *
import scarletio.dns_query.building_and_parsing as D
from scarletio.dns_query.response_parsing_error import ResponseParsingError

SEQ2 = z3.SeqSort(SEQ)
# The name at position i of the data, whose pointers have to go before lim (recursive definition, unfolded where needed)
OK = z3.Function('name_well_formed', SEQ, I, I, B)
LABELS = z3.Function('name_labels', SEQ, I, I, SEQ2)
END = z3.Function('name_end', SEQ, I, I)
LBL = BytesC

def unfold(c, d, i, lim):
    """definition of the name at i (RFC 1035 4.1.4)"""
    n = z3.Length(d); b = d[i]; nx = i + 1 + b
    inside = z3.And(0 <= i, i < n)
    t = (b - 192) * 256 + d[i + 1]
    has2 = i + 1 < n
    c.fact(z3.Implies(z3.Not(inside), z3.Not(OK(d, i, lim))))
    c.fact(z3.Implies(inside, z3.And(b >= 0, b <= 255)))
    c.fact(z3.Implies(z3.And(inside, has2), z3.And(d[i + 1] >= 0, d[i + 1] <= 255)))
    c.fact(z3.Implies(z3.And(inside, b == 0), z3.And(OK(d, i, lim), LABELS(d, i, lim) == z3.Empty(SEQ2), END(d, i) == i + 1)))
    c.fact(z3.Implies(z3.And(inside, b > 0, b < 64), z3.And(
        OK(d, i, lim) == z3.And(nx <= n, OK(d, nx, lim)),
        z3.Implies(nx <= n, z3.And(LABELS(d, i, lim) == z3.Concat(z3.Unit(z3.Extract(d, i + 1, b)), LABELS(d, nx, lim)), END(d, i) == END(d, nx))))))
    c.fact(z3.Implies(z3.And(inside, b >= 64, b < 192), z3.Not(OK(d, i, lim))))
    c.fact(z3.Implies(z3.And(inside, b >= 192), z3.And(
        OK(d, i, lim) == z3.And(has2, t < lim, OK(d, t, t)),
        z3.Implies(z3.And(has2, t < lim), LABELS(d, i, lim) == LABELS(d, t, t)),
        END(d, i) == i + 2)))

def labels_shape(ctx):
    if ctx.choose(2): return LList(ctx, seq=ctx.fresh('labels', SEQ2), codec=LBL)
    return None
def labels_term(v):
    return z3.Empty(SEQ2) if v is None else v.as_term(LBL)

def is_error(v, d=None):
    return isinstance(v, Inst) and v.cls is ResponseParsingError

def parse_labels_contract(ctx, data, index):
    """proved in C17"""
    d = sterm(data); i = iterm(index)
    if ctx.branch(OK(d, i, i)):
        e = END(d, i)
        ctx.fact(z3.And(e > i, e <= z3.Length(d)))
        l = LABELS(d, i, i)
        if ctx.branch(z3.Length(l) == 0): v = None
        else: v = LList(ctx, seq=l, codec=LBL, kind='tuple')
        return ((v, SInt(e)), None)
    return (None, Inst(ctx, ResponseParsingError, {'parsing_error_response_data': data}))
