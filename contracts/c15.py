"""C15: message framing flags follow the headers."""
import itertools
from pv.lib import *
from scarletio.utils import IgnoreCaseMultiValueDictionary
from scarletio.web_common import http_message
from scarletio.web_common.http_message import RawMessage
from scarletio.web_common.helpers import HttpVersion, HttpVersion10, HttpVersion11
from scarletio.web_common.headers import CONNECTION, CONTENT_ENCODING, KEEP_ALIVE, TRANSFER_ENCODING, UPGRADE
from scarletio.web_common.keep_alive_info import KeepAliveInfo

PROOFS, proof = proof_registry()
TRUSTED = ['the header map answers get / [] consistently (its own contract is C01 / C02)', 'KeepAliveInfo.from_header_value is a function of the header value']

HAS = z3.Function('header_present', SEQ, B)
VAL = z3.Function('header_value', SEQ, SEQ)
KA = z3.Function('keep_alive_info', B, SEQ, OBJ)
CF = models.CASEFOLD

class HeadersI(Iface):
    name = 'headers'
    def m_get(self, ctx, o, k, default=None):
        t = sterm(k)
        return SSeq(VAL(t), 'str') if ctx.branch(HAS(t)) else default
    def getitem(self, ctx, o, k):
        t = sterm(k)
        if not ctx.branch(HAS(t)): raise PyExc(Inst(ctx, KeyError, {'args': (k,)}))
        return SSeq(VAL(t), 'str')
    def contains(self, ctx, o, k): return HAS(sterm(k))
HEADERS = HeadersI()

class InfoI(Iface):
    name = 'keep alive info'
    def truth(self, ctx, o): return True
INFO = InfoI()

def info_of(v):
    return KA(bv(v is not None), lit('') if v is None else sterm(v))

def setup(c):
    use(c, KeepAliveInfo.from_header_value.__func__, lambda ctx, cls, v: Opaque(info_of(v), INFO))

KU, KC, KT, KE, KK = [lit(str(x)) for x in (UPGRADE, CONNECTION, TRANSFER_ENCODING, CONTENT_ENCODING, KEEP_ALIVE)]

def F_upgraded(): return z3.And(HAS(KU), z3.Length(VAL(KU)) > 0, HAS(KC), CF(VAL(KC)) == lit('upgrade'))
def F_chunked(): return z3.And(HAS(KT), z3.Contains(CF(VAL(KT)), lit('chunked')))
def F_keep(version11):
    con = CF(VAL(KC))
    return z3.If(HAS(KC), z3.And(z3.Not(z3.Contains(con, lit('close'))), z3.Or(version11, z3.Contains(con, lit('keep-alive')))), version11)

PROPS = ('upgraded', 'chunked', 'encoding', 'keep_alive')

def message(c):
    """A message right after construction, with arbitrary headers and version"""
    major = c.int('major'); minor = c.int('minor')
    v = (major, minor)
    v11 = z3.Or(major.t > 1, z3.And(major.t == 1, minor.t >= 1))
    m = c.it.call(RawMessage, [v, Opaque(c.fresh('headers', OBJ), HEADERS)], {})
    return m, v11

def get(c, m, p):
    r = attempt(c, getattr(RawMessage, p).fget, m)
    no_raise(c, r, f'{p} does not raise')
    return r.value

def spec_eq(c, p, value, v11):
    """value is what the headers give for p"""
    if p == 'upgraded': return truth(c, value) == F_upgraded()
    if p == 'chunked': return truth(c, value) == F_chunked()
    if p == 'encoding':
        return z3.Not(HAS(KE)) if value is None else z3.And(HAS(KE), sterm(value) == CF(VAL(KE)))
    f = F_keep(v11)
    if value is None: return z3.Not(f)
    return z3.And(f, value.t == z3.If(HAS(KK), KA(True, VAL(KK)), KA(False, lit(''))))


@proof('on a new message every property is the specified function of version and headers')
def _(c):
    setup(c)
    m, v11 = message(c)
    p = PROPS[c.choose(4)]
    c.prove(f'{p} follows the headers', spec_eq(c, p, get(c, m, p), v11))
    c.prove(f'{p} asked again', spec_eq(c, p, get(c, m, p), v11))


def assigned(c, p):
    if p in ('upgraded', 'chunked'): return c.bool('set_' + p)
    if p == 'encoding': return None if c.choose(2) else c.str('set_encoding')
    return None if c.choose(2) else Opaque(c.fresh('set_info', OBJ), INFO)

def same(c, p, value, want):
    if p in ('upgraded', 'chunked'): return truth(c, value) == want.t
    if want is None or value is None: return bv(want is None and value is None)
    return (value.t if isinstance(value, Opaque) else sterm(value)) == (want.t if isinstance(want, Opaque) else want.t)


@proof('induction step over histories: each getter and setter touches only its own cached fact, from any cached state')
def _(c):
    setup(c)
    UP_S, UP_V = http_message.CACHE_FLAG_UPGRADE_SET, http_message.CACHE_FLAG_UPGRADE_VALUE
    CH_S, CH_V = http_message.CACHE_FLAG_CHUNKED_SET, http_message.CACHE_FLAG_CHUNKED_VALUE
    EN_S, KA_S = http_message.CACHE_FLAG_ENCODING_SET, http_message.CACHE_FLAG_KEEP_ALIVE_SET
    # an arbitrary state: each fact is cached with an arbitrary value, or not cached
    cached = {p: bool(c.choose(2)) for p in PROPS}
    flags = 0
    val = {}
    for p, S, V in (('upgraded', UP_S, UP_V), ('chunked', CH_S, CH_V)):
        if cached[p]:
            b = bool(c.choose(2)); flags |= S | (V if b else 0); val[p] = SBool(z3.BoolVal(b))
    enc = info = None
    if cached['encoding']: flags |= EN_S; enc = val['encoding'] = None if c.choose(2) else c.str('cached_encoding')
    if cached['keep_alive']: flags |= KA_S; info = val['keep_alive'] = None if c.choose(2) else Opaque(c.fresh('cached_info', OBJ), INFO)
    v11 = z3.BoolVal(True)
    m = inst(c, RawMessage, version=(1, 1), headers=Opaque(c.fresh('headers', OBJ), HEADERS), _cache_flags=flags, _cache_encoding=enc, _cache_keep_alive=info)
    target = PROPS[c.choose(4)]
    if c.choose(2):
        new = assigned(c, target)
        r = attempt(c, getattr(RawMessage, target).fset, m, new)
        no_raise(c, r)
        val[target] = new; cached[target] = True
    else:
        get(c, m, target)
    for p in (target, PROPS[c.choose(4)]):
        got = get(c, m, p)
        if cached[p]: c.prove(f'{p} keeps its cached / assigned value', same(c, p, got, val[p]))
        else: c.prove(f'{p} follows the headers', spec_eq(c, p, got, v11))


RULE = 'random header maps (every casing), versions, and sequences of reads and assignments; distinct by content'
SEARCH_S = 5

def cases(rng, part, parts):
    def casing(s): return ''.join(ch.upper() if rng.random() < .5 else ch for ch in s)
    hv = {
        'connection': ['upgrade', 'close', 'keep-alive', 'Keep-Alive, Upgrade', 'foo', '', 'keep-alive, close', 'closed'],
        'upgrade': ['websocket', '', 'h2c'], 'transfer-encoding': ['chunked', 'gzip, chunked', 'identity', 'gzip', ''],
        'content-encoding': ['gzip', 'br', 'DeFlate', ''], 'keep-alive': ['timeout=5', 'timeout=5, max=3', 'x', 'max=7'],
    }
    while True:
        h = [[casing(n), casing(rng.choice(vs))] for n, vs in hv.items() if rng.random() < .6]
        ops = []
        for _ in range(rng.randint(1, 8)):
            p = rng.choice(PROPS)
            if rng.random() < .25: ops.append(['set', p, rng.choice([True, False]) if p in ('upgraded', 'chunked') else rng.choice([None, 'br']) if p == 'encoding' else rng.choice([None, [5.0, 3]])])
            else: ops.append(['get', p, None])
        yield [rng.choice([[1, 0], [1, 1], [0, 9], [2, 0]]), h, ops]

def check_case(case):
    version, h, ops = case
    headers = IgnoreCaseMultiValueDictionary()
    d = {}
    for n, v in h:
        headers[n] = v; d[n.lower()] = v
    m = RawMessage(HttpVersion(*version), headers)
    con = d.get('connection'); con = con if con is None else con.lower()
    v11 = tuple(version) >= (1, 1)
    alive = v11 if con is None else 'close' not in con and (v11 or 'keep-alive' in con)
    want = {
        'upgraded': bool(d.get('upgrade')) and con == 'upgrade', 'chunked': 'chunked' in d.get('transfer-encoding', '').lower(),
        'encoding': d['content-encoding'].lower() if 'content-encoding' in d else None,
        'keep_alive': KeepAliveInfo.from_header_value(d.get('keep-alive')) if alive else None,
    }
    for k, p, v in ops:
        if k == 'set':
            if p == 'keep_alive' and v is not None: v = KeepAliveInfo(*v)
            setattr(m, p, v); want[p] = v
        else:
            try: got = getattr(m, p)
            except Exception as e: return f'{p} of {case!r} raised {e!r}'
            if got != want[p]: return f'{p} is {got!r}, expected {want[p]!r}: version {version}, headers {h}, history {ops}'
    return None
