"""C13: cookies go only to matching hosts and paths."""
import itertools
from http.cookies import SimpleCookie, Morsel, CookieError
from pv.lib import *
from scarletio.web_common import cookiejar
from scarletio.web_common.cookiejar import CookieJar, do_domains_match, do_paths_match
from scarletio.web_common.helpers import is_ip_address
from scarletio.web_common.url import URL

PROOFS, proof = proof_registry()
TRUSTED = ['is_ip_address is an unspecified predicate of its argument', 'http.cookies.Morsel / SimpleCookie behave as mappings', 'URL.raw_host / path / scheme are unspecified attributes']
ASSUMPTIONS = ['expiry by wall-clock time (CookieJar._do_expiration, parse_cookie_date) is not part of this property']

IS_IP = z3.Function('is_ip', SEQ, B)
def ip_contract(ctx, host):
    if host is None: return False
    return mkbool(IS_IP(sterm(host)))

DOT = lit('.'); SLASH = lit('/')

def domain_match(domain, host):
    """RFC 6265 5.1.3"""
    return z3.Or(domain == host, z3.And(z3.SuffixOf(cat(DOT, domain), host), z3.Length(domain) > 0, z3.Not(IS_IP(host))))

def path_match(req, path):
    """RFC 6265 5.1.4 (request paths not starting with '/' count as '/')"""
    r = z3.If(z3.PrefixOf(SLASH, req), req, SLASH)
    n = z3.Length(path)
    return z3.Or(r == path, z3.And(z3.PrefixOf(path, r), n > 0, sub(path, n - 1, 1) == SLASH), z3.PrefixOf(cat(path, SLASH), r))


@proof('do_domains_match equals RFC 6265 domain matching')
def _(c):
    use(c, is_ip_address, ip_contract)
    d = c.str('domain'); h = c.str('host')
    r = attempt(c, do_domains_match, d, h)
    no_raise(c, r)
    c.assume(z3.Or(z3.Length(d.t) > 0, z3.Length(h.t) == 0))     # the callers never pass an empty domain with a host
    c.prove('result is the RFC predicate', truth(c, r.value) == domain_match(d.t, h.t))


@proof('do_domains_match never accepts a foreign host')
def _(c):
    use(c, is_ip_address, ip_contract)
    d = c.str('domain'); h = c.str('host')
    r = attempt(c, do_domains_match, d, h)
    no_raise(c, r)
    c.prove('match implies equal or dot-separated subdomain of a name', z3.Implies(truth(c, r.value),
        z3.Or(d.t == h.t, z3.And(z3.SuffixOf(cat(DOT, d.t), h.t), z3.Not(IS_IP(h.t))))))


@proof('do_paths_match equals RFC 6265 path matching')
def _(c):
    q = c.str('request_path'); p = c.str('cookie_path')
    r = attempt(c, do_paths_match, q, p)
    no_raise(c, r)
    c.prove('result is the RFC predicate', truth(c, r.value) == path_match(q.t, p.t))


def domains_contract(ctx, d, h):
    """contract of do_domains_match, proved above"""
    return mkbool(domain_match(sterm(d), sterm(h)))
def paths_contract(ctx, q, p):
    return mkbool(path_match(sterm(q), sterm(p)))

class CookieI(Iface):
    """A stored cookie: a Morsel with its attributes"""
    name = 'cookie'
    F = {k: z3.Function('cookie_' + k, OBJ, SEQ) for k in ('key', 'value', 'coded_value', 'domain', 'path')}
    SECURE = z3.Function('cookie_secure', OBJ, B)
    def get_key(self, ctx, o): return SSeq(self.F['key'](o.t), 'str')
    def get_value(self, ctx, o): return SSeq(self.F['value'](o.t), 'str')
    def get_coded_value(self, ctx, o): return SSeq(self.F['coded_value'](o.t), 'str')
    def getitem(self, ctx, o, k):
        if k == 'secure': return SBool(self.SECURE(o.t))
        if k in self.F: return SSeq(self.F[k](o.t), 'str')
        raise Unsupported(f'cookie attribute {k!r}')
    def m_get(self, ctx, o, k, default=None):
        return default
COOKIE = CookieI()
COOKIE.types = (Morsel,)

class MorselI(Iface):
    name = 'morsel'
    def m_set(self, ctx, o, key, value, coded): o.extra['value'] = value
MORSEL = MorselI()

class FilteredI(Iface):
    name = 'filtered'
    def setitem(self, ctx, o, k, v):
        g = ctx.ghost['send']
        ctx.prove('only a cookie that may be sent is put into the request', g['may'](g['cookie']))
        ctx.prove('under its own name', sterm(k) == CookieI.F['key'](g['cookie']))
        vv = v.extra.get('value') if isinstance(v, Opaque) else v
        ctx.prove('with its own value', sterm(vv) == CookieI.F['value'](g['cookie']))
FILTERED = FilteredI()

class CookiesI(Iface):
    name = 'stored cookies'
    def symiter(self, ctx, o):
        n = ctx.fresh('n_cookies', I)
        ctx.pc.append(n >= 0)
        at = z3.Function('cookie_at', I, OBJ)
        def get(i):
            t = at(i)
            ctx.ghost['send']['cookie'] = t
            return Opaque(t, COOKIE)
        return SymIter(n, get)
COOKIES = CookiesI()

class URLI(Iface):
    name = 'url'
    def get_raw_host(self, ctx, o): return o.extra['host']
    def get_scheme(self, ctx, o): return o.extra['scheme']
    def get_path(self, ctx, o): return o.extra['path']
URLIFACE = URLI()

class HostOnlyI(Iface):
    name = 'host only set'
    def contains(self, ctx, o, x):
        d, n = x
        return HOST_ONLY(sterm(d), sterm(n))
    def m_add(self, ctx, o, x):
        ctx.ghost['added'] = x
HOST_ONLY = z3.Function('host_only', SEQ, SEQ, B)


@proof('CookieJar.filter_cookies sends a cookie only where it belongs')
def _(c):
    use(c, is_ip_address, ip_contract)
    use(c, do_domains_match, domains_contract); use(c, do_paths_match, paths_contract)
    use(c, CookieJar.__iter__, lambda ctx, self: Opaque(ctx.fresh('cookies', OBJ), COOKIES))
    use(c, CookieJar._do_expiration, lambda ctx, self: None)
    use(c, SimpleCookie, lambda ctx: Opaque(ctx.fresh('filtered', OBJ), FILTERED))
    use(c, Morsel, lambda ctx: Opaque(ctx.fresh('morsel', OBJ), MORSEL))
    url = Opaque(c.fresh('url', OBJ), URLIFACE)
    host = None if c.choose(2) else c.str('host')
    path = c.str('path'); scheme = c.str('scheme')
    url.extra.update(host=host, path=path, scheme=scheme)
    unsafe = c.bool('unsafe')
    jar = inst(c, CookieJar, unsafe=unsafe, host_only_cookies=Opaque(c.fresh('ho', OBJ), HostOnlyI()), cookies=None, expirations=None, next_expiration=None)
    h = lit('') if host is None else host.t
    secure_conn = z3.Or(scheme.t == lit('https'), scheme.t == lit('wss'))
    F = CookieI.F
    def may(ck):
        d = F['domain'](ck)
        return z3.Or(z3.Length(d) == 0, z3.And(
            z3.If(HOST_ONLY(d, F['key'](ck)), d == h, z3.Or(d == h, z3.And(z3.SuffixOf(cat(DOT, d), h), z3.Not(IS_IP(h))))),
            path_match(path.t, F['path'](ck)),
            z3.Implies(CookieI.SECURE(ck), secure_conn),
            z3.Implies(z3.Not(unsafe.t), z3.Not(IS_IP(h)))))
    c.ghost['send'] = dict(may=may, cookie=None)
    loop(c, 'CookieJar.filter_cookies', 0, Loop(inv=lambda L: {'none': z3.BoolVal(True)}))
    r = attempt(c, CookieJar.filter_cookies, jar, url)
    no_raise(c, r)
    c.prove('the filtered cookies are returned', bv(isinstance(r.value, Opaque) and r.value.iface is FILTERED))


# ---- update_cookies

class NewCookieI(Iface):
    """A received cookie (Morsel): attributes held in extra, mutable"""
    name = 'received cookie'
    types = (Morsel,)
    def getitem(self, ctx, o, k):
        if k not in o.extra: raise PyExc(Inst(ctx, KeyError, {'args': (k,)}))
        return o.extra[k]
    def setitem(self, ctx, o, k, v): o.extra[k] = v
    def delitem(self, ctx, o, k):
        if k not in o.extra: raise PyExc(Inst(ctx, KeyError, {'args': (k,)}))
        del o.extra[k]
NEWCOOKIE = NewCookieI()

class StoreI(Iface):
    name = 'cookie store'
    def getitem(self, ctx, o, k):
        x = Opaque(ctx.fresh('per_domain', OBJ), PERDOMAIN); x.extra['domain'] = k
        return x
class PerDomainI(Iface):
    name = 'cookies of a domain'
    def setitem(self, ctx, o, k, v):
        g = ctx.ghost['_recv']
        host = g['host']
        d = sterm(o.extra['domain'])
        ck = g['cookie']
        if host is not None:
            h = host.t
            ctx.prove('a cookie is stored only for a domain covering the responding host', z3.Or(z3.Length(h) == 0, d == h, z3.And(z3.SuffixOf(cat(DOT, d), h), z3.Not(IS_IP(h)))))
            orig = g['domain0']
            none_given = z3.Or(z3.Length(orig) == 0, z3.SuffixOf(DOT, orig))
            added = ctx.ghost.get('added')
            ctx.prove('a cookie without domain attribute is stored as host-only for the responding host',
                z3.Implies(none_given, z3.And(d == h, bv(added is not None), *( [sterm(added[0]) == h, sterm(added[1]) == g['name']] if added is not None else []))))
            ctx.prove('a cookie with domain attribute is not marked host-only', z3.Implies(z3.Not(none_given), bv(added is None)))
        ctx.prove('the stored cookie still carries every attribute', bv('domain' in ck.extra and 'path' in ck.extra))
        ctx.prove('stored under the domain it carries', sterm(ck.extra['domain']) == d)
        ctx.prove('stored under its own name', z3.And(sterm(k) == g['name'], bv(v is ck)))
        ctx.prove('the stored path is absolute', z3.PrefixOf(SLASH, sterm(ck.extra['path'])))
PERDOMAIN = PerDomainI()
STORE = StoreI()

class ReceivedI(Iface):
    name = 'received cookies'
    def m_items(self, ctx, o):
        return Opaque(o.t, ITEMS)
class ItemsI(Iface):
    name = 'received cookie items'
    def symiter(self, ctx, o):
        n = ctx.fresh('n', I); ctx.pc.append(n >= 0)
        def get(i):
            ck = Opaque(ctx.fresh('ck', OBJ), NEWCOOKIE)
            for k in ('domain', 'path', 'max-age', 'expires'): ck.extra[k] = SSeq(ctx.fresh(k, SEQ), 'str')
            nm = SSeq(ctx.fresh('name', SEQ), 'str')
            ctx.ghost['_recv'].update(cookie=ck, name=nm.t, domain0=ck.extra['domain'].t)
            ctx.ghost['added'] = None
            return (nm, ck)
        return SymIter(n, get)
ITEMS = ItemsI()

from datetime import datetime as DateTime
class DateI(Iface):
    name = 'date'
    def m_timestamp(self, ctx, o): return SReal(ctx.fresh('ts', REAL))

DATE = DateI()

def parse_date_contract(ctx, s):
    return None if ctx.choose(2) else Opaque(ctx.fresh('date', OBJ), DATE)

@proof('CookieJar.update_cookies stores a cookie only for hosts covering the response')
def _(c):
    use(c, is_ip_address, ip_contract)
    use(c, do_domains_match, domains_contract)
    use(c, CookieJar._do_expiration, lambda ctx, self: None)
    use(c, CookieJar._expire_cookie, lambda ctx, self, when, domain, name: None)
    use(c, cookiejar.parse_cookie_date, parse_date_contract)
    use(c, cookiejar.LOOP_TIME, lambda ctx: SReal(ctx.fresh('now', REAL)))
    url = Opaque(c.fresh('url', OBJ), URLIFACE)
    host = None if c.choose(2) else c.str('host')
    path = c.str('path')
    c.assume(z3.PrefixOf(SLASH, path.t) if c.choose(2) else z3.Not(z3.PrefixOf(SLASH, path.t)))
    url.extra.update(host=host, path=path, scheme=c.str('scheme'))
    unsafe = c.bool('unsafe')
    jar = inst(c, CookieJar, unsafe=unsafe, host_only_cookies=Opaque(c.fresh('ho', OBJ), HostOnlyI()), cookies=Opaque(c.fresh('store', OBJ), STORE), expirations=None, next_expiration=None)
    c.ghost['_recv'] = dict(host=host)
    if host is not None: c.assume(z3.Length(host.t) > 0, z3.Not(z3.PrefixOf(DOT, host.t)))      # hosts are non-empty and do not start with a dot
    loop(c, 'CookieJar.update_cookies', 0, Loop(inv=lambda L: {'none': z3.BoolVal(True)}))
    r = attempt(c, CookieJar.update_cookies, jar, Opaque(c.fresh('received', OBJ), ReceivedI()), url)
    no_raise(c, r)
    c.prove('returns nothing', bv(r.value is None))


# ---------------------------------------------------------------- native oracle

def o_domain(domain, host):
    if domain == host: return True
    return bool(domain) and host.endswith('.' + domain) and not is_ip_address(host)

def o_path(req, path):
    if not req.startswith('/'): req = '/'
    return req == path or (req.startswith(path) and path.endswith('/')) or req.startswith(path + '/')

RULE = 'random domain / host / path triples over a small alphabet, and whole store / send histories through CookieJar with real URLs and morsels'
SEARCH_S = 8

def cases(rng, part, parts):
    labels = ['a', 'b', 'com', 'example', 'xa', '1', '127.0.0.1', '', 'co.uk']
    hosts = ['example.com', 'a.example.com', 'b.a.example.com', 'xexample.com', 'example.com.evil', '127.0.0.1', '0.0.1', 'com', 'ample.com', 'localhost', '1.127.0.0.1']
    paths = ['/', '/a', '/a/', '/a/b', '/ab', '/a/b/c', '', 'x', '/b', '/a/bc']
    while True:
        k = rng.random()
        if k < 0.3:
            d = '.'.join(rng.choice(labels) for _ in range(rng.randint(0, 3))); h = rng.choice(['', 'x', '.', 'x.', 'a.b.', '1.']) + d if rng.random() < .7 else rng.choice(hosts)
            yield ['domain', d, h]
        elif k < 0.6:
            p = rng.choice(paths); q = (p + rng.choice(['', '/', 'x', '/x', '//'])) if rng.random() < .6 else rng.choice(paths)
            yield ['path', q, p]
        else:
            cks = []
            for _ in range(rng.randint(1, 3)):
                cks.append([rng.choice('nmo'), rng.choice(['', '', rng.choice(hosts), '.' + rng.choice(hosts), rng.choice(hosts) + '.']), rng.choice(paths), rng.random() < .4])
            yield ['jar', rng.random() < .3, rng.choice(hosts + [None]), rng.choice(paths), cks,
                rng.choice(['http', 'https', 'ws', 'wss']), rng.choice(hosts), rng.choice([p for p in paths if p.startswith('/')])]

def make_url(scheme, host, path):
    return URL(f'{scheme}://{host}{path if path.startswith("/") else "/" + path}')

def check_case(case):
    if case[0] == 'domain':
        d, h = case[1:]
        r = do_domains_match(d, h)
        e = o_domain(d, h)
        if d and bool(r) != e: return f'do_domains_match({d!r}, {h!r}) = {r}, expected {e}'
        if r and not e and h != d: return f'do_domains_match({d!r}, {h!r}) = {r}, expected {e}'
        return None
    if case[0] == 'path':
        r = do_paths_match(*case[1:]); e = o_path(*case[1:])
        return None if bool(r) == e else f'do_paths_match{tuple(case[1:])} = {r}, expected {e}'
    _, unsafe, rhost, rpath, cks, scheme, host, path = case
    jar = CookieJar(unsafe)
    url = URL() if rhost is None else make_url('http', rhost, rpath)
    if url.raw_host != rhost or make_url(scheme, host, path).raw_host != host: return None
    stored = {}
    for k, (name, domain, p, secure) in enumerate(cks):
        sc = SimpleCookie()
        sc[name] = f'v{k}'
        if domain: sc[name]['domain'] = domain
        if p: sc[name]['path'] = p
        if secure: sc[name]['secure'] = True
        jar.update_cookies(sc, url)
        # oracle of what may be stored
        d = domain
        if d.endswith('.'): d = ''
        host_only = False
        if not d and rhost is not None:
            host_only = True; d = rhost
        if d.startswith('.'): d = d[1:]
        if rhost is not None and not unsafe and is_ip_address(rhost): continue
        if rhost is not None and not o_domain(d, rhost): continue
        if not p.startswith('/'):
            up = url.path
            p = up[:up.rfind('/')] or '/' if up.startswith('/') else '/'
        stored[d, name] = (d, f'v{k}', p, secure, host_only or (stored.get((d, name), (0,) * 5)[4] is True))
    try: got = jar.filter_cookies(make_url(scheme, host, path))
    except Exception as exc: return f'filter_cookies raised {exc!r}'
    req = make_url(scheme, host, path).path
    def may(e, strict):
        d, v, p, secure, ho = e
        if not d: return True
        if not unsafe and is_ip_address(host): return False
        if ho and strict:
            if d != host: return False
        elif not o_domain(d, host): return False
        if not o_path(req, p): return False
        return scheme in ('https', 'wss') or not secure
    allowed = {}
    for (d, name), e in stored.items():
        if may(e, True): allowed.setdefault(name, set()).add(e[1])
    for name, m in got.items():
        if m.value not in allowed.get(name, ()):
            return f'cookie {name}={m.value} was sent to {scheme}://{host}{path}; stored: {stored}'
    for name in allowed:
        if name not in got: return f'cookie {name} was not sent to {scheme}://{host}{path}; stored: {stored}'
    return None

def model_cases(pname, inp):
    if 'domain' in inp: yield ['domain', inp['domain'], inp['host']]
    if 'request_path' in inp: yield ['path', inp['request_path'], inp['cookie_path']]
