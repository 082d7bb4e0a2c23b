"""
Verification-condition engine: path exploration by re-execution, obligations, solver back ends.

A proof (see pv.lib) is a Python function that builds symbolic inputs, states preconditions (`assume`), runs real
functions of the repository through the AST interpreter (pv.interp) and states postconditions (`prove`). It is executed
once per path; every symbolic branch is a decision that is replayed from a prefix, so the set of executions covers every
path. Loops are cut by inductive invariants, so there is no bound on iterations.
"""
import os, subprocess, time, hashlib
import z3

I = z3.IntSort()
B = z3.BoolSort()
SEQ = z3.SeqSort(I)
OBJ = z3.DeclareSort('Obj')
REAL = z3.RealSort()

CVC5 = '/usr/bin/cvc5'
for _p in ('/usr/bin/cvc5', '/usr/local/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(_p):
        CVC5 = _p
        break
else:
    import shutil
    CVC5 = shutil.which('cvc5')


class PathEnd(BaseException):
    """The current path ended (end of an arbitrary loop iteration, or infeasible)."""

class Restart(BaseException):
    """A loop frame was found too small; the exploration starts again with the enlarged one."""

class Unsupported(BaseException):
    """The code uses something outside the verified subset."""

class ObligationFailed(BaseException):
    pass

class OutOfBudget(BaseException):
    pass


class SInt:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SInt({self.t})'

class SBool:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SBool({self.t})'

class SReal:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SReal({self.t})'

class SSeq:
    """Immutable str / bytes value: a sequence of code points / byte values. kind: 'str', 'bytes', 'view' (memoryview)"""
    __slots__ = ('t', 'kind')
    def __init__(self, t, kind): self.t = t; self.kind = kind
    def __repr__(self): return f'SSeq[{self.kind}]({self.t})'


def lit_seq(values):
    values = list(values)
    if not values:
        return z3.Empty(SEQ)
    if len(values) == 1:
        return z3.Unit(z3.IntVal(int(values[0])))
    return z3.Concat(*[z3.Unit(z3.IntVal(int(v))) for v in values])

_lit_cache = {}
def lit(value):
    """z3 term of a concrete str / bytes / int / bool."""
    if isinstance(value, bool): return z3.BoolVal(value)
    if isinstance(value, int): return z3.IntVal(int(value))
    if isinstance(value, str):
        r = _lit_cache.get(('s', value))
        if r is None: r = _lit_cache['s', value] = lit_seq(map(ord, value))
        return r
    if isinstance(value, (bytes, bytearray, memoryview)):
        value = bytes(value)
        r = _lit_cache.get(('b', value))
        if r is None: r = _lit_cache['b', value] = lit_seq(value)
        return r
    raise Unsupported(f'no literal for {type(value)}')


def term(v):
    if isinstance(v, (SInt, SBool, SSeq, SReal)): return v.t
    if isinstance(v, z3.ExprRef): return v
    if isinstance(v, float): return z3.RealVal(v)
    if hasattr(v, 'as_term'): return v.as_term()
    return lit(v)


def simp(t):
    return z3.simplify(t)


def is_true(t): return z3.is_true(t)
def is_false(t): return z3.is_false(t)


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by_backend = {}
        self.solver_s = 0.0
        self.feas_checks = 0
        self.paths = 0
        self.names = {}
        self.covers = {}
        self.functions = set()
        self.assumptions = set()
        self.lemmas = set()


def to_smt2(assertions):
    s = z3.Solver()
    s.add(*assertions)
    text = s.to_smt2()
    return text


def run_cvc5(assertions, timeout_s):
    text = to_smt2(assertions)
    # z3 prints some operators cvc5 spells differently
    if 'seq.nth_i' in text or 'seq.nth_u' in text:
        text = text.replace('seq.nth_i', 'seq.nth').replace('seq.nth_u', 'seq.nth')
    text = '(set-logic ALL)\n(set-option :strings-exp true)\n' + text
    try:
        out = subprocess.run([CVC5, '--lang=smt2', f'--tlimit={int(timeout_s * 1000)}', '-'], input=text,
            capture_output=True, text=True, timeout=timeout_s + 5)
    except subprocess.TimeoutExpired:
        return 'unknown', 'timeout'
    first = (out.stdout.strip().split('\n') or [''])[0].strip()
    if first in ('sat', 'unsat'):
        return first, ''
    return 'unknown', (first + ' ' + out.stderr.strip())[:300]


class Explorer:
    """Explores every path of one proof."""
    def __init__(self, name, body, *, budget_s=600, z3_ms=4000, cvc5_s=30, max_paths=20000, options=None):
        self.name = name
        self.body = body
        self.stats = Stats()
        self.loop_mods = {}          # loop key -> set of (oid, loc)
        self.loop_shapes = {}        # (loop key, name) -> set of kinds
        self.deadline = time.monotonic() + budget_s
        self.z3_ms = z3_ms
        self.cvc5_s = cvc5_s
        self.max_paths = max_paths
        self.failures = []
        self.undecided = []
        self.unsupported = None
        self.options = options or {}
        self.feas_cache = {}
        self.proved_cache = set()
        self.stop_on_failure = True

    def run(self):
        restarts = 0
        while True:
            try:
                self._run()
            except Restart:
                restarts += 1
                if restarts > 60:
                    self.unsupported = 'loop frames do not stabilise'
                    return
                continue
            except Unsupported as exc:
                self.unsupported = str(exc)
            except ObligationFailed:
                pass
            except OutOfBudget as exc:
                self.unsupported = f'budget exhausted: {exc}'
            except RecursionError:
                self.unsupported = 'recursion'
            return

    def _run(self):
        st = self.stats
        st.obligations = st.discharged = 0
        st.by_backend = {}
        st.names = {}
        st.covers = {}
        st.paths = 0
        work = [[]]
        while work:
            prefix = work.pop()
            st.paths += 1
            if st.paths > self.max_paths:
                raise OutOfBudget('paths')
            ctx = Ctx(self, prefix)
            try:
                self.body(ctx)
            except PathEnd:
                pass
            work.extend(ctx.pending)

    # solver
    def feasible(self, assertions):
        if time.monotonic() > self.deadline:
            raise OutOfBudget('time')
        key = tuple(a.get_id() for a in assertions)
        hit = self.feas_cache.get(key)
        if hit is not None:
            return hit[0]
        self.stats.feas_checks += 1
        t0 = time.monotonic()
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*assertions)
        r = s.check()
        if r == z3.unknown and CVC5 and self.options.get('cvc5_feas', True):
            c, _ = run_cvc5(assertions, 4)
            ok = c != 'unsat'
        else:
            ok = r != z3.unsat
        self.stats.solver_s += time.monotonic() - t0
        self.feas_cache[key] = (ok, assertions)   # keeps the terms alive, so ids stay unique
        return ok

    def valid(self, pc, goal, quick=False):
        """-> (verdict, backend, model or reason); verdict in proved / failed / undecided"""
        if time.monotonic() > self.deadline:
            raise OutOfBudget('time')
        t0 = time.monotonic()
        try:
            neg = z3.simplify(z3.Not(goal))
            if is_false(neg):
                return 'proved', 'simplifier', None
            s = z3.Solver()
            s.set('timeout', min(self.z3_ms, 2500))
            s.add(*pc)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return 'proved', 'z3', None
            if r == z3.sat:
                return 'failed', 'z3', s.model()
            reason = s.reason_unknown()
            if quick: return 'undecided', 'z3', reason
            d = os.environ.get('PV_DUMP')
            if d:
                with open(os.path.join(d, f'vc{len(os.listdir(d))}.smt2'), 'w') as f: f.write(s.to_smt2())
            why = ''
            if CVC5:
                c, why = run_cvc5(list(pc) + [neg], self.cvc5_s)
                if c == 'unsat':
                    return 'proved', 'cvc5', None
                if c == 'sat':
                    # try to get a z3 model for the replay
                    s = z3.Solver()
                    s.set('timeout', self.z3_ms)
                    s.add(*pc)
                    s.add(neg)
                    if s.check() == z3.sat:
                        return 'failed', 'cvc5+z3', s.model()
                    return 'failed', 'cvc5', None
            s = z3.Solver()
            s.set('timeout', self.z3_ms * 4)
            s.set('smt.random_seed', 7)
            s.add(*pc)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return 'proved', 'z3', None
            if r == z3.sat:
                return 'failed', 'z3', s.model()
            reason = s.reason_unknown()
            return 'undecided', 'z3', f'{reason}; cvc5: {why}'
        finally:
            self.stats.solver_s += time.monotonic() - t0


class Ghost(dict):
    """ghost state; `log` collects the keys that are assigned while it is a set"""
    log = None
    def __setitem__(self, k, v):
        if self.log is not None: self.log.add(k)
        dict.__setitem__(self, k, v)
    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items(): self[k] = v


class Ctx:
    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.trail = []
        self.pending = []
        self.pc = []
        self.inputs = []         # (name, kind, value) for model decoding
        self.counter = {}
        self.oid = 0
        self.objects = {}        # every heap object of this path, by id
        self.loops = []          # active arbitrary iterations
        self.handlers = {}       # function -> contract handler
        self.loop_specs = {}
        self.ghost = Ghost()
        self.steps = 0
        self.yield_stack = []
        self.await_handler = None
        self.interp = None
        self.notes = []
        self._seen_facts = set()

    # naming
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else f'{base}!{n}'

    def new_oid(self, obj=None):
        self.oid += 1
        if obj is not None: self.objects[self.oid] = obj
        return self.oid

    def step(self):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps on one path (unbounded unrolling?)')

    # logic
    def assume(self, t, *more):
        for e in more: self.assume(e)
        if isinstance(t, bool):
            if not t: raise PathEnd
            return
        if isinstance(t, SBool): t = t.t
        if isinstance(t, (list, tuple)):
            for e in t: self.assume(e)
            return
        t = z3.simplify(t) if not z3.is_quantifier(t) else t
        if is_true(t): return
        if is_false(t): raise PathEnd
        self.pc.append(t)

    def fact(self, t):
        """An assumption that holds by construction (ranges of bytes and so on); not repeated."""
        k = t.get_id()
        if k in self._seen_facts: return
        self._seen_facts.add(k)
        self._keep = getattr(self, '_keep', [])
        self._keep.append(t)
        self.pc.append(t)

    def replaying(self):
        return len(self.trail) < len(self.prefix)

    def branch(self, t):
        """Decides a boolean term on this path."""
        if isinstance(t, bool): return t
        if isinstance(t, SBool): t = t.t
        t = z3.simplify(t)
        if is_true(t): return True
        if is_false(t): return False
        self.step()
        if self.replaying():
            d = self.prefix[len(self.trail)]
            self.trail.append(d)
            if d in (0, 1):
                self.pc.append(t if d else z3.Not(t))
            return bool(d & 1)
        nt = z3.simplify(z3.Not(t))
        ids = self.known()[0]
        if t.get_id() in ids: self.trail.append(1); return True
        if nt.get_id() in ids: self.trail.append(0); return False
        # decisions 2 / 3: forced (the other side is infeasible), nothing to add
        if not self.x.feasible(self.pc + [t]):
            self.trail.append(0)
            self.pc.append(nt)
            return False
        if not self.x.feasible(self.pc + [nt]):
            self.trail.append(1)
            self.pc.append(t)
            return True
        self.pending.append(self.trail + [0])
        self.trail.append(1)
        self.pc.append(t)
        return True

    def choose(self, n, label=''):
        """Demonic choice between n alternatives."""
        if n <= 0: raise PathEnd
        if n == 1: return 0
        self.step()
        if self.replaying():
            d = self.prefix[len(self.trail)]
            self.trail.append(d)
            return d - 100
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trail + [100 + k])
        self.trail.append(100)
        return 0

    def known(self):
        """-> (ids of the conjuncts assumed so far, interval bounds of terms)"""
        ids = getattr(self, '_ids', None)
        if ids is None: ids = self._ids = set(); self._bnd = {}; self._scan = 0; self._kp = []
        while self._scan < len(self.pc):
            stack = [self.pc[self._scan]]; self._scan += 1
            while stack:
                t = stack.pop()
                if z3.is_and(t): stack.extend(t.children()); continue
                ids.add(t.get_id()); self._kp.append(t)
                self._bound(t)
        return ids, self._bnd

    def _bound(self, t):
        neg = False
        if z3.is_not(t): t = t.arg(0); neg = True
        k = t.decl().kind() if z3.is_app(t) else None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or (neg and k == z3.Z3_OP_EQ): return
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(a): a, b, k = b, a, {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        if not z3.is_int_value(b): return
        c = b.as_long()
        if neg: k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}[k]
        lo, hi = self._bnd.get(a.get_id(), (None, None))
        l2 = {z3.Z3_OP_GE: c, z3.Z3_OP_GT: c + 1, z3.Z3_OP_EQ: c}.get(k); h2 = {z3.Z3_OP_LE: c, z3.Z3_OP_LT: c - 1, z3.Z3_OP_EQ: c}.get(k)
        if l2 is not None and (lo is None or l2 > lo): lo = l2
        if h2 is not None and (hi is None or h2 < hi): hi = h2
        self._bnd[a.get_id()] = (lo, hi); self._kp.append(a)

    def is_feasible(self):
        return self.x.feasible(list(self.pc))

    def implied(self, t):
        """True when t certainly holds here (cheap check, no decision recorded)."""
        t = z3.simplify(t)
        if is_true(t): return True
        if is_false(t): return False
        if t.get_id() in self.known()[0]: return True
        return not self.x.feasible(self.pc + [z3.Not(t)])

    def prove(self, name, t):
        """States a named obligation and discharges it."""
        if isinstance(t, SBool): t = t.t
        if isinstance(t, bool): t = z3.BoolVal(t)
        if isinstance(t, (list, tuple)):
            for k, e in enumerate(t): self.prove(f'{name}.{k}', e)
            return
        if self.replaying():
            # already discharged by the run that forked this path
            self.pc.append(t)
            return
        st = self.x.stats
        st.obligations += 1
        st.names[name] = st.names.get(name, 0) + 1
        verdict = None
        if not self.x.options.get('no_norm') and not z3.is_quantifier(t):
            from . import seqnorm
            g = seqnorm.norm(self).goal(t)
            if is_true(z3.simplify(g)): verdict, backend, info = 'proved', 'normaliser', None
            elif not g.eq(t):
                verdict, backend, info = self.x.valid(self.pc, g, quick=True)
                if verdict != 'proved': verdict = None
        if verdict is None: verdict, backend, info = self.x.valid(self.pc, t)
        if verdict == 'proved':
            st.discharged += 1
            st.by_backend[backend] = st.by_backend.get(backend, 0) + 1
            if not is_true(z3.simplify(t)) if not z3.is_quantifier(t) else True:
                self.pc.append(t)
            return
        if verdict == 'failed':
            self.x.failures.append(Failure(name, info, self, t))
            if len(self.x.failures) >= 3 or self.x.stop_on_failure:
                raise ObligationFailed
            raise PathEnd
        self.x.undecided.append((name, str(info)))
        self.pc.append(t)

    def cover(self, name):
        st = self.x.stats
        if not st.covers.get(name):
            st.covers[name] = st.covers.get(name, False) or self.is_feasible()

    # fresh symbols
    def fresh(self, name, sort):
        return z3.Const(self.name(name), sort)

    def int(self, name, lo=None, hi=None, record=True):
        v = SInt(self.fresh(name, I))
        if lo is not None: self.pc.append(v.t >= lo)
        if hi is not None: self.pc.append(v.t <= hi)
        if record: self.inputs.append((name, v))
        return v

    def real(self, name):
        v = SReal(self.fresh(name, REAL))
        self.inputs.append((name, v))
        return v

    def bool(self, name, record=True):
        v = SBool(self.fresh(name, B))
        if record: self.inputs.append((name, v))
        return v

    def str(self, name, record=True):
        v = SSeq(self.fresh(name, SEQ), 'str')
        if record: self.inputs.append((name, v))
        return v

    def bytes(self, name, record=True):
        v = SSeq(self.fresh(name, SEQ), 'bytes')
        if record: self.inputs.append((name, v))
        return v

    def touch(self, obj, loc):
        """Called before a heap write; widens the frames of the active loops when needed."""
        for lp in self.loops:
            if obj.oid <= lp.oid and (obj.oid, loc) not in lp.havocked:
                mods = self.x.loop_mods.setdefault(lp.key, set())
                mods.add((obj.oid, loc))
                raise Restart


class Failure:
    def __init__(self, name, info, ctx, goal):
        self.name = name
        self.goal = str(goal)[:2000]
        self.model = None
        self.reason = None
        self.inputs = {}
        if isinstance(info, z3.ModelRef):
            self.model = info
            for n, v in ctx.inputs:
                try:
                    self.inputs[n] = decode(info, v)
                except Exception as exc:
                    self.inputs[n] = f'<{exc!r}>'
            self.model_text = str(info)[:4000]
        else:
            self.reason = str(info)
            self.model_text = ''
        self.pc_text = '\n'.join(str(t)[:400] for t in ctx.pc[-40:])


def decode_seq(m, t):
    v = m.eval(t, model_completion=True)
    n = m.eval(z3.Length(v), model_completion=True).as_long()
    if n > 100000: n = 100000
    out = []
    for k in range(n):
        e = m.eval(z3.simplify(v[k]), model_completion=True)
        out.append(e.as_long() if z3.is_int_value(e) else 0)
    return out


def decode(m, v):
    if isinstance(v, SInt):
        return m.eval(v.t, model_completion=True).as_long()
    if isinstance(v, SBool):
        return z3.is_true(m.eval(v.t, model_completion=True))
    if isinstance(v, SReal):
        r = m.eval(v.t, model_completion=True)
        return float(r.as_fraction())
    if isinstance(v, SSeq):
        out = decode_seq(m, v.t)
        if v.kind == 'str':
            return ''.join(chr(c) if 0 <= c < 0x110000 else '\ufffd' for c in out)
        return bytes(c % 256 for c in out)
    if isinstance(v, (list, tuple)):
        return type(v)(decode(m, e) for e in v)
    if isinstance(v, dict):
        return {k: decode(m, e) for k, e in v.items()}
    if hasattr(v, 'decode_model'):
        return v.decode_model(m)
    return v
