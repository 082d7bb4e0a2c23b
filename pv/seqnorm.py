"""
Normalisation of sequence terms by length arithmetic.

An arithmetic abstraction of the path condition (sequence lengths become integers, every other non-arithmetic atom an uninterpreted
boolean; weaker than the path condition, so "implied" answers are sound) decides where the pieces of concatenations begin and end;
extracts, element accesses and equalities over concatenations are rewritten accordingly. All rewrites are equivalences under the path condition.
"""
import z3

I = z3.IntSort()
K = z3


def is_const(t): return z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
def kind(t): return t.decl().kind() if z3.is_app(t) else None


class Norm:
    def __init__(self, ctx):
        self.ctx = ctx
        self.pos = 0
        self.defs = {}          # const id -> (const, definition)
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        self.memo = {}
        self.lens = {}
        self.keep = []
        self.cache = {}
        self.npc = 0
        self.n = 0

    # ------------------------------------------------------------ abstraction
    def var(self, t, sort, pre):
        k = (t.get_id(), pre)
        v = self.memo.get(k)
        if v is None:
            self.n += 1
            v = z3.Const(f'${pre}{self.n}', sort)
            self.memo[k] = v
            self.keep.append(t)
        return v

    def length(self, t):
        key = t.get_id()
        r = self.lens.get(key)
        if r is not None: return r
        k = kind(t)
        if k == z3.Z3_OP_SEQ_EMPTY: r = z3.IntVal(0)
        elif k == z3.Z3_OP_SEQ_UNIT: r = z3.IntVal(1)
        elif k == z3.Z3_OP_SEQ_CONCAT:
            r = z3.IntVal(0)
            for c in t.children(): r = r + self.length(c)
        elif k == z3.Z3_OP_SEQ_EXTRACT:
            b, o, n = t.children()
            v = self.var(t, I, 'len')
            lb, ao, an = self.length(b), self.arith(o), self.arith(n)
            self.solver.add(v >= 0, v <= lb)
            self.solver.add(z3.Implies(z3.And(ao >= 0, an >= 0), v <= an))
            self.solver.add(z3.Implies(z3.And(ao >= 0, an >= 0, ao + an <= lb), v == an))
            self.solver.add(z3.Implies(z3.And(ao >= 0, ao <= lb, an >= 0, ao + an > lb), v == lb - ao))
            self.solver.add(z3.Implies(z3.Or(ao < 0, an <= 0, ao >= lb), v == 0))
            r = v
        elif k == z3.Z3_OP_ITE:
            c, a, b = t.children()
            v = self.var(t, I, 'len')
            ac = self.boolean(c)
            self.solver.add(v == z3.If(ac, self.length(a), self.length(b)))
            r = v
        else:
            r = self.var(t, I, 'len')
            self.solver.add(r >= 0)
        self.lens[key] = r
        self.keep.append(t)
        return r

    def arith(self, t):
        if z3.is_int_value(t): return t
        k = kind(t)
        ch = t.children() if z3.is_app(t) else []
        if k == z3.Z3_OP_SEQ_LENGTH: return self.length(t.arg(0))
        if k == z3.Z3_OP_ADD:
            r = self.arith(ch[0])
            for c in ch[1:]: r = r + self.arith(c)
            return r
        if k == z3.Z3_OP_SUB:
            r = self.arith(ch[0])
            for c in ch[1:]: r = r - self.arith(c)
            return r
        if k == z3.Z3_OP_UMINUS: return -self.arith(ch[0])
        if k == z3.Z3_OP_MUL and sum(1 for c in ch if not z3.is_int_value(c)) <= 1:
            r = self.arith(ch[0])
            for c in ch[1:]: r = r * self.arith(c)
            return r
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            a = self.arith(ch[0])
            return a / ch[1] if k == z3.Z3_OP_IDIV else a % ch[1]
        if k == z3.Z3_OP_ITE: return z3.If(self.boolean(ch[0]), self.arith(ch[1]), self.arith(ch[2]))
        if k == z3.Z3_OP_SEQ_INDEX:
            v = self.var(t, I, 'i')
            self.solver.add(v >= -1, v <= self.length(t.arg(0)))
            return v
        return self.var(t, I, 'i')

    def boolean(self, t):
        if z3.is_true(t) or z3.is_false(t): return t
        if z3.is_quantifier(t): return self.var(t, z3.BoolSort(), 'b')
        k = kind(t)
        ch = t.children()
        if k == z3.Z3_OP_AND: return z3.And(*[self.boolean(c) for c in ch])
        if k == z3.Z3_OP_OR: return z3.Or(*[self.boolean(c) for c in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(self.boolean(ch[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == z3.Z3_OP_ITE: return z3.If(self.boolean(ch[0]), self.boolean(ch[1]), self.boolean(ch[2]))
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2: return z3.Not(self.boolean(ch[0] == ch[1]))
        if k == z3.Z3_OP_EQ:
            s = ch[0].sort()
            if s == I: return self.arith(ch[0]) == self.arith(ch[1])
            if s == z3.BoolSort(): return self.boolean(ch[0]) == self.boolean(ch[1])
            b = self.var(t, z3.BoolSort(), 'b')
            if z3.is_seq(ch[0]): self.solver.add(z3.Implies(b, self.length(ch[0]) == self.length(ch[1])))
            return b
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and ch[0].sort() == I:
            a, b = self.arith(ch[0]), self.arith(ch[1])
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        if k in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX):
            b = self.var(t, z3.BoolSort(), 'b')
            self.solver.add(z3.Implies(b, self.length(ch[0]) <= self.length(ch[1])))
            return b
        if k == z3.Z3_OP_SEQ_CONTAINS:
            b = self.var(t, z3.BoolSort(), 'b')
            self.solver.add(z3.Implies(b, self.length(ch[1]) <= self.length(ch[0])))
            return b
        return self.var(t, z3.BoolSort(), 'b')

    def sync(self):
        pc = self.ctx.pc
        if self.pos > len(pc):      # the path condition was rolled back
            self.__init__(self.ctx)
        while self.pos < len(pc):
            t = pc[self.pos]
            self.pos += 1
            self.learn(t)
            try: self.solver.add(self.boolean(t))
            except z3.Z3Exception: pass

    def learn(self, t):
        k = kind(t)
        if k == z3.Z3_OP_AND:
            for c in t.children(): self.learn(c)
        elif k == z3.Z3_OP_EQ and z3.is_seq(t.arg(0)):
            a, b = t.children()
            for x, y in ((a, b), (b, a)):
                if is_const(x) and kind(y) in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_UNIT, z3.Z3_OP_SEQ_EMPTY, z3.Z3_OP_SEQ_EXTRACT) or (is_const(x) and is_const(y)):
                    if x.get_id() not in self.defs and not self.occurs(x, y):
                        self.defs[x.get_id()] = (x, y)
                        return

    def occurs(self, x, y, seen=None):
        """x occurs in y (through the definitions)"""
        seen = set() if seen is None else seen
        stack = [y]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen: continue
            seen.add(i)
            if t.eq(x): return True
            d = self.defs.get(i)
            if d is not None: stack.append(d[1])
            stack.extend(t.children())
        return False

    def implied(self, t):
        """certainly true under the path condition (arithmetic abstraction)"""
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        self.sync()
        key = (t.get_id(), self.pos)
        r = self.cache.get(key)
        if r is None:
            b = self.boolean(t)
            self.solver.push()
            self.solver.add(z3.Not(b))
            r = self.solver.check() == z3.unsat
            self.solver.pop()
            self.cache[key] = r
            self.keep.append(t)
        return r

    # ------------------------------------------------------------ rewriting
    def pieces(self, t, expand=True, depth=0):
        k = kind(t)
        if k == z3.Z3_OP_SEQ_EMPTY: return []
        if k == z3.Z3_OP_SEQ_CONCAT:
            out = []
            for c in t.children(): out.extend(self.pieces(c, expand, depth))
            return out
        if expand and depth < 12:
            d = self.defs.get(t.get_id())
            if d is not None: return self.pieces(d[1], expand, depth + 1)
        return [t]

    def join(self, ps, sort):
        ps = list(ps)
        if not ps: return z3.Empty(sort)
        if len(ps) == 1: return ps[0]
        return z3.Concat(*ps)

    def plen(self, p):
        k = kind(p)
        if k == z3.Z3_OP_SEQ_UNIT: return z3.IntVal(1)
        if k == z3.Z3_OP_SEQ_EXTRACT:
            b, o, n = p.children()
            if self.implied(z3.And(o >= 0, n >= 0, o + n <= z3.Length(b))): return n
        return z3.Length(p)

    def extract(self, t, off, n):
        """a term equal to Extract(t, off, n)"""
        self.sync()
        off, n = z3.simplify(off), z3.simplify(n)
        raw = z3.simplify(z3.Extract(t, off, n))
        if kind(raw) != z3.Z3_OP_SEQ_EXTRACT: return raw
        t, off, n = raw.children()
        if not self.implied(z3.And(off >= 0, n >= 0)): return raw
        if self.implied(n == 0): return z3.Empty(t.sort())
        if self.implied(z3.And(off == 0, n >= z3.Length(t))): return t
        if kind(t) == z3.Z3_OP_SEQ_EXTRACT:
            b, o2, n2 = t.children()
            if self.implied(z3.And(o2 >= 0, n2 >= 0, o2 + n2 <= z3.Length(b), off + n <= n2)):
                return self.extract(b, z3.simplify(o2 + off), n)
        ps = self.pieces(t)
        if len(ps) <= 1:
            if len(ps) == 1 and not ps[0].eq(t): return self.extract(ps[0], off, n)
            return raw
        k = 0
        rem = off
        while k < len(ps):
            if self.implied(rem == 0): rem = z3.IntVal(0); break
            l = self.plen(ps[k])
            if self.implied(rem >= l):
                rem = z3.simplify(rem - l); k += 1
            else: break
        ps = ps[k:]
        if not ps: return z3.Empty(t.sort())
        out = []
        if not (z3.is_int_value(rem) and rem.as_long() == 0):
            p = ps[0]
            l = self.plen(p)
            if not self.implied(rem <= l):
                if k == 0 and len(ps) == len(self.pieces(t)): return raw
                return z3.Extract(self.join(ps, t.sort()), rem, n)
            if self.implied(rem + n <= l): return self.extract1(p, rem, n)
            if self.implied(rem + n >= l):
                out.append(self.extract1(p, rem, z3.simplify(l - rem)))
                n = z3.simplify(n - (l - rem))
                ps = ps[1:]
            else:
                return z3.Extract(self.join(ps, t.sort()), rem, n)
        while ps:
            if self.implied(n == 0): break
            l = self.plen(ps[0])
            if self.implied(n >= l):
                out.append(ps[0]); n = z3.simplify(n - l); ps = ps[1:]; continue
            if self.implied(n <= l):
                out.append(self.extract1(ps[0], z3.IntVal(0), n)); break
            out.append(z3.Extract(self.join(ps, t.sort()), z3.IntVal(0), n))
            break
        return self.join(out, t.sort())

    def extract1(self, p, off, n):
        if kind(p) == z3.Z3_OP_SEQ_EXTRACT:
            b, o2, n2 = p.children()
            if self.implied(z3.And(o2 >= 0, n2 >= 0, o2 + n2 <= z3.Length(b), off >= 0, n >= 0, off + n <= n2)):
                return z3.simplify(z3.Extract(b, o2 + off, n))
        return z3.simplify(z3.Extract(p, off, n))

    def nth(self, t, i):
        """a term equal to t[i] (i in range)"""
        self.sync()
        i = z3.simplify(i)
        ps = self.pieces(t)
        k = 0
        rem = i
        if not self.implied(rem >= 0): return z3.simplify(t[i])
        while k < len(ps):
            l = self.plen(ps[k])
            if self.implied(rem < l):
                p = ps[k]
                if kind(p) == z3.Z3_OP_SEQ_UNIT: return p.arg(0)
                if kind(p) == z3.Z3_OP_SEQ_EXTRACT:
                    b, o2, n2 = p.children()
                    if self.implied(z3.And(o2 >= 0, o2 + n2 <= z3.Length(b))): return z3.simplify(b[o2 + rem])
                return z3.simplify(p[rem])
            if self.implied(rem >= l):
                rem = z3.simplify(rem - l); k += 1
            else: break
        if k == 0 or k >= len(ps): return z3.simplify(t[i])
        return z3.simplify(self.join(ps[k:], t.sort())[rem])

    # ------------------------------------------------------------ goals
    def goal(self, t):
        """A goal implied-equivalent to t, with sequence terms normalised."""
        self.sync()
        try: return self.rw(z3.simplify(t), {})
        except z3.Z3Exception: return t

    def rw(self, t, memo):
        r = memo.get(t.get_id())
        if r is not None: return r
        if z3.is_quantifier(t) or not z3.is_app(t): return t
        ch = [self.rw(c, memo) for c in t.children()]
        k = kind(t)
        if k == z3.Z3_OP_SEQ_EXTRACT: r = self.extract(*ch)
        elif k == z3.Z3_OP_SEQ_NTH: r = self.nth(*ch)
        elif k == z3.Z3_OP_EQ and z3.is_seq(ch[0]): r = self.seq_eq(ch[0], ch[1])
        elif k == z3.Z3_OP_ITE and self.implied(ch[0]): r = ch[1]
        elif k == z3.Z3_OP_ITE and self.implied(z3.Not(ch[0])): r = ch[2]
        else:
            if not ch: r = t
            elif k == z3.Z3_OP_AND: r = z3.And(*ch)
            elif k == z3.Z3_OP_OR: r = z3.Or(*ch)
            elif k == z3.Z3_OP_SEQ_CONCAT: r = z3.Concat(*ch)
            elif k == z3.Z3_OP_ADD:
                r = ch[0]
                for c in ch[1:]: r = r + c
            elif k == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]: r = r * c
            else:
                try: r = t.decl()(*ch)
                except z3.Z3Exception: r = t
        memo[t.get_id()] = r
        self.keep.append(t)
        return r

    def seq_eq(self, a, b):
        pa, pb = self.pieces(a), self.pieces(b)
        pa, pb = self.refine(pa), self.refine(pb)
        # cancel equal ends
        while pa and pb:
            if pa[0].eq(pb[0]): pa.pop(0); pb.pop(0); continue
            x, y = pa[0], pb[0]
            if kind(x) == z3.Z3_OP_SEQ_UNIT and kind(y) == z3.Z3_OP_SEQ_UNIT and z3.is_int(x.arg(0)) and self.implied(x.arg(0) == y.arg(0)): pa.pop(0); pb.pop(0); continue
            s = self.split_first(pa, pb)
            if s: continue
            break
        while pa and pb:
            if pa[-1].eq(pb[-1]): pa.pop(); pb.pop(); continue
            break
        pa = [p for p in pa if not self.implied(self.plen(p) == 0)]
        pb = [p for p in pb if not self.implied(self.plen(p) == 0)]
        if not pa and not pb: return z3.BoolVal(True)
        return self.join(pa, a.sort()) == self.join(pb, a.sort())

    def refine(self, ps):
        """merges adjacent extracts of the same base"""
        out = []
        for p in ps:
            if out and kind(p) == z3.Z3_OP_SEQ_EXTRACT and kind(out[-1]) == z3.Z3_OP_SEQ_EXTRACT and p.arg(0).eq(out[-1].arg(0)):
                b, o, n = out[-1].children()
                _, o2, n2 = p.children()
                if self.implied(z3.And(o >= 0, n >= 0, n2 >= 0, o2 == o + n)):
                    m = self.extract(b, o, z3.simplify(n + n2))
                    out.pop()
                    out.extend(self.pieces(m))
                    continue
            if kind(p) == z3.Z3_OP_SEQ_EXTRACT:
                b, o, n = p.children()
                if self.implied(n <= 0): continue
            out.append(p)
        return out

    def split_first(self, pa, pb):
        """the first pieces are extracts of the same base at the same offset (or base and extract at 0): cut the longer one"""
        def view(p):
            if kind(p) == z3.Z3_OP_SEQ_EXTRACT: return p.children()
            return p, z3.IntVal(0), z3.Length(p)
        (b1, o1, n1), (b2, o2, n2) = view(pa[0]), view(pb[0])
        if not b1.eq(b2) or not self.implied(z3.And(o1 == o2, o1 >= 0, n1 >= 0, n2 >= 0, o1 + n1 <= z3.Length(b1), o2 + n2 <= z3.Length(b1))): return False
        if self.implied(n1 == n2): pa.pop(0); pb.pop(0); return True
        if self.implied(n1 <= n2):
            pa.pop(0); pb[0] = self.extract(b1, z3.simplify(o1 + n1), z3.simplify(n2 - n1)); return True
        if self.implied(n2 <= n1):
            pb.pop(0); pa[0] = self.extract(b1, z3.simplify(o1 + n2), z3.simplify(n1 - n2)); return True
        return False


def norm(ctx):
    n = ctx.__dict__.get('_norm')
    if n is None: n = ctx._norm = Norm(ctx)
    return n

def extract(ctx, t, off, n):
    off = off if isinstance(off, z3.ExprRef) else z3.IntVal(off)
    n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
    return norm(ctx).extract(t, off, n)

def nth(ctx, t, i):
    i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
    return norm(ctx).nth(t, i)
