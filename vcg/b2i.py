"""Bit-vector terms over the integers.

Every bit-vector term of width w becomes an integer term in [0, 2^w) that is equal to its
unsigned value; operations that can wrap or divide get a fresh quotient variable with its
defining facts.  Terms outside the fragment get a fresh variable with only its range
(sound for proving: a hypothesis or goal about it is weaker, never stronger); `exact`
records whether that happened."""
import z3
import itertools

_n = itertools.count()
K = z3


def iv(name):
    return z3.Int('%s!i%d' % (name, next(_n)))


class Skip(Exception):
    pass


class Facts(list):
    """side facts; each is noted against the term being translated"""

    def __init__(self, owner):
        self.owner = owner

    def append(self, f):
        self.owner.top.add(len(self))
        list.append(self, f)

    def __iadd__(self, fs):
        for f in fs:
            self.append(f)
        return self


class B2I:
    """a translation that can be kept: every translated term remembers the side facts it
    needs, so one table serves all obligations of a task"""

    def __init__(self):
        self.top = set()
        self.side = Facts(self)
        self.lin = Lin()
        self.memo = {}
        self.keep = []
        self.exact = True
        self.ufs = {}
        self.products = []
        self.wraps = []

    # each bit-vector: (int term, lo, hi, trailing zero bits)
    def ranged(self, v, lo, hi):
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def opaque(self, t, exact=False):
        w = t.size()
        if not exact:
            self.exact = False
        v = iv('o')
        return (self.ranged(v, 0, (1 << w) - 1), 0, (1 << w) - 1, 0)

    def bv(self, t):
        k = t.get_id()
        return self.scoped(k, t, self._bv)

    def scoped(self, k, t, fn):
        r = self.memo.get(k)
        if r is None:
            old, self.top = self.top, set()
            try:
                v = fn(t)
                r = self.memo[k] = (v, frozenset(self.top))
            finally:
                self.top |= old
            self.keep.append(t)
        else:
            self.top |= r[1]
        return r[0]

    def note(self, key, val, n0):
        """memoise an intermediate result together with the facts added since n0"""
        self.memo[key] = (val, range(n0, len(self.side)))
        return val

    def recall(self, key):
        r = self.memo.get(key)
        if r is None:
            return None
        self.top.update(r[1])
        return r[0]

    def wrap(self, v, lo, hi, w, tz):
        """v in [lo, hi] modulo 2^w"""
        W = 1 << w
        if lo >= 0 and hi < W:
            return (v, lo, hi, tz)
        if lo >= -W and hi < 2 * W:
            r = iv('s')
            self.wraps.append((r, v, W, len(self.side)))
            if lo >= 0:
                self.side.append(z3.Or(z3.And(v < W, r == v), z3.And(v >= W, r == v - W)))
            elif hi < W:
                self.side.append(z3.Or(z3.And(v >= 0, r == v), z3.And(v < 0, r == v + W)))
            else:
                self.side.append(z3.Or(z3.And(v >= 0, v < W, r == v), z3.And(v < 0, r == v + W), z3.And(v >= W, r == v - W)))
            return (self.ranged(r, 0, W - 1), 0, W - 1, min(tz, w))
        q, r = iv('k'), iv('m')
        self.side.append(v == q * W + r)
        self.ranged(q, lo // W, hi // W)
        return (self.ranged(r, 0, W - 1), 0, W - 1, min(tz, w))

    def div2(self, a, k):
        """a div 2^k, a mod 2^k"""
        v, lo, hi, tz = a
        if k == 0:
            return a, (z3.IntVal(0), 0, 0, 99)
        P = 1 << k
        if hi < P:
            return (z3.IntVal(0), 0, 0, 99), a
        key = ('d', v.get_id(), k)
        r, n0 = self.recall(key), len(self.side)
        if r is None:
            if z3.is_int_value(v):
                x = v.as_long()
                r = (z3.IntVal(x >> k), x >> k, x >> k, 0), (z3.IntVal(x % P), x % P, x % P, 0)
            elif tz >= k and z3.is_mul(v) and v.num_args() == 2 and z3.is_int_value(v.arg(0)) and v.arg(0).as_long() % P == 0:
                c = v.arg(0).as_long() >> k
                r = ((v.arg(1) if c == 1 else c * v.arg(1)), lo >> k, hi >> k, tz - k), (z3.IntVal(0), 0, 0, 99)
            else:
                q, m = iv('q'), iv('m')
                self.side.append(v == q * P + m)
                self.ranged(q, lo >> k, hi >> k)
                mh = 0 if tz >= k else P - 1
                self.ranged(m, 0, mh)
                r = (q, lo >> k, hi >> k, max(tz - k, 0)), (m, 0, mh, tz)
            self.note(key, r, n0)
            self.keep.append(v)
        return r

    def mulc(self, v, c):
        return z3.IntVal(v.as_long() * c) if z3.is_int_value(v) else (v if c == 1 else c * v)

    def _bv(self, t):
        w = t.size()
        M = (1 << w) - 1
        if z3.is_bv_value(t):
            x = t.as_long()
            tz = w if x == 0 else (x & -x).bit_length() - 1
            return (z3.IntVal(x), x, x, tz)
        d = t.decl()
        op = d.kind()
        if op == K.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                v = iv(d.name())
                return (self.ranged(v, 0, M), 0, M, 0)
            args = []
            for a in t.children():
                args.append(self.bv(a)[0] if z3.is_bv(a) else a if a.sort() == z3.IntSort() else None)
            if any(a is None for a in args):
                return self.opaque(t)
            f = self.ufs.get(d.name())
            if f is None:
                f = self.ufs[d.name()] = z3.Function('%s!I' % d.name(), *([z3.IntSort()] * (len(args) + 1)))
            v = f(*args)
            return (self.ranged(v, 0, M), 0, M, 0)
        ch = t.children()
        if op == K.Z3_OP_ITE:
            c = self.bo(ch[0])
            a, b = self.bv(ch[1]), self.bv(ch[2])
            return (z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), min(a[3], b[3]))
        if op == K.Z3_OP_BADD:
            rs = [self.bv(c) for c in ch]
            # constants above 2^(w-1) are subtractions
            lo = hi = 0
            v = None
            tz = min(r[3] for r in rs)
            for c, r in zip(ch, rs):
                x, l, h = r[:3]
                if l == h and l > M // 2:
                    x, l, h = z3.IntVal(l - M - 1), l - M - 1, h - M - 1
                elif c.decl().kind() == K.Z3_OP_BMUL and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() == M and c.num_args() == 2:
                    y = self.bv(c.arg(1))
                    x, l, h = -y[0], -y[2], -y[1]
                elif c.decl().kind() == K.Z3_OP_BNEG:
                    y = self.bv(c.arg(0))
                    x, l, h = -y[0], -y[2], -y[1]
                v = x if v is None else v + x
                lo, hi = lo + l, hi + h
            return self.wrap(v, lo, hi, w, tz)
        if op == K.Z3_OP_BSUB:
            a, b = self.bv(ch[0]), self.bv(ch[1])
            return self.wrap(a[0] - b[0], a[1] - b[2], a[2] - b[1], w, min(a[3], b[3]))
        if op == K.Z3_OP_BNEG:
            a = self.bv(ch[0])
            return self.wrap(-a[0], -a[2], -a[1], w, a[3])
        if op == K.Z3_OP_BNOT:
            a = self.bv(ch[0])
            return (M - a[0], M - a[2], M - a[1], 0)
        if op == K.Z3_OP_BMUL:
            r = self.bv(ch[0])
            for c in ch[1:]:
                b = self.bv(c)
                if z3.is_int_value(r[0]):
                    r, b = b, r
                if z3.is_int_value(b[0]):
                    x = b[0].as_long()
                    if x > M // 2:
                        x -= M + 1
                    v = self.mulc(r[0], x)
                    lo, hi = sorted((r[1] * x, r[2] * x))
                else:
                    v = r[0] * b[0]
                    lo, hi = r[1] * b[1], r[2] * b[2]
                    self.products.append((r[0], b[0]))
                r = self.wrap(v, lo, hi, w, r[3] + b[3])
            return r
        if op in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I, K.Z3_OP_BUREM, K.Z3_OP_BUREM_I):
            a, b = self.bv(ch[0]), self.bv(ch[1])
            key = ('ud', ch[0].get_id(), ch[1].get_id())
            qm, n0 = self.recall(key), len(self.side)
            if qm is None:
                q, m = iv('q'), iv('r')
                z = b[0] == 0
                self.ranged(q, 0, M)
                self.ranged(m, 0, M)
                if b[1] == 0:
                    self.side.append(z3.Implies(z, z3.And(q == M, m == a[0])))
                    self.side.append(z3.Implies(z3.Not(z), z3.And(a[0] == q * b[0] + m, m < b[0], q <= a[0])))
                else:
                    self.side += [a[0] == q * b[0] + m, m < b[0], q <= a[0]]
                self.products.append((q, b[0]))
                qm = self.note(key, (q, m), n0)
            if op in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I):
                return (qm[0], 0, M if b[1] == 0 else a[2] // b[1], 0)
            return (qm[1], 0, M if b[1] == 0 else min(b[2] - 1, a[2]), 0)
        if op in (K.Z3_OP_BSDIV, K.Z3_OP_BSDIV_I, K.Z3_OP_BSREM, K.Z3_OP_BSREM_I):
            # exact for non-negative operands and a positive divisor, otherwise arbitrary
            a, b = self.bv(ch[0]), self.bv(ch[1])
            H = 1 << (w - 1)
            key = ('sd', ch[0].get_id(), ch[1].get_id())
            qm, n0 = self.recall(key), len(self.side)
            if qm is None:
                q, m = iv('q'), iv('r')
                self.ranged(q, 0, M)
                self.ranged(m, 0, M)
                self.exact = False
                self.side.append(z3.Implies(z3.And(a[0] < H, b[0] < H, b[0] > 0), z3.And(a[0] == q * b[0] + m, m < b[0], q <= a[0])))
                qm = self.note(key, (q, m), n0)
            return (qm[0 if op in (K.Z3_OP_BSDIV, K.Z3_OP_BSDIV_I) else 1], 0, M, 0)
        if op in (K.Z3_OP_BSHL, K.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            a = self.bv(ch[0])
            if s >= w:
                return (z3.IntVal(0), 0, 0, w)
            if op == K.Z3_OP_BLSHR:
                return self.div2(a, s)[0]
            lowpart = self.div2(a, w - s)[1]
            return (self.mulc(lowpart[0], 1 << s), lowpart[1] << s, lowpart[2] << s, s + lowpart[3])
        if op == K.Z3_OP_EXTRACT:
            h, l = d.params()
            a = self.bv(ch[0])
            a = self.div2(a, l)[0]
            if a[2] >= 1 << (h - l + 1):
                a = self.div2(a, h - l + 1)[1]
            return a
        if op == K.Z3_OP_CONCAT:
            v, lo, hi, tz, sh = None, 0, 0, None, 0
            for c in reversed(ch):
                a = self.bv(c)
                x = self.mulc(a[0], 1 << sh)
                if not (z3.is_int_value(a[0]) and a[0].as_long() == 0):
                    v = x if v is None else x + v
                lo += a[1] << sh
                hi += a[2] << sh
                if tz is None:
                    tz = a[3] if a[2] else c.size()
                elif tz == sh:
                    tz = sh + (a[3] if a[2] else c.size())
                sh += c.size()
            return (z3.IntVal(0) if v is None else v, lo, hi, min(tz, w))
        if op == K.Z3_OP_ZERO_EXT:
            return self.bv(ch[0])
        if op == K.Z3_OP_SIGN_EXT:
            a = self.bv(ch[0])
            n = ch[0].size()
            H = 1 << (n - 1)
            if a[2] < H:
                return a
            up = (1 << w) - (1 << n)
            return (z3.If(a[0] >= H, a[0] + up, a[0]), 0, M, 0)
        if op == K.Z3_OP_BOR:
            rs = [self.bv(c) for c in ch]
            r = rs[0]
            for b in rs[1:]:
                if r[2] < 1 << b[3]:
                    r, b = b, r
                if b[2] < 1 << r[3]:
                    r = (r[0] + b[0] if b[2] else r[0], r[1] + b[1], r[2] + b[2], min(r[3], b[3]))
                else:
                    return self.opaque(t)
            return r
        if op == K.Z3_OP_BAND and len(ch) == 2:
            for m, x in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(m):
                    c = m.as_long()
                    if c & (c + 1) == 0:
                        a = self.bv(x)
                        return self.div2(a, c.bit_length())[1]
                    n = M & ~c
                    if n & (n + 1) == 0:
                        a = self.bv(x)
                        q = self.div2(a, n.bit_length())[0]
                        s = n.bit_length()
                        return (self.mulc(q[0], 1 << s), q[1] << s, q[2] << s, s)
        return self.opaque(t)

    def sgn(self, t):
        a = self.bv(t)
        H = 1 << (t.size() - 1)
        if a[2] < H:
            return a[0]
        return z3.If(a[0] >= H, a[0] - 2 * H, a[0])

    def bo(self, f):
        k = ('b', f.get_id())
        return self.scoped(k, f, self._bo)

    def _bo(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        op = f.decl().kind()
        ch = f.children()
        if op in (K.Z3_OP_AND, K.Z3_OP_OR, K.Z3_OP_NOT, K.Z3_OP_IMPLIES, K.Z3_OP_XOR, K.Z3_OP_IFF):
            a = [self.bo(c) for c in ch]
            return {K.Z3_OP_AND: lambda: z3.And(*a), K.Z3_OP_OR: lambda: z3.Or(*a), K.Z3_OP_NOT: lambda: z3.Not(a[0]),
                    K.Z3_OP_IMPLIES: lambda: z3.Implies(*a), K.Z3_OP_XOR: lambda: z3.Xor(*a), K.Z3_OP_IFF: lambda: a[0] == a[1]}[op]()
        if op in (K.Z3_OP_EQ, K.Z3_OP_DISTINCT):
            s = ch[0].sort()
            if s.kind() == K.Z3_BV_SORT:
                a = [self.bv(c)[0] for c in ch]
            elif s.kind() == K.Z3_BOOL_SORT:
                a = [self.bo(c) for c in ch]
            else:
                a = [self.ar(c) for c in ch]
            return a[0] == a[1] if op == K.Z3_OP_EQ else z3.Distinct(*a)
        if op == K.Z3_OP_ITE:
            return z3.If(self.bo(ch[0]), self.bo(ch[1]), self.bo(ch[2]))
        u = {K.Z3_OP_ULT: lambda a, b: a < b, K.Z3_OP_ULEQ: lambda a, b: a <= b, K.Z3_OP_UGT: lambda a, b: a > b, K.Z3_OP_UGEQ: lambda a, b: a >= b}
        if op in u:
            return u[op](self.bv(ch[0])[0], self.bv(ch[1])[0])
        s = {K.Z3_OP_SLT: lambda a, b: a < b, K.Z3_OP_SLEQ: lambda a, b: a <= b, K.Z3_OP_SGT: lambda a, b: a > b, K.Z3_OP_SGEQ: lambda a, b: a >= b}
        if op in s:
            return s[op](self.sgn(ch[0]), self.sgn(ch[1]))
        i = {K.Z3_OP_LT: lambda a, b: a < b, K.Z3_OP_LE: lambda a, b: a <= b, K.Z3_OP_GT: lambda a, b: a > b, K.Z3_OP_GE: lambda a, b: a >= b}
        if op in i:
            return i[op](self.ar(ch[0]), self.ar(ch[1]))
        nm = f.decl().name()
        if nm in ('bvumul_noovfl',):
            a, b = self.bv(ch[0]), self.bv(ch[1])
            self.products.append((a[0], b[0]))
            return a[0] * b[0] < (1 << ch[0].size())
        if nm in ('bvsmul_noovfl', 'bvsmul_noudfl'):
            H = 1 << (ch[0].size() - 1)
            x = self.sgn(ch[0]) * self.sgn(ch[1])
            return x < H if nm == 'bvsmul_noovfl' else x >= -H
        if op == K.Z3_OP_UNINTERPRETED and f.num_args() == 0:
            return f
        if op == K.Z3_OP_UNINTERPRETED and all(z3.is_bv(c) or c.sort() == z3.IntSort() for c in f.children()):
            return self.uf(f)
        self.exact = False
        return z3.Bool('ob!%d' % next(_n))

    def uf(self, t):
        """uninterpreted application with an integer or boolean result: arguments in integer form"""
        args = []
        for c in t.children():
            if z3.is_bv(c):
                args.append(self.bv(c)[0])
            elif c.sort() == z3.IntSort():
                args.append(self.ar(c))
            else:
                raise Skip(str(t.decl()))
        n = t.decl().name()
        f = self.ufs.get(n)
        if f is None:
            f = self.ufs[n] = z3.Function('%s!I' % n, *([z3.IntSort()] * len(args) + [t.sort()]))
        return f(*args)

    def ar(self, t):
        """integer terms; bv2int of a bit-vector is its translation"""
        if z3.is_int_value(t):
            return t
        op = t.decl().kind()
        ch = t.children()
        if op == K.Z3_OP_BV2INT:
            return self.bv(ch[0])[0]
        if op == K.Z3_OP_UNINTERPRETED and not ch:
            return t
        if op == K.Z3_OP_ITE:
            return z3.If(self.bo(ch[0]), self.ar(ch[1]), self.ar(ch[2]))
        if op in (K.Z3_OP_ADD, K.Z3_OP_SUB, K.Z3_OP_MUL, K.Z3_OP_UMINUS):
            a = [self.ar(c) for c in ch]
            if op == K.Z3_OP_UMINUS:
                return -a[0]
            r = a[0]
            for x in a[1:]:
                r = r + x if op == K.Z3_OP_ADD else r - x if op == K.Z3_OP_SUB else r * x
            return r
        if op in (K.Z3_OP_IDIV, K.Z3_OP_MOD):
            a, b = self.ar(ch[0]), self.ar(ch[1])
            return a / b if op == K.Z3_OP_IDIV else a % b
        if op == K.Z3_OP_UNINTERPRETED:
            return self.uf(t)
        raise Skip(str(t.decl()))


def translate(hs, goal, b=None):
    """hypotheses (with the side facts they need) and goal over the integers"""
    b = b or B2I()
    out, need = [], set()

    def one(h):
        b.top = set()
        try:
            return b.bo(h)
        finally:
            need.update(b.top)
    for h in hs:
        try:
            out.append(one(h))
        except Skip:
            b.exact = False
    g = one(goal)
    b.need = need
    return out + [b.side[i] for i in sorted(need)], g, b


class Lin:
    """products of unknowns as fresh variables after expansion; a weakening, so a proof of
    the linear problem is a proof of the original"""

    def __init__(self):
        self.names, self.memo, self.keep, self.done = {}, {}, [], {}

    def go(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            ch = t.children()
            if ch:
                n = [self.go(c) for c in ch]
                if t.decl().kind() == z3.Z3_OP_MUL:
                    num = [c for c in n if z3.is_int_value(c)]
                    var = sorted((c for c in n if not z3.is_int_value(c)), key=lambda c: c.get_id())
                    if len(var) > 1:
                        key = tuple(c.get_id() for c in var)
                        v = self.names.get(key)
                        if v is None:
                            v = self.names[key] = iv('prod')
                            self.keep.extend(var)
                        r = v
                        for c in num:
                            r = c * r
                    else:
                        r = t.decl()(*n) if len(n) > 1 else n[0]
                elif t.decl().kind() == z3.Z3_OP_POWER and len(n) == 2 and z3.is_int_value(n[1]):
                    key = (n[0].get_id(),) * n[1].as_long()
                    r = self.names.setdefault(key, iv('prod'))
                    self.keep.append(n[0])
                else:
                    r = t.decl()(*n)
            else:
                r = t
            self.memo[k] = r
            self.keep.append(t)
            self.keep.append(r)
        return r

    def __call__(self, fs):
        out = []
        for f in fs:
            r = self.done.get(f.get_id())
            if r is None:
                r = self.done[f.get_id()] = self.go(z3.simplify(f, som=True, arith_lhs=False))
                self.keep.append(f)
            out.append(r)
        return out


def resolve_wraps(H, G, b):
    """replace a wrapped value by the sum itself (or the sum plus or minus 2^w) where the
    hypotheses decide which it is, so that products of it expand"""
    sub = []
    linearise = b.lin
    for r, v, W, at in b.wraps:
        if at not in b.need:
            continue
        v = z3.substitute(v, *sub) if sub else v
        L = None
        for off, outside in ((0, z3.Or(v < 0, v >= W)), (W, z3.Or(v >= 0, v < -W)), (-W, v < W)):
            if L is None:
                L = linearise(H)
            s = z3.SolverFor('QF_LIA')
            s.set('timeout', 300)
            s.add(*L, *linearise([outside]))
            c = s.check()
            if c != z3.unsat and off == 0:
                s = z3.Solver()
                s.set('timeout', 600)
                s.add(*H, outside)
                c = s.check()
            if c == z3.unsat:
                t = v if off == 0 else v + off
                sub.append((r, t))
                H = [z3.simplify(z3.substitute(h, (r, t))) for h in H]
                G = z3.substitute(G, (r, t))
                break
    return H, G
