"""Decision procedure for GF(2)-affine bit-vector equalities.

A term is translated bit by bit into an affine form over GF(2) (a Python int used as a bit set:
bit 0 is the constant 1, the others number atoms, i.e. single bits of terms that are not affine).
Hypotheses that are equalities of affine terms become rows of a linear system; the goal holds
when every bit of lhs ^ rhs lies in the row space.  Lookups in constant tables are affine in
their index bits exactly when each 256-entry row is; that is checked by enumerating the row.
"""
import z3


class NotAffine(Exception):
    pass


class Gf2:
    def __init__(self, tables=()):
        self.atom = {}
        self.memo = {}
        self.keep = []
        # name -> values
        self.tables = {'tab.' + n: (v[1], v[2].w) for n, v in dict(tables).items()}
        self.lin = {}

    def atoms(self, t):
        r = []
        t = z3.simplify(t)
        for i in range(t.size()):
            k = (t.get_id(), i)
            if k not in self.atom:
                self.atom[k] = 1 << (len(self.atom) + 1)
                self.keep.append(t)
            r.append(self.atom[k])
        return r

    def bit(self, c):
        """affine form of a Boolean term, or None"""
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        if z3.is_not(c):
            b = self.bit(c.arg(0))
            return None if b is None else b ^ 1
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            d = [x ^ y for x, y in zip(self.bits(c.arg(0)), self.bits(c.arg(1)))]
            d = [x for x in d if x]
            if any(x == 1 for x in d):
                return 0
            if len(d) == 1:
                return d[0] ^ 1
            return 1 if not d else None
        return None

    def bits(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.bits1(t)
            self.keep.append(t)
        return r

    def bits1(self, t):
        n = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return [v >> i & 1 for i in range(n)]
        if not z3.is_app(t):
            return self.atoms(t)
        d = t.decl()
        k = d.kind()
        a = t.children()
        if k == z3.Z3_OP_BXOR:
            r = self.bits(a[0])
            for x in a[1:]:
                r = [p ^ q for p, q in zip(r, self.bits(x))]
            return r
        if k == z3.Z3_OP_BNOT:
            return [x ^ 1 for x in self.bits(a[0])]
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            zero = 0 if k == z3.Z3_OP_BAND else 1
            r = self.bits(a[0])
            for x in a[1:]:
                q = self.bits(x)
                o = []
                for i in range(n):
                    u, v = r[i], q[i]
                    if u == v:
                        o.append(u)
                    elif u == zero or v == zero:
                        o.append(zero)
                    elif u == 1 - zero:
                        o.append(v)
                    elif v == 1 - zero:
                        o.append(u)
                    else:
                        return self.atoms(t)
                r = o
            return r
        if k == z3.Z3_OP_BADD:
            r = self.bits(a[0])
            for x in a[1:]:
                q = self.bits(x)
                if any(u and v for u, v in zip(r, q)):
                    return self.atoms(t)
                r = [u | v for u, v in zip(r, q)]
            return r
        if k == z3.Z3_OP_CONCAT:
            r = []
            for x in reversed(a):
                r += self.bits(x)
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = d.params()
            return self.bits(a[0])[lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT:
            x = self.bits(a[0])
            return x + [0] * (n - len(x))
        if k == z3.Z3_OP_SIGN_EXT:
            x = self.bits(a[0])
            return x + [x[-1]] * (n - len(x))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BMUL):
            if k == z3.Z3_OP_BMUL:
                if len(a) != 2 or not z3.is_bv_value(a[0]):
                    return self.atoms(t)
                m = a[0].as_long()
                if m == 0 or m & (m - 1):
                    return self.atoms(t)
                c, x = m.bit_length() - 1, self.bits(a[1])
            else:
                if not z3.is_bv_value(a[1]):
                    return self.atoms(t)
                c, x = min(a[1].as_long(), n), self.bits(a[0])
            if k == z3.Z3_OP_BLSHR:
                return x[c:] + [0] * c
            return [0] * c + x[:n - c]
        if k == z3.Z3_OP_ITE:
            c = self.bit(a[0])
            if c is None:
                return self.atoms(t)
            x, y = self.bits(a[1]), self.bits(a[2])
            o = []
            for u, v in zip(x, y):
                e = u ^ v
                if e == 0:
                    o.append(u)
                elif e == 1:
                    o.append(v ^ c)
                elif c in (0, 1):
                    o.append(u if c else v)
                else:
                    return self.atoms(t)
            return o
        if k == z3.Z3_OP_UNINTERPRETED and d.name() in self.tables and len(a) == 1:
            vals, w = self.tables[d.name()]
            x = self.bits(a[0])
            if any(b not in (0, 1) for b in x[8:]):
                return self.atoms(t)
            base = sum(b << (i + 8) for i, b in enumerate(x[8:]))
            row = self.row(d.name(), vals, base)
            if row is None:
                return self.atoms(t)
            r = [row[0] >> j & 1 for j in range(n)]
            for b in range(8):
                for j in range(n):
                    if row[1 + b] >> j & 1:
                        r[j] ^= x[b]
            return r
        return self.atoms(t)

    def row(self, name, vals, base):
        key = (name, base)
        if key not in self.lin:
            v = vals[base:base + 256]
            ok = len(v) == 256
            if ok:
                c = v[0]
                g = [v[1 << b] ^ c for b in range(8)]
                for i in range(256):
                    x = c
                    for b in range(8):
                        if i >> b & 1:
                            x ^= g[b]
                    ok = ok and x == v[i]
            self.lin[key] = [c] + g if ok else None
        return self.lin[key]

    def prove(self, hyps, goal):
        goals = list(goal.children()) if z3.is_and(goal) else [goal]
        want = []
        for g in goals:
            if not (z3.is_eq(g) and z3.is_bv(g.arg(0))):
                return False
            want += [x ^ y for x, y in zip(self.bits(g.arg(0)), self.bits(g.arg(1)))]
        if not any(want):
            return True
        rows = {}
        eqs = []

        def walk(h):
            if z3.is_and(h):
                for c in h.children():
                    walk(c)
            elif z3.is_eq(h) and z3.is_bv(h.arg(0)):
                eqs.append(h)
        for h in hyps:
            walk(h)

        def reduce(v):
            while v:
                t = v.bit_length()
                p = rows.get(t)
                if p is None:
                    return v
                v ^= p
            return 0
        for h in eqs:
            if any('tab.' in str(c.decl().name()) and z3.is_bv_value(c.arg(0)) for c in (h.arg(0), h.arg(1)) if z3.is_app(c) and c.num_args() == 1):
                continue
            for x, y in zip(self.bits(h.arg(0)), self.bits(h.arg(1))):
                v = reduce(x ^ y)
                if v == 1:
                    return True     # contradictory hypotheses: dead path
                if v:
                    rows[v.bit_length()] = v
        return all(reduce(v) == 0 for v in want)
