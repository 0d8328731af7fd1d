"""Deductive VC generator: symbolic execution of LLVM IR functions with contracts,
loop invariants and ghost state.  Every obligation is discharged by z3 / cvc5 for all
inputs (bit-precise machine integers, unbounded memory and iteration counts)."""
import os
import subprocess
import tempfile
import time
import itertools
import z3
from . import ir

z3.set_param('memory_max_size', 6000)
BV64 = z3.BitVecSort(64)
_ctr = itertools.count()


class Abort(Exception):
    """extraction or annotation could not be attached: nothing is decided"""


class NotFound(Abort):
    pass


class Timeout(Abort):
    pass


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def fresh(name, w=64):
    n = '%s!%d' % (name, next(_ctr))
    if w == 'int':
        return z3.Int(n)
    if w == 1:
        return z3.Bool(n)
    return z3.BitVec(n, w)


def S(e):
    return z3.simplify(e)


def cval(e):
    """python int for a constant term else None"""
    if isinstance(e, Sc):
        return None
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return None


def And(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    xs = [z3.BoolVal(x) if isinstance(x, bool) else x for x in xs]
    if not xs:
        return z3.BoolVal(True)
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    xs = [z3.BoolVal(x) if isinstance(x, bool) else x for x in xs]
    if not xs:
        return z3.BoolVal(False)
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def Not(x):
    return z3.BoolVal(not x) if isinstance(x, bool) else z3.Not(x)


def Imp(a, b):
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.Implies(a, b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or (hasattr(a, 'eq') and a.eq(b)):
        return a
    return z3.If(c, a, b)


ULT, ULE, UGT, UGE = z3.ULT, z3.ULE, z3.UGT, z3.UGE


def havoc_fn(name, v):
    for x in (bv(0), z3.IntVal(0)):
        try:
            return z3.Function(name, x.sort(), v(x).sort())
        except z3.Z3Exception:
            pass
    raise Abort('ghost function of unknown sort')


class Forall:
    """for all x1..xn : fn(x1..xn).  doms[i] = set of term-domain names whose terms
    instantiate xi when this is a hypothesis; as a goal it is skolemised."""

    def __init__(self, doms, fn, widths=None, label='', seeds=None):
        self.seeds = seeds      # seeds(st, *skolems): further terms to instantiate with, as a goal
        if isinstance(doms, str):
            doms = [doms]
        self.doms = [set(d.split('|')) for d in doms]
        self.fn = fn
        self.widths = widths or [64] * len(self.doms)
        self.label = label
        self.cache = {}


# ---------------------------------------------------------------- maps
class Arr:
    """total map from key tuples to bit-vectors, as a chain of updates"""
    __slots__ = ('w', 'memo')

    def __init__(self, w):
        self.w = w
        self.memo = {}

    def sel(self, *k):
        kk = tuple(x.get_id() for x in k)
        r = self.memo.get(kk)
        if r is None:
            v = self._sel(k)
            self.memo[kk] = (v, k)
            return v
        return r[0]


class Base(Arr):
    __slots__ = ('f', 'name')

    def __init__(self, name, w, nk=1, kw=64):
        super().__init__(w)
        self.name = '%s!%d' % (name, next(_ctr))
        self.f = z3.Function(self.name, *([z3.BitVecSort(kw)] * nk + [z3.BitVecSort(w)]))

    def _sel(self, k):
        return self.f(*k)


class FnArr(Arr):
    """map given by a python function on terms"""
    __slots__ = ('fn',)

    def __init__(self, fn, w):
        super().__init__(w)
        self.fn = fn

    def _sel(self, k):
        return self.fn(*k)


class Store(Arr):
    __slots__ = ('p', 'k', 'v')

    def __init__(self, p, k, v):
        super().__init__(p.w)
        self.p, self.k, self.v = p, k, v

    def _sel(self, k):
        c = S(And([a == b for a, b in zip(k, self.k)]))
        if z3.is_true(c):
            return self.v
        if z3.is_false(c):
            return self.p.sel(*k)
        return If(c, self.v, self.p.sel(*k))


class Fill(Arr):
    """[lo, lo+n) := v"""
    __slots__ = ('p', 'lo', 'n', 'v')

    def __init__(self, p, lo, n, v):
        super().__init__(p.w)
        self.p, self.lo, self.n, self.v = p, lo, n, v

    def _sel(self, k):
        c = S(ULT(k[0] - self.lo, self.n))
        if z3.is_true(c):
            return self.v
        if z3.is_false(c):
            return self.p.sel(*k)
        return If(c, self.v, self.p.sel(*k))


class Copy(Arr):
    """[lo, lo+n) := src[slo ..)"""
    __slots__ = ('p', 'lo', 'n', 'src', 'slo')

    def __init__(self, p, lo, n, src, slo):
        super().__init__(p.w)
        self.p, self.lo, self.n, self.src, self.slo = p, lo, n, src, slo

    def _sel(self, k):
        c = S(ULT(k[0] - self.lo, self.n))
        if z3.is_false(c):
            return self.p.sel(*k)
        s = self.src.sel(S(k[0] - self.lo + self.slo))
        if z3.is_true(c):
            return s
        return If(c, s, self.p.sel(*k))


class IteArr(Arr):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        super().__init__(a.w)
        self.c, self.a, self.b = c, a, b

    def _sel(self, k):
        return If(self.c, self.a.sel(*k), self.b.sel(*k))


class Region:
    def __init__(self, kind, name, size, elem=1, const=False):
        self.id = next(_ctr)
        self.kind, self.name, self.size, self.elem, self.const = kind, name, size, elem, const
        self.addr = z3.BitVec('&%s!%d' % (name, self.id), 64)
        self.local = False
        self.dom = name
        self.cells_types = None

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)

    @property
    def len(self):
        return self.size


class Ptr:
    """reg given: off (bytes, cells) or idx/sub (arr).  reg None: absolute address off."""
    __slots__ = ('reg', 'off', 'idx', 'sub', 'tag', 'base', 'aidx')

    def __init__(self, reg, off=None, idx=None, sub=0, tag=None, base=None, aidx=None):
        self.reg = reg
        if reg is not None and reg.kind == 'arr':
            self.idx = bv(0) if idx is None else idx
            self.sub = sub
            self.off = None
        else:
            self.off = bv(0) if off is None else off
            self.idx = None
            self.sub = 0
        self.tag, self.base, self.aidx = tag, base, aidx

    def offset(self):
        if self.off is not None:
            return self.off
        o = self.idx
        if not isinstance(self.reg.elem, int):
            o = o * self.reg.elem
        elif self.reg.elem != 1:
            o = o * bv(self.reg.elem)
        if self.sub:
            o = o + bv(self.sub)
        return S(o)

    def term(self):
        if self.reg is None:
            return self.off
        return S(self.reg.addr + self.offset())

    def __repr__(self):
        if self.reg is None:
            return 'raw(%s)' % (self.off,)
        return 'ptr(%s+%s)' % (self.reg.name, self.offset())


NULL = Ptr(None, bv(0))


class Fn:
    def __init__(self, name, handler=None, mod=None):
        self.name, self.handler, self.mod = name, handler, mod

    def term(self):
        return z3.BitVec('&fn.' + self.name, 64)

    def __repr__(self):
        return 'fn(%s)' % self.name


class Sc:
    """the integer q*e for the task's symbolic element size e (no wrap: q <= cap is an
    obligation at every introduction and cap*e < 2^63 is the task's precondition)"""
    __slots__ = ('q', 'e')

    def __init__(self, q, e):
        self.q, self.e = q, e

    def term(self):
        return self.q * self.e

    def size(self):
        return 64

    def __repr__(self):
        return 'Sc(%s)' % self.q


def scq(v):
    if isinstance(v, Sc):
        return v.q
    if cval(v) == 0:
        return bv(0)
    return None


def term(v):
    """bit-vector view of any first class value"""
    if isinstance(v, (Ptr, Fn, Sc)):
        return v.term()
    return v


class Frame:
    __slots__ = ('fn', 'mod', 'regs', 'allocas', 'block', 'pc', 'prev', 'retdst', 'loopctx', 'unroll', 'id', 'site')

    def copy(self):
        f = Frame()
        f.fn, f.mod, f.allocas, f.block, f.pc, f.prev, f.retdst = self.fn, self.mod, self.allocas, self.block, self.pc, self.prev, self.retdst
        f.regs = dict(self.regs)
        f.allocas = dict(self.allocas)
        f.loopctx = dict(self.loopctx)
        f.unroll = dict(self.unroll)
        f.id = self.id
        f.site = self.site
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.maps = {}
        self.pc = []
        self.foralls = []
        self.terms = {}
        self.ghost = {}
        self.freed = frozenset()
        self.writes = None      # set while in a dry run
        self.trace = ()
        self.dead = False

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.maps = dict(self.maps)
        s.pc = list(self.pc)
        s.foralls = list(self.foralls)
        s.terms = {k: dict(v) for k, v in self.terms.items()}
        s.ghost = dict(self.ghost)
        s.freed = self.freed
        s.writes = self.writes
        s.trace = self.trace
        return s

    # ---- facts
    def assume(self, *cs):
        for c in cs:
            if isinstance(c, Forall):
                self.foralls.append(c)
            elif isinstance(c, (list, tuple)):
                self.assume(*c)
            elif isinstance(c, bool):
                if not c:
                    self.pc.append(z3.BoolVal(False))
            elif c is not None:
                if not z3.is_true(c):
                    self.pc.append(c)

    def hint(self, dom, *ts):
        d = self.terms.setdefault(dom, {})
        for t in ts:
            d.setdefault(t.get_id(), t)

    @property
    def fr(self):
        return self.frames[-1]


class LoopSpec:
    def __init__(self, inv=None, ghosts=(), on_back=None, decreases=None, names=(), shape=None, extra_havoc=(), on_entry=None, keep=()):
        self.inv, self.ghosts, self.on_back, self.decreases = inv, ghosts, on_back, decreases
        self.names, self.shape, self.extra_havoc = names, shape, extra_havoc
        self.on_entry = on_entry
        self.keep = keep
        # one of several exhaustive cases of the iteration: each is a task of its own
        self.case = None
        self.used = 0


class L:
    """view on a frame's named locals"""

    def __init__(self, ex, st, frame=None):
        self.__dict__.update(ex=ex, st=st, frame=frame or st.frames[-1])

    def __getitem__(self, name):
        for cand in (name, name + '.addr'):
            p = self.frame.allocas.get(cand)
            if p is not None:
                c = self.st.mem[p.id]
                if isinstance(c, Arr):
                    return c
                ent = c.get(0)
                if ent is None:
                    raise AnnotationUninit(name)
                return ent[1]
        if name in ('entry', 'retval'):
            # clang renames a local that collides with the entry block's label or the return slot
            for k in self.frame.allocas:
                if k.startswith(name) and k[len(name):].isdigit():
                    return self[k]
        if name in self.frame.regs:
            # likewise a local that collides with the name of an instruction
            r = [k for k in self.frame.allocas if k.startswith(name) and k[len(name):].isdigit()]
            return self[r[0]] if len(r) == 1 else self.frame.regs[name]
        raise NotFound('local %s not in %s' % (name, self.frame.fn.name))

    def __getattr__(self, name):
        v = self[name]
        return v

    def has(self, name):
        return name in self.frame.allocas or name + '.addr' in self.frame.allocas

    def t(self, name):
        return term(self[name])

    def region(self, name):
        for cand in (name, name + '.addr'):
            if cand in self.frame.allocas:
                return self.frame.allocas[cand]
        raise NotFound(name)


class AnnotationUninit(NotFound):
    pass


class Ob:
    __slots__ = ('label', 'status', 'backend', 'time', 'model', 'detail', 'where')

    def __init__(self, label):
        self.label = label
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.detail = ''
        self.where = ''


class StopTask(Exception):
    pass


class Ex:
    def __init__(self, mods, task='', timeout=20, merge=False, ub=True, deadline=None):
        """mods: list of ir.Module, first is primary"""
        self.mods = mods
        self.task = task
        self.obs = []
        self.timeout = timeout
        self.contracts = {}
        self.loops = {}
        self.merge = merge
        self.ub = ub
        self.exits = 0
        self.covered = False
        self.inputs = {}
        self.tag_alias = {}
        self.dom_types = {}
        self.map_dom = {}
        self.valid = None
        self.resolve_untagged = None
        self.global_regions = {}
        self.addr_regions = {}
        self.fn_terms = {}
        self.funcs_seen = set()
        self.assumed = set()
        self.loops_seen = set()
        self.havoc_cache = {}
        self.unroll_bound = 1200
        self.on_exit = None
        self.max_fail = 3
        self.nfail = 0
        self.dry = 0
        self.solver_time = 0.0
        self.deadline = deadline
        self.npaths = 0
        self.fallback_used = []
        self.global_facts = []
        self.mul_seen = {}
        self.late_facts = []
        self.uninit_check = True
        self.trusted_calls = set()
        self.free_checks = True
        install_builtins(self)

    # ------------------------------------------------------------ lookup
    def find_fn(self, name, mod):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name], mod
        for m in self.mods:
            if name in m.funcs:
                return m.funcs[name], m
        raise NotFound('function %s' % name)

    def function(self, name):
        f, m = self.find_fn(name, self.mods[0])
        return f

    # ------------------------------------------------------------ regions
    def region(self, st, kind, name, size, elem=1, content=None, w=None, const=False, align=None):
        r = Region(kind, name, size, elem, const)
        if kind == 'arr':
            if isinstance(size, int):
                r.size = bv(size)
            st.mem[r.id] = content if content is not None else Base(name, w or (elem * 8 if isinstance(elem, int) else 64))
        else:
            st.mem[r.id] = dict(content) if content else {}
        self.addr_regions[r.addr.get_id()] = r
        if kind != 'cells' or not getattr(self, '_quiet_addr', False):
            st.assume(r.addr != 0)
        if align:
            st.assume(r.addr & bv(align - 1) == 0)
        return r

    def struct_region(self, st, mod, sname, name=None, vals=None, symbolic=True, const=False):
        """cells region for struct sname; every scalar leaf symbolic unless given by offset/field"""
        t = ('named', sname)
        r = self.region(st, 'cells', name or sname, mod.size(t), const=const)
        c = {}
        for off, ty, _, _ in mod.fields(t):
            n = mod.size(ty)
            v = None
            if symbolic:
                if ty[0] == 'ptr':
                    v = Ptr(None, fresh('%s.%d' % (r.name, off)))
                else:
                    v = fresh('%s.%d' % (r.name, off), n * 8)
                c[off] = (n, v)
        for k, v in (vals or {}).items():
            if isinstance(v, (Ptr, Fn)):
                c[k] = (8, v)
            else:
                c[k] = (v.size() // 8, v)
        st.mem[r.id] = c
        return r

    def cells_get(self, st, r, off):
        return st.mem[r.id][off][1]

    def content(self, st, r):
        return st.mem[r.id]

    # ------------------------------------------------------------ solving
    def hyps(self, st, extra_terms=None):
        hs = list(self.global_facts) + list(st.pc)
        for f in st.foralls:
            sets = []
            for d in f.doms:
                ts = {}
                for dn in d:
                    ts.update(st.terms.get(dn, {}))
                    if extra_terms:
                        ts.update(extra_terms.get(dn, {}))
                sets.append(list(ts.values()))
            for combo in itertools.product(*sets):
                ok = True
                for t, w in zip(combo, f.widths):
                    if (t.size() if z3.is_bv(t) else 'int') != w:
                        ok = False
                if not ok:
                    continue
                key = tuple(t.get_id() for t in combo)
                inst = f.cache.get(key)
                if inst is None:
                    r = f.fn(*combo)
                    if isinstance(r, (list, tuple)):
                        r = And(list(r))
                    if isinstance(r, bool):
                        r = z3.BoolVal(r)
                    inst = (r, combo)
                    f.cache[key] = inst
                if not z3.is_true(inst[0]):
                    hs.append(inst[0])
        return hs

    def feasible(self, st, cond=None, timeout=1500):
        if self.ints:
            from . import b2i
            try:
                H, G, _ = b2i.translate(list(self.global_facts) + list(st.pc), z3.BoolVal(True) if cond is None else cond, self.b2i())
            except b2i.Skip:
                return True
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*H)
            s.add(G)
            return s.check() != z3.unsat
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*self.global_facts)
        s.add(*st.pc)
        if cond is not None:
            s.add(cond)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def feasible_full(self, st, timeout=3000):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*self.hyps(st))
        return s.check() != z3.unsat

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Timeout('task budget exhausted')

    def prove(self, st, goal, label, hints=None):
        """record and discharge one obligation"""
        if self.dry:
            return True
        if isinstance(goal, Forall):
            sk = [fresh('sk.' + '.'.join(sorted(d))[:20], w) for d, w in zip(goal.doms, goal.widths)]
            st2 = st.copy()
            for s_, d in zip(sk, goal.doms):
                for dn in d:
                    st2.hint(dn, s_)
            if goal.seeds:
                goal.seeds(st2, *sk)
            r = goal.fn(*sk)
            if isinstance(r, (list, tuple)):
                r = And(list(r))
            self.goal_doms = frozenset(x for d in goal.doms for x in d)
            try:
                return self.prove(st2, r, label + (goal.label and '.' + goal.label))
            finally:
                self.goal_doms = None
        if isinstance(goal, (list, tuple)):
            ok = True
            for i, g in enumerate(goal):
                if isinstance(g, tuple) and len(g) == 2 and isinstance(g[0], str):
                    ok &= self.prove(st, g[1], label + '.' + g[0])
                else:
                    ok &= self.prove(st, g, '%s.%d' % (label, i))
            return ok
        self.check_deadline()
        ob = Ob(label)
        ob.where = st.frames[-1].fn.name if st.frames else ''
        self.obs.append(ob)
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = S(goal)
        if z3.is_true(g):
            ob.status, ob.backend = 'ok', 'simplifier'
            return True
        hs = self.hyps(st)
        if self.slice and self.goal_doms:
            # fewer hypotheses first: only what is known about this domain
            fs = st.foralls
            st.foralls = [f for f in fs if all(set(d) <= self.goal_doms for d in f.doms)]
            h2 = self.hyps(st)
            st.foralls = fs
            s = z3.Solver()
            s.set('timeout', self.slice)
            s.add(*h2)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                ob.status, ob.backend, ob.time = 'ok', 'z3 (sliced)', time.time() - t0
                self.solver_time += ob.time
                return True
        if self.gf2:
            from .gf2 import Gf2
            if Gf2(getattr(self, 'tables', {})).prove(hs, goal):
                ob.status, ob.backend, ob.time = 'ok', 'gf2', time.time() - t0
                self.solver_time += ob.time
                return True
        self.solve(ob, hs, g, st)
        if self.late_facts and ob.status == 'fail':
            self.solve(ob, hs + self.late_facts, g, st)
        ob.time = time.time() - t0
        self.solver_time += ob.time
        if ob.status != 'ok':
            self.nfail += 1
            ob.detail = '%s | path %s' % (ob.detail, '>'.join(st.trace[-12:]))
            if os.environ.get('VCG_DEBUG'):
                print('FAIL', self.task, label, ob.status, ob.detail)
                if ob.model and os.environ.get('VCG_DEBUG') == '2':
                    print(ob.model)
            if self.nfail >= self.max_fail:
                raise StopTask()
        return ob.status == 'ok'

    splits = None
    gf2 = False
    slice = 0
    goal_doms = None
    pipeline = True

    def pipe(self, hs, ng, timeout):
        """bit-blasting pipeline for quantifier-free bit-vector obligations"""
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat')
        s = t.solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*hs)
        s.add(ng)
        try:
            r = s.check()
        except z3.Z3Exception:
            return z3.unknown
        return r

    ints = False
    int_timeout = 20
    int_wraps = False

    def solve_int(self, ob, hs, g, st):
        """the obligation over the integers (see b2i.py); only a proof counts"""
        from . import b2i
        conj = g.children() if z3.is_and(g) else [g]
        backends = set()
        for c in conj:
            try:
                H, G, b = b2i.translate(hs, c, self.b2i())
            except b2i.Skip as e:
                ob.detail = 'no integer form: %s' % e
                return False
            s = z3.SolverFor('QF_LIA')
            s.set('timeout', int(self.int_timeout * 300))
            s.add(*b.lin(H + [z3.Not(G)]))
            if s.check() == z3.unsat:
                continue
            if self.int_wraps:
                H, G = b2i.resolve_wraps(H, G, b)
                s = z3.SolverFor('QF_LIA')
                s.set('timeout', int(self.int_timeout * 300))
                s.add(*b.lin(H + [z3.Not(G)]))
                if s.check() == z3.unsat:
                    continue
            s = z3.Solver()
            s.set('timeout', int(self.int_timeout * 150))
            s.add(*H)
            s.add(z3.Not(G))
            r = s.check()
            if r == z3.unknown:
                if cvc5_check(s.to_smt2(), self.int_timeout) == 'unsat':
                    backends.add('cvc5')
                    continue
                s.set('timeout', int(self.int_timeout * 1000))
                r = s.check()
            if r != z3.unsat:
                if os.environ.get('VCG_DUMP'):
                    open('%s/int%d.smt2' % (os.environ['VCG_DUMP'], next(_ctr)), 'w').write(s.to_smt2())
                return False
        ob.status, ob.backend = 'ok', ('cvc5' if backends else 'z3') + ' (integers)'
        return True

    gep_hook = None     # (state, pointer, byte distance) -> pointer: blocks made of several parts
    _b2i = None

    def b2i(self):
        from . import b2i
        if self._b2i is None:
            self._b2i = b2i.B2I()
        return self._b2i

    def solve(self, ob, hs, g, st):
        if self.ints and self.solve_int(ob, hs, g, st):
            return
        if (self.abstract_div or self.abstract_shift) and self.solve_nodiv(ob, hs, g):
            return
        return self.solve_bv(ob, hs, g, st)

    abstract_div = abstract_shift = False
    SHIFTS = (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR)
    DIVS = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I)

    def solve_nodiv(self, ob, hs, g):
        """the obligation with every division (or variable shift) result arbitrary (stronger, so only a proof counts)"""
        memo = {}
        found = []

        def rw(t):
            k = t.get_id()
            if k in memo:
                return memo[k][0]
            if not z3.is_app(t) or t.num_args() == 0:
                r = t
            else:
                c = [rw(x) for x in t.children()]
                kd = t.decl().kind()
                if self.abstract_div and kd in self.DIVS or self.abstract_shift and kd in self.SHIFTS and not z3.is_bv_value(c[1]):
                    found.append(1)
                    f = z3.Function('quot.%d.%d' % (t.decl().kind(), t.size()), c[0].sort(), c[1].sort(), t.sort())
                    r = f(*c)
                elif all(x is y or x.eq(y) for x, y in zip(c, t.children())):
                    r = t
                else:
                    n = t.decl().kind()
                    r = z3.And(c) if n == z3.Z3_OP_AND else z3.Or(c) if n == z3.Z3_OP_OR else t.decl()(*c)
            memo[k] = (r, t)
            return r
        hs = [rw(S(h)) for h in hs]
        g = rw(S(g))
        if not found:
            return False
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*hs)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unknown:
            r = self.pipe(hs, z3.Not(g), 10)
        if r != z3.unsat:
            if os.environ.get('VCG_DUMP'):
                open('%s/abs%d.smt2' % (os.environ['VCG_DUMP'], next(_ctr)), 'w').write(s.to_smt2())
            return False
        ob.status, ob.backend = 'ok', 'z3 (%s abstracted)' % ('division' if self.abstract_div else 'shifts')
        return True

    def solve_bv(self, ob, hs, g, st):
        """cases: a user-declared exhaustive split; its exhaustiveness is itself proved"""
        if self.splits:
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*hs)
            s.add(z3.Not(g))
            r = s.check()
            if r == z3.unsat:
                ob.status, ob.backend = 'ok', 'z3'
                return
            if r == z3.unknown:
                cases = self.splits
                self.splits = None
                try:
                    self.solve(ob, hs, Or([c for c in cases]), st)
                    if ob.status == 'ok':
                        for c in cases:
                            self.check_deadline()
                            self.solve(ob, hs + [c], g, st)
                            if ob.status != 'ok':
                                break
                        else:
                            ob.backend = 'z3 (case split)'
                finally:
                    self.splits = cases
                return
        ng = z3.Not(g)
        if self.pipeline:
            s = z3.Solver()
            s.set('timeout', 700)
            s.add(*hs)
            s.add(ng)
            r = s.check()
            if r == z3.unsat:
                ob.status, ob.backend = 'ok', 'z3'
                return
            if r == z3.unknown:
                if self.pipe(hs, ng, self.timeout) == z3.unsat:
                    ob.status, ob.backend = 'ok', 'z3 (bit-blast)'
                    return
        s = z3.Solver()
        s.set('timeout', int(self.timeout * 1000))
        s.add(*hs)
        s.add(ng)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        if os.environ.get('VCG_DUMP') and time.time() - t0 > 3:
            open('%s/slow%d.smt2' % (os.environ['VCG_DUMP'], next(_ctr)), 'w').write(s.to_smt2())
        if r == z3.unsat:
            ob.status, ob.backend = 'ok', 'z3'
            return
        if r == z3.sat:
            ob.status, ob.backend = 'fail', 'z3'
            m = s.model()
            ob.model = {}
            for k, v in self.inputs.items():
                try:
                    ob.model[k] = str(m.eval(v, model_completion=True))
                except z3.Z3Exception:
                    pass
            if os.environ.get('VCG_DEBUG') == '3':
                print(m)
            return
        smt = s.to_smt2()
        if os.environ.get('VCG_DUMP'):
            open('%s/%d.smt2' % (os.environ['VCG_DUMP'], next(_ctr)), 'w').write(smt)
        r = cvc5_check(smt, self.timeout * 2)
        if r == 'unsat':
            ob.status, ob.backend = 'ok', 'cvc5'
            return
        if r == 'sat':
            ob.status, ob.backend = 'fail', 'cvc5'
            return
        ob.status, ob.backend = 'unknown', 'z3+cvc5'

    # ------------------------------------------------------------ operands
    def operand(self, st, v, ty):
        k = v[0]
        if k == 'v':
            try:
                return st.fr.regs[v[1]]
            except KeyError:
                raise Abort('undefined register %s in %s' % (v[1], st.fr.fn.name))
        if k == 'c':
            w = v[1][1]
            if w == 1:
                return z3.BoolVal(bool(v[2] & 1))
            return bv(v[2], w)
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1], st.fr.mod)
        if k == 'undef':
            return self.undef(st.fr.mod, ty)
        if k == 'zero':
            return self.zero(st.fr.mod, ty)
        if k == 'gep':
            base = self.operand(st, v[2][0][1], ('ptr',))
            return self.gep(st, base, v[1], [(t, self.operand(st, o, t)) for t, o in v[2][1:]], v[2][1:])
        if k == 'cast':
            return self.cast(st, v[1], v[2], self.operand(st, v[3], v[2]), v[4])
        if k == 'cbin':
            return self.binop(st, v[1], v[2], self.operand(st, v[3], v[2]), self.operand(st, v[4], v[2]), set(), '')
        if k == 'agg':
            return [self.operand(st, x, t) for t, x in v[1]]
        raise Abort('operand %r' % (v,))

    def undef(self, mod, ty):
        ty = mod.resolve(ty)
        if ty[0] == 'i':
            return fresh('undef', ty[1])
        if ty[0] == 'ptr':
            return Ptr(None, fresh('undefp'))
        if ty[0] == 'struct':
            return [self.undef(mod, t) for t in ty[2]]
        raise Abort('undef %r' % (ty,))

    def zero(self, mod, ty):
        ty = mod.resolve(ty)
        if ty[0] == 'i':
            return z3.BoolVal(False) if ty[1] == 1 else bv(0, ty[1])
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'struct':
            return [self.zero(mod, t) for t in ty[2]]
        if ty[0] == 'arr':
            return [self.zero(mod, ty[2]) for _ in range(ty[1])]
        raise Abort('zero %r' % (ty,))

    def global_ptr(self, st, name, mod):
        if name in mod.funcs or name in mod.decls:
            return Fn(name, mod=mod)
        key = (id(mod), name)
        # non-static globals may live in another module
        ent = mod.globals.get(name)
        dm = mod
        if ent is None or ent[1] is None:
            for m in self.mods:
                e2 = m.globals.get(name)
                if e2 is not None and e2[1] is not None:
                    ent, dm = e2, m
                    key = (id(m), name)
                    break
        if ent is None:
            raise NotFound('global ' + name)
        if key in self.global_regions:
            r, content = self.global_regions[key]
        else:
            r, content = self.make_global(st, name, ent, dm)
            self.global_regions[key] = (r, content)
            self.addr_regions[r.addr.get_id()] = r
            self.global_facts.append(r.addr != 0)
        if r.id not in st.mem:
            st.mem[r.id] = content
        return Ptr(r, bv(0))

    def make_global(self, st, name, ent, mod):
        ty, init, const = ent
        rt = mod.resolve(ty)
        if rt[0] == 'arr':
            et = mod.resolve(rt[2])
            if const and et[0] == 'arr' and init is not None and init[0] == 'agg' and mod.resolve(et[2])[0] == 'i':
                # a constant matrix is one flat table
                w = mod.size(et[2]) * 8
                vals = []
                for _, row in init[1]:
                    if row[0] == 'zero':
                        vals += [0] * et[1]
                    elif row[0] == 'str':
                        vals += list(row[1])
                    else:
                        vals += [x[2] & ((1 << w) - 1) for _, x in row[1]]
                r = Region('arr', name, bv(len(vals)), w // 8, const)
                return r, self.table(name, vals, w)
            if et[0] == 'i':
                vals = None
                w = mod.size(et) * 8
                if init is not None and init[0] == 'str':
                    vals = list(init[1])
                elif init is not None and init[0] == 'agg':
                    vals = []
                    for t, x in init[1]:
                        if x[0] != 'c':
                            vals = None
                            break
                        vals.append(x[2] & ((1 << w) - 1))
                elif init is not None and init[0] == 'zero':
                    vals = [0] * rt[1]
                if vals is None and const:
                    raise Abort('global init %s' % name)
                r = Region('arr', name, bv(rt[1]), w // 8, const)
                if const:
                    return r, self.table(name, vals, w)
                return r, Base(name, w)
        r = Region('cells', name, mod.size(ty), const=const)
        c = {}
        if init is not None and const:
            self.flatten_init(st, mod, ty, init, 0, c)
        else:
            for off, t, _, _ in mod.fields(ty):
                n = mod.size(t)
                c[off] = (n, Ptr(None, fresh(name + '.%d' % off)) if t[0] == 'ptr' else fresh(name + '.%d' % off, n * 8))
        return r, c

    def table(self, name, vals, w):
        n = len(vals)
        f = z3.Function('tab.' + name, BV64, z3.BitVecSort(w))
        state = {'facts': False}
        facts = self.global_facts

        def sel(k):
            c = cval(k)
            if c is not None:
                return bv(vals[c], w) if c < n else fresh('oob', w)
            if not state['facts']:
                state['facts'] = True
                for i, x in enumerate(vals):
                    (self.late_facts if self.gf2 else facts).append(f(bv(i)) == bv(x, w))
            return f(k)
        a = FnArr(sel, w)
        a_vals = vals
        self.tables = getattr(self, 'tables', {})
        self.tables[name] = (f, a_vals, a)
        return a

    def flatten_init(self, st, mod, ty, init, off, c):
        rt = mod.resolve(ty)
        if init[0] == 'zero':
            for o, t, _, _ in mod.fields(ty):
                n = mod.size(t)
                c[off + o] = (n, NULL if t[0] == 'ptr' else bv(0, n * 8))
            return
        if rt[0] == 'struct':
            for i, (t, x) in enumerate(init[1]):
                self.flatten_init(st, mod, t, x, off + mod.offset(rt, i), c)
            return
        if rt[0] == 'arr':
            if init[0] == 'str':
                for i, b in enumerate(init[1]):
                    c[off + i] = (1, bv(b, 8))
                return
            es = mod.size(rt[2])
            for i, (t, x) in enumerate(init[1]):
                self.flatten_init(st, mod, t, x, off + i * es, c)
            return
        n = mod.size(rt)
        f = Frame()
        f.mod = mod
        f.regs = {}
        st2 = State()
        st2.mem = st.mem
        st2.frames = [f]
        v = self.operand(st2, init, rt)
        if not isinstance(v, (Ptr, Fn)) and z3.is_bool(v):
            v = bv(int(z3.is_true(v)), 8)
        c[off] = (n, v)

    # ------------------------------------------------------------ pointers
    def norm(self, p):
        """raw address that is &region + const -> region pointer"""
        if p.reg is not None or p.tag is not None:
            return p
        e = p.off
        if z3.is_bv_value(e):
            return p
        r = self.addr_regions.get(e.get_id())
        if r is not None:
            return Ptr(r)
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            args = []
            stack = [e]
            while stack:
                x = stack.pop()
                if z3.is_app_of(x, z3.Z3_OP_BADD):
                    stack += list(x.children())
                else:
                    args.append(x)
            for i, a in enumerate(args):
                r = self.addr_regions.get(a.get_id())
                if r is not None:
                    rest = bv(0)
                    for j, b in enumerate(args):
                        if j != i:
                            rest = rest + b
                    rest = S(rest)
                    return self.ptr_add(Ptr(r), rest)
        return p

    def ptr_add(self, p, delta):
        """delta bytes (term)"""
        if isinstance(delta, Sc):
            if p.reg is not None and p.reg.kind == 'arr' and z3.is_expr(p.reg.elem) and p.reg.elem.eq(delta.e):
                return Ptr(p.reg, idx=S(p.idx + delta.q), sub=p.sub)
            delta = delta.term()
        if p.reg is None:
            return Ptr(None, S(p.off + delta))
        if p.reg.kind == 'arr':
            E = p.reg.elem
            if E == 1:
                return Ptr(p.reg, idx=S(p.idx + delta), sub=0)
            c = cval(delta)
            if c is not None:
                if c >= 1 << 63:
                    c -= 1 << 64
                s = p.sub + c
                return Ptr(p.reg, idx=S(p.idx + bv(s // E)), sub=s % E)
            q = S(delta)
            # delta = E * k ?
            k = divide_term(q, E)
            if k is not None:
                return Ptr(p.reg, idx=S(p.idx + k), sub=p.sub)
            raise Abort('byte arithmetic on %d-byte elements: %s' % (E, q))
        return Ptr(p.reg, S(p.off + delta))

    def gep(self, st, p, bt, ops, raw_ops):
        mod = st.fr.mod
        if isinstance(p, Fn):
            raise Abort('gep on function')
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        p = self.norm(p)
        cur = bt
        steps = []   # (index term, scale)
        const = 0
        sym = []
        aidx = None
        for i, (t, v) in enumerate(ops):
            w = t[1]
            if i == 0:
                sz = mod.size(cur)
                c = cval(v)
                if c is not None:
                    if c >= 1 << (w - 1):
                        c -= 1 << w
                    const += c * sz
                else:
                    sym.append((v if isinstance(v, Sc) else sext(v, 64), sz))
                continue
            r = mod.resolve(cur)
            if r[0] == 'struct':
                fi = cval(v)
                const += mod.offset(r, fi)
                cur = r[2][fi]
            elif r[0] == 'arr':
                sz = mod.size(r[2])
                c = cval(v)
                if c is not None:
                    if c >= 1 << (w - 1):
                        c -= 1 << w
                    const += c * sz
                    if r[1] and c > r[1] and self.ub:
                        self.prove(st, False, 'array-index(%s)' % st.fr.fn.name)
                else:
                    sym.append((sext(v, 64), sz))
                    if r[1] > 1 and self.ub:
                        self.prove(st, ULE(sext(v, 64), bv(r[1])), 'subscript<=%d(%s)' % (r[1], st.fr.fn.name))
                    aidx = (sext(v, 64), const)
                cur = r[2]
            else:
                raise Abort('gep into %r' % (r,))
        if p.reg is not None and p.reg.kind == 'arr' and not isinstance(p.reg.elem, int):
            idx, sub = p.idx, p.sub + const
            for v, sz in sym:
                if isinstance(v, Sc) and sz == 1 and v.e.eq(p.reg.elem):
                    idx = idx + v.q
                elif z3.is_expr(v) and sz == 1 and z3.is_app(v) and v.decl().eq(self.mulE):
                    idx = idx + v.arg(0)
                elif z3.is_expr(v) and sz == 1 and v.eq(p.reg.elem):
                    idx = idx + bv(1)
                elif z3.is_expr(v) and sz == 1 and S(-v).eq(p.reg.elem):
                    idx = idx - bv(1)
                else:
                    raise Abort('pointer arithmetic %s*%s on strided region %s' % (v, sz, p.reg.name))
            return Ptr(p.reg, idx=S(idx), sub=sub)
        if p.reg is not None and p.reg.kind == 'arr':
            E = p.reg.elem
            idx, sub = p.idx, p.sub + const
            for v, sz in sym:
                if sz % E == 0:
                    idx = idx + (v * bv(sz // E) if sz != E else v)
                else:
                    k = divide_term(S(v * bv(sz)), E)
                    if k is None and self.gep_hook is not None and len(sym) == 1 and const == 0:
                        q = self.gep_hook(st, p, S(v * bv(sz)))
                        if q is not None:
                            return q
                    if k is None:
                        raise Abort('gep scale %d on %d-byte elements (%s)' % (sz, E, p.reg.name))
                    idx = idx + k
            idx = idx + bv(sub // E)
            return Ptr(p.reg, idx=S(idx), sub=sub % E)
        if p.reg is not None:
            off = p.off + bv(const)
            for v, sz in sym:
                off = off + v * bv(sz)
            return Ptr(p.reg, S(off))
        # raw
        off = p.off + bv(const)
        sym = [(term(v), sz) for v, sz in sym]
        for v, sz in sym:
            off = off + v * bv(sz)
        off = S(off)
        q = Ptr(None, off)
        if bt[0] == 'named' and not (len(ops) == 1 and False):
            sname = bt[1].split('.', 1)[1]
            dom = self.dom_types.get(sname)
            base0 = p.off
            if len(ops) >= 1 and ops[0] is not None:
                c0 = cval(ops[0][1])
                if c0 is None or c0 != 0:
                    base0 = None
            if dom is not None and base0 is not None:
                st.hint(dom, base0)
            if base0 is not None and len(ops) > 1:
                self.hook_gep(st, q, bt, const, sym, p, aidx, mod)
        elif p.tag is not None and const == 0 and not sym:
            return p
        elif p.tag is not None and bt[0] in ('ptr', 'i') and len(ops) == 1:
            # indexing an array member whose decayed address carries the tag
            es = mod.size(bt)
            i0 = sext(ops[0][1], 64)
            b = p.aidx if p.aidx is not None else bv(0)
            q = Ptr(None, off, tag=p.tag, base=p.base, aidx=S(b + i0))
        return q

    def hook_gep(self, st, q, bt, const, sym, p, aidx, mod):
        sname = bt[1].split('.', 1)[1]
        if aidx is None and not sym:
            for fo, ft, fs, fso in mod.fields(bt):
                if fo == const:
                    name = (fs or bt[1]).split('.', 1)[1]
                    q.tag = (name, fso)
                    q.base = S(p.off + bv(const - fso))
                    break
            else:
                # array field decayed / zero-length
                q.tag = (sname, const)
                q.base = p.off
            # arrays inside structs get an index component
            r = mod.resolve(bt)
            for i, x in enumerate(r[2]):
                o = mod.offset(r, i)
                rx = mod.resolve(x)
                if rx[0] == 'arr' and o <= const and (const < o + mod.size(rx) or (const == o)):
                    q.tag = (sname, o)
                    q.base = p.off
                    q.aidx = bv((const - o) // max(1, mod.size(rx[2])))
        else:
            if len(sym) == 1 and aidx is not None:
                q.tag = (sname, aidx[1])
                q.base = p.off
                q.aidx = aidx[0]

    def map_of(self, st, p, size, what):
        tag = self.tag_alias.get(p.tag, p.tag)
        name = '%s.%d' % tag
        base = p.base
        key = (base,) if p.aidx is None else (base, p.aidx)
        m = st.maps.get(name)
        if m is None:
            m = Base('H.' + name, size * 8, len(key))
            st.maps[name] = m
            self.init_maps = getattr(self, 'init_maps', {})
            # a map first touched late still denotes the initial heap: share it
            if name in self.init_maps:
                m = self.init_maps[name]
                st.maps[name] = m
            else:
                self.init_maps[name] = m
        if m.w != size * 8:
            raise Abort('access width %d on map %s:%d' % (size * 8, name, m.w))
        return name, key, m

    def getmap(self, st, name, w=64, nk=1):
        m = st.maps.get(name)
        if m is None:
            self.init_maps = getattr(self, 'init_maps', {})
            m = self.init_maps.get(name)
            if m is None:
                m = Base('H.' + name, w, nk)
                self.init_maps[name] = m
            st.maps[name] = m
        return m

    def setmap(self, st, name, m):
        st.maps[name] = m
        if st.writes is not None:
            st.writes.setdefault(('map', name), []).append(None)

    # ------------------------------------------------------------ load / store
    def access_ok(self, st, p, size, what):
        r = p.reg
        if r.id in st.freed and self.free_checks:
            self.prove(st, False, 'use-after-free(%s)%s' % (r.name, what))
        if r.kind == 'arr':
            st.hint(r.dom, p.idx)
            if not self.ub:
                return
            E = r.elem
            n = (p.sub + size + E - 1) // E
            if n == 1:
                self.prove(st, ULT(p.idx, r.size), 'bounds(%s)%s@%s' % (r.name, what, st.fr.fn.name))
            else:
                self.prove(st, And(ULT(p.idx, r.size), UGE(r.size - p.idx, bv(n))), 'bounds(%s)%s@%s' % (r.name, what, st.fr.fn.name))

    def load(self, st, p, ty, what=''):
        mod = st.fr.mod
        ty = mod.resolve(ty)
        if ty[0] == 'struct':
            return [self.load(st, self.ptr_add(p, bv(mod.offset(ty, i))), t, what) for i, t in enumerate(ty[2])]
        if isinstance(p, Fn):
            raise Abort('load from function')
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        p = self.norm(p)
        size = mod.size(ty)
        if ty[0] == 'float':
            raise Abort('float')
        if p.reg is None:
            v = self.raw_load(st, p, size, ty)
        elif p.reg.kind == 'arr':
            self.access_ok(st, p, size, '.load')
            v = self.arr_load(st, p, size)
        else:
            v = self.cells_load(st, p, size, ty)
        if ty[0] == 'ptr':
            if not isinstance(v, (Ptr, Fn)):
                if v.get_id() in self.fn_terms:
                    return self.fn_terms[v.get_id()]
                v = self.norm(Ptr(None, v))
            return v
        if isinstance(v, (Ptr, Fn)):
            v = v.term()
        if isinstance(v, Sc):
            return v
        if ty[1] == 1:
            return z3.Extract(0, 0, v) == 1
        if v.size() > ty[1]:
            v = S(z3.Extract(ty[1] - 1, 0, v))
        return v

    def arr_load(self, st, p, size):
        E = p.reg.elem
        c = st.mem[p.reg.id]
        n = (p.sub + size + E - 1) // E
        parts = []
        for i in range(n):
            k = S(p.idx + bv(i)) if i else p.idx
            if i:
                st.hint(p.reg.dom, k)
            parts.append(c.sel(k))
        if n == 1 and p.sub == 0 and size == E:
            return parts[0]
        v = z3.Concat(*reversed(parts)) if n > 1 else parts[0]
        return S(z3.Extract(p.sub * 8 + size * 8 - 1, p.sub * 8, v))

    def raw_load(self, st, p, size, ty):
        cases = None
        if p.tag is None:
            if self.resolve_untagged is None:
                if z3.is_bv_value(p.off) and p.off.as_long() == 0 or not self.dry:
                    self.prove(st, p.off != 0, 'null-deref@%s' % st.fr.fn.name)
                raise Abort('untagged raw load %s in %s' % (p, st.fr.fn.name))
            p = self.resolve_untagged(st, p, size)
            if isinstance(p, list):
                # [(condition, pointer)...]: the first that holds is what the address denotes
                self.prove(st, z3.Or(*[c for c, _ in p]), 'known link cell')
                v = None
                for c, q in reversed(p):
                    x = self.link_cell(st, c, q, size, ty, 'load')
                    v = x if v is None else If(c, x, v)
                return v
        self.check_valid(st, p, 'load')
        name, key, m = self.map_of(st, p, size, 'load')
        d = self.map_dom.get(name)
        if d:
            st.hint(d, key[0])
        return m.sel(*key)

    def link_cell(self, st, c, q, size, ty, what):
        """content of q, which is only accessed when c holds"""
        if q.reg is not None:
            return term(self.load(st, q, ty))
        c = S(c)
        g = (self.valid(st, q) if self.valid is not None else q.base != 0) if self.ub else None
        if g is not None:
            self.prove(st, Imp(c, g), 'valid-%s(%s.%d)@%s' % (what, q.tag[0], q.tag[1], st.fr.fn.name))
        ub, self.ub = self.ub, False
        try:
            return term(self.raw_load(st, q, size, ty))
        finally:
            self.ub = ub

    def check_valid(self, st, p, what):
        if not self.ub:
            return
        if self.valid is not None:
            g = self.valid(st, p)
        else:
            g = p.base != 0
        if g is not None:
            self.prove(st, g, 'valid-%s(%s.%d)@%s' % (what, p.tag[0], p.tag[1], st.fr.fn.name))

    def cells_load(self, st, p, size, ty):
        r = p.reg
        if r.id in st.freed and self.free_checks:
            self.prove(st, False, 'use-after-free(%s)' % r.name)
        c = st.mem[r.id]
        o = cval(p.off)
        if o is not None:
            e = c.get(o)
            if e is not None and e[0] == size:
                return e[1]
            return self.cells_compose(st, r, c, o, size, ty)
        cands = self.cell_cands(st, p, size)
        v = None
        for o, e in cands:
            x = term(e)
            v = x if v is None else If(p.off == bv(o), x, v)
        return v

    def cell_cands(self, st, p, size):
        """cells an access at a symbolic offset can hit (all same-size cells at
        feasible offsets); obligation that it hits one of them"""
        c = st.mem[p.reg.id]
        base, stride = stride_of(p.off)
        cands = []
        for o in sorted(c):
            sz, e = c[o]
            if sz != size:
                continue
            if stride and (o - base) % stride:
                continue
            cands.append((o, e))
        if not cands:
            raise Abort('symbolic offset in %s' % p.reg.name)
        if self.ub:
            self.prove(st, Or([p.off == bv(o) for o, _ in cands]), 'bounds(%s)@%s' % (p.reg.name, st.fr.fn.name))
        return cands

    def cells_compose(self, st, r, c, o, size, ty):
        # byte-wise assembly
        parts = []
        i = 0
        while i < size:
            found = None
            for back in range(0, 16):
                e = c.get(o + i - back)
                if e is not None and e[0] > back:
                    found = (back, e)
                    break
            if found is None:
                if isinstance(r.size, int) and (o < 0 or o + size > r.size):
                    self.prove(st, False, 'bounds(%s)@%s' % (r.name, st.fr.fn.name))
                elif self.uninit_check:
                    self.prove(st, False, 'uninitialised(%s+%d)@%s' % (r.name, o, st.fr.fn.name))
                w = size * 8
                return Ptr(None, fresh('uninit')) if ty[0] == 'ptr' else fresh('uninit', w)
            back, e = found
            x = term(e[1])
            parts.append(z3.Extract(back * 8 + 7, back * 8, x))
            i += 1
        return S(z3.Concat(*reversed(parts))) if len(parts) > 1 else S(parts[0])

    def store(self, st, p, v, ty, what=''):
        mod = st.fr.mod
        ty = mod.resolve(ty)
        if ty[0] == 'struct':
            for i, t in enumerate(ty[2]):
                self.store(st, self.ptr_add(p, bv(mod.offset(ty, i))), v[i], t, what)
            return
        if isinstance(p, Fn):
            raise Abort('store to function')
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        p = self.norm(p)
        size = mod.size(ty)
        if not isinstance(v, (Ptr, Fn, Sc)):
            if z3.is_bool(v):
                v = If(v, bv(1, 8), bv(0, 8))
            elif v.size() < size * 8:
                v = z3.ZeroExt(size * 8 - v.size(), v)
        if p.reg is None:
            if p.tag is None:
                if self.resolve_untagged is None:
                    self.prove(st, p.off != 0, 'null-deref@%s' % st.fr.fn.name)
                    raise Abort('untagged raw store %s in %s' % (p, st.fr.fn.name))
                p = self.resolve_untagged(st, p, size)
                if isinstance(p, list):
                    self.prove(st, z3.Or(*[c for c, _ in p]), 'known link cell')
                    done = z3.BoolVal(False)
                    for c, q in p:
                        g = And(c, Not(done))
                        old = self.link_cell(st, g, q, size, ty, 'store')
                        ub, self.ub = self.ub, False
                        self.store(st, q, self.norm(Ptr(None, If(g, term(v), old))) if ty[0] == 'ptr' else If(g, term(v), old), ty)
                        self.ub = ub
                        done = Or(done, c)
                    return
            self.check_valid(st, p, 'store')
            name, key, m = self.map_of(st, p, size, 'store')
            d = self.map_dom.get(name)
            if d:
                st.hint(d, key[0])
            st.maps[name] = Store(m, key, term(v))
            if st.writes is not None:
                st.writes.setdefault(('map', name), []).append(None)
            return
        r = p.reg
        if r.const:
            self.prove(st, False, 'write-to-const(%s)' % r.name)
        if r.kind == 'arr':
            self.access_ok(st, p, size, '.store')
            self.arr_store(st, p, term(v), size)
            return
        if r.id in st.freed and self.free_checks:
            self.prove(st, False, 'use-after-free(%s)' % r.name)
        c = dict(st.mem[r.id])
        o = cval(p.off)
        if o is not None:
            if isinstance(r.size, int) and (o < 0 or o + size > r.size):
                self.prove(st, False, 'bounds-store(%s)@%s' % (r.name, st.fr.fn.name))
                return
            e = c.get(o)
            if e is None or e[0] != size:
                self.split_cells(c, o, size)
            c[o] = (size, v)
            if st.writes is not None:
                st.writes.setdefault(('cell', r.id, o), []).append((size, v))
        else:
            for o, e in self.cell_cands(st, p, size):
                c[o] = (size, If(p.off == bv(o), term(v), term(e)))
                if st.writes is not None:
                    st.writes.setdefault(('cell', r.id, o), []).append((size, c[o][1]))
        st.mem[r.id] = c

    def split_cells(self, c, o, size):
        for k in sorted(c):
            s, x = c[k]
            if k < o + size and o < k + s:
                del c[k]
                t = term(x)
                for b in range(s):
                    if not (o <= k + b < o + size):
                        c[k + b] = (1, S(z3.Extract(b * 8 + 7, b * 8, t)))

    def arr_store(self, st, p, v, size):
        E = p.reg.elem
        c = st.mem[p.reg.id]
        if size == E and p.sub == 0:
            st.mem[p.reg.id] = Store(c, (p.idx,), v)
        elif size < E or p.sub:
            if p.sub + size > E:
                raise Abort('unaligned store on wide elements')
            old = c.sel(p.idx)
            lo, hi = p.sub * 8, (p.sub + size) * 8
            parts = []
            if hi < E * 8:
                parts.append(z3.Extract(E * 8 - 1, hi, old))
            parts.append(v)
            if lo > 0:
                parts.append(z3.Extract(lo - 1, 0, old))
            st.mem[p.reg.id] = Store(c, (p.idx,), z3.Concat(*parts) if len(parts) > 1 else parts[0])
        else:
            for i in range(size // E):
                c = Store(c, (S(p.idx + bv(i)),), S(z3.Extract((i + 1) * E * 8 - 1, i * E * 8, v)))
                st.hint(p.reg.dom, S(p.idx + bv(i)))
            st.mem[p.reg.id] = c
        if st.writes is not None:
            st.writes.setdefault(('arr', p.reg.id), []).append(None)

    def set_arr(self, st, r, content):
        st.mem[r.id] = content
        if st.writes is not None:
            st.writes.setdefault(('arr', r.id), []).append(None)

    # ------------------------------------------------------------ arithmetic
    def ptr_val(self, v):
        return term(v)

    scale = None    # (e term, cap term)

    def sc_binop(self, st, op, x, y, where):
        e, cap = self.scale
        if (op == 'mul' or op == 'shl' and isinstance(x, Sc)) and isinstance(x, Sc) != isinstance(y, Sc):
            # twice a multiple
            q, k = (x.q, y) if isinstance(x, Sc) else (y.q, x)
            k = cval(k) if z3.is_bv(k) else None
            if k == (2 if op == 'mul' else 1):
                self.prove(st, ULE(q, cap), 'scaled-double-in-range' + where)
                return Sc(S(q + q), e)
        if op == 'mul':
            for a, b in ((x, y), (y, x)):
                if not isinstance(a, (Sc, Ptr, Fn)) and not isinstance(b, (Sc, Ptr, Fn)) and z3.is_bv(b) and b.eq(e):
                    c = cval(a)
                    if c == 0:
                        return bv(0)
                    self.prove(st, ULE(a, cap), 'scaled-product-in-range' + where)
                    return Sc(a, e)
            return None
        if not isinstance(x, Sc) and not isinstance(y, Sc):
            return None
        if z3.is_bv(x) and x.eq(e):
            x = Sc(bv(1), e)
        if z3.is_bv(y) and y.eq(e):
            y = Sc(bv(1), e)
        a, b = scq(x), scq(y)
        if a is None or b is None:
            return None
        if op == 'add':
            r = S(a + b)
            if cval(a) != 0 and cval(b) != 0:
                self.prove(st, And(ULE(a, cap), ULE(b, cap), ULE(r, cap + cap)), 'scaled-sum-in-range' + where)
            return Sc(r, e)
        if op == 'sub':
            self.prove(st, ULE(b, a), 'scaled-difference' + where)
            return Sc(S(a - b), e)
        if op == 'udiv' and cval(b) == 1:
            return a
        return None

    def binop(self, st, op, ty, x, y, fl, where):
        if self.scale is not None:
            r = self.sc_binop(st, op, x, y, where)
            if r is not None:
                return r
        x, y = (v.term() if isinstance(v, Sc) else v for v in (x, y))
        if isinstance(x, (Ptr, Fn)):
            x = x.term()
        if isinstance(y, (Ptr, Fn)):
            y = y.term()
        if z3.is_bool(x):
            a, b = x, y
            if op == 'and':
                return S(And(a, b))
            if op == 'or':
                return S(Or(a, b))
            if op == 'xor' or op == 'add' or op == 'sub':
                return S(z3.Xor(a, b))
            raise Abort('i1 ' + op)
        w = x.size()
        ub = self.ub
        if self.nl is not None and op in ('mul', 'udiv') and w == 64:
            r = self.nl_op(st, op, S(x), S(y), where)
            if r is not None:
                return r
        if op == 'add':
            r = x + y
            if 'nsw' in fl and ub:
                self.prove(st, And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'no-signed-overflow(add)' + where)
        elif op == 'sub':
            r = x - y
            if 'nsw' in fl and ub:
                self.prove(st, And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), 'no-signed-overflow(sub)' + where)
        elif op == 'mul':
            r = self.mulop(x, y)
            if 'nsw' in fl and ub:
                self.prove(st, And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), 'no-signed-overflow(mul)' + where)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if ub:
                self.prove(st, y != 0, 'div-by-zero' + where)
                if op[0] == 's':
                    self.prove(st, Not(And(x == bv(1 << (w - 1), w), y == bv(-1, w))), 'div-overflow' + where)
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem}[op](x, y)
        elif op in ('shl', 'lshr', 'ashr'):
            if ub:
                self.prove(st, ULT(y, bv(w, w)), 'shift-in-range(%s)' % op + where)
            r = x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        else:
            raise Abort(op)
        return S(r)

    # ---- products with the task's symbolic element size as uninterpreted functions,
    # related by instances of four arithmetic lemmas (proved over the integers by nl_lemmas)
    nl = None
    abstract_mul = False
    mulE = z3.Function('mulE', z3.BitVecSort(64), z3.BitVecSort(64))
    ovfE = z3.Function('ovfE', z3.BitVecSort(64), z3.BoolSort())
    divE = z3.Function('divE', z3.BitVecSort(64), z3.BitVecSort(64))

    def mulop(self, x, y):
        for a, b in ((x, y), (y, x)):
            if z3.is_app_of(b, z3.Z3_OP_ITE) and all(z3.is_bv_value(c) and c.as_long() in (0, 1) for c in b.children()[1:]):
                return If(b.arg(0), *[a if c.as_long() else bv(0, a.size()) for c in b.children()[1:]])
        if not self.abstract_mul or z3.is_bv_value(x) or z3.is_bv_value(y):
            return x * y
        # products of two unknowns as a commutative function of the factors
        if x.hash() > y.hash():
            x, y = y, x
        so = x.sort()
        f = z3.Function('mul%d' % x.size(), so, so, so)
        r = f(x, y)
        if r.get_id() not in self.mul_seen and not x.eq(y):
            self.mul_seen[r.get_id()] = r
            self.global_facts.append(r == f(y, x))
        return r

    def nl_op(self, st, op, x, y, where):
        e = self.nl
        if op == 'mul':
            if y.eq(e):
                q = x
            elif x.eq(e):
                q = y
            else:
                return None
            self.nl_term(st, 'm', q)
            return self.mulE(q)
        if y.eq(e):
            if self.ub:
                self.prove(st, e != 0, 'div-by-zero' + where)
            self.nl_term(st, 'd', x)
            return self.divE(x)
        return None

    def nl_term(self, st, kind, t):
        seen = st.ghost.get('_nl')
        if seen is None:
            seen = ()
            st.assume(self.mulE(bv(0)) == 0, Not(self.ovfE(bv(0))), self.mulE(bv(1)) == self.nl, Not(self.ovfE(bv(1))))
        if any(k == kind and u.eq(t) for k, u in seen):
            return
        M, O, D = self.mulE, self.ovfE, self.divE

        def mono(a, b):
            st.assume(Imp(And(ULE(a, b), Not(O(b))), And(Not(O(a)), ULE(M(a), M(b)))))
        if kind == 'm':
            st.assume(Imp(And(Not(O(t)), self.nl != 0), ULE(t, M(t))))
            for k, u in seen:
                if k == 'm':
                    mono(t, u)
                    mono(u, t)
                else:
                    st.assume(Imp(And(Not(O(t)), ULE(M(t), u)), ULE(t, D(u))))
                    mono(t, D(u))
        else:
            st.assume(And(Not(O(D(t))), ULE(M(D(t)), t)))
            for k, u in seen:
                if k == 'm':
                    st.assume(Imp(And(Not(O(u)), ULE(M(u), t)), ULE(u, D(t))))
                    mono(u, D(t))
        st.ghost['_nl'] = seen + ((kind, t),)

    def nl_lemmas(self):
        """the lemmas, over the integers"""
        a, b, e, s = z3.Ints('a b e s')
        lim = 1 << 64
        dom = z3.And(a >= 0, b >= 0, e > 0, s >= 0, a < lim, b < lim, e < lim, s < lim)
        goals = [z3.Implies(z3.And(dom, a <= b, b * e < lim), z3.And(a * e < lim, a * e <= b * e)),
                 z3.Implies(dom, z3.And((s / e) * e <= s, (s / e) * e < lim)),
                 z3.Implies(z3.And(dom, a * e <= s), a <= s / e),
                 z3.Implies(z3.And(dom, a * e < lim), a <= a * e)]
        for i, g in enumerate(goals):
            sol = z3.Solver()
            sol.set('timeout', 60000)
            sol.add(z3.Not(g))
            r = sol.check()
            ob = Ob('element-product lemma %d' % (i + 1))
            ob.status, ob.backend = ('ok' if r == z3.unsat else 'unknown'), 'z3 (integers)'
            self.obs.append(ob)

    def icmp(self, st, c, x, y):
        if isinstance(x, Sc) or isinstance(y, Sc):
            e = self.scale[0]
            if z3.is_expr(x) and x.eq(e):
                x = Sc(bv(1), e)
            if z3.is_expr(y) and y.eq(e):
                y = Sc(bv(1), e)
            a, b = scq(x), scq(y)
            if a is not None and b is not None and c[0] != 's':
                x, y = a, b
            else:
                x, y = term(x), term(y)
        if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                x, y = self.norm(x), self.norm(y)
                if x.reg is not None and y.reg is not None:
                    if x.reg is y.reg:
                        if x.reg.kind == 'arr' and x.sub == y.sub:
                            x, y = x.idx, y.idx
                        else:
                            x, y = x.offset(), y.offset()
                    elif c in ('eq', 'ne'):
                        return z3.BoolVal(c == 'ne')
                    else:
                        x, y = x.term(), y.term()
                elif (x.reg is None and cval(x.off) == 0) or (y.reg is None and cval(y.off) == 0):
                    if x.reg is not None or y.reg is not None:
                        if c in ('eq', 'ne'):
                            return z3.BoolVal(c == 'ne')
                    x, y = x.term(), y.term()
                else:
                    x, y = x.term(), y.term()
            else:
                def isnull(z):
                    return isinstance(z, Ptr) and z.reg is None and cval(z.off) == 0
                if isinstance(x, Fn) and isnull(y) or isinstance(y, Fn) and isnull(x):
                    return z3.BoolVal(c == 'ne')
                if isinstance(x, Fn) and isinstance(y, Fn):
                    return z3.BoolVal((x.name == y.name) == (c == 'eq'))
                x, y = term(x), term(y)
        if z3.is_bool(x):
            if c == 'eq':
                return S(x == y)
            if c == 'ne':
                return S(z3.Xor(x, y))
            x = If(x, bv(1, 2), bv(0, 2))
            y = If(y, bv(1, 2), bv(0, 2))
        r = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
             'ult': ULT, 'ule': ULE, 'ugt': UGT, 'uge': UGE,
             'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
             'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}[c](x, y)
        return S(r)

    def cast(self, st, op, ft, v, tt):
        v = term(v) if isinstance(v, Sc) else v
        if op in ('bitcast',):
            return v
        if op == 'inttoptr':
            if isinstance(v, (Ptr, Fn)):
                return v
            if v.size() < 64:
                v = z3.ZeroExt(64 - v.size(), v)
            return self.norm(Ptr(None, S(v)))
        if op == 'ptrtoint':
            v = term(v)
            if tt[1] < 64:
                v = z3.Extract(tt[1] - 1, 0, v)
            return S(v)
        w = tt[1]
        if op == 'trunc':
            if isinstance(v, (Ptr, Fn)):
                v = v.term()
            if w == 1:
                return S(z3.Extract(0, 0, v) == 1)
            if self.abstract_mul and z3.is_app(v) and v.decl().name() == 'mul%d' % v.size():
                return self.mulop(*[S(z3.Extract(w - 1, 0, c)) for c in v.children()])
            return S(z3.Extract(w - 1, 0, v))
        if z3.is_bool(v):
            one = bv(1, w) if op == 'zext' else bv(-1, w)
            return S(If(v, one, bv(0, w)))
        if op == 'zext':
            return S(z3.ZeroExt(w - v.size(), v))
        if op == 'sext':
            return S(z3.SignExt(w - v.size(), v))
        raise Abort('cast ' + op)

    # ------------------------------------------------------------ frames
    def push_frame(self, st, fn, mod, args, retdst, site=''):
        f = Frame()
        f.fn, f.mod = fn, mod
        f.regs = {}
        f.allocas = {}
        f.loopctx = {}
        f.unroll = {}
        f.retdst = retdst
        f.block = fn.order[0]
        f.pc = 0
        f.prev = None
        f.id = next(_ctr)
        f.site = site
        if len(args) != len(fn.params) and not fn.vararg:
            raise Abort('arity %s' % fn.name)
        for (t, n), a in zip(fn.params, args):
            if n is not None:
                if isinstance(a, int):
                    rt = mod.resolve(t)
                    a = bv(a, rt[1]) if rt[0] == 'i' else Ptr(None, bv(a))
                rt = mod.resolve(t)
                if rt[0] == 'ptr' and not isinstance(a, (Ptr, Fn)):
                    a = self.norm(Ptr(None, a))
                if rt[0] == 'i' and not isinstance(a, (Ptr, Fn)):
                    if rt[1] == 1 and z3.is_bv(a):
                        a = z3.Extract(0, 0, a) == 1
                    if rt[1] > 1 and a.size() != rt[1]:
                        raise Abort('argument width of %s' % fn.name)
                f.regs[n] = a
        self.funcs_seen.add(fn.name)
        st.frames.append(f)
        st.trace = st.trace + (fn.name,)
        return f

    # ------------------------------------------------------------ driver
    def run(self, st, fname, args, on_exit, mod=None):
        """explore fname from st; on_exit(st, retval) at every return"""
        fn, m = self.find_fn(fname, mod or self.mods[0])
        self.on_exit = on_exit
        n0 = self.exits
        base = len(st.frames)
        self.push_frame(st, fn, m, args, None, 'top')
        self.top_depth = len(st.frames)
        self.explore([st], None)
        if not self.dry and self.exits == n0:
            self.prove_cover(fname)

    def prove_cover(self, what):
        ob = Ob('cover(%s): some path returns' % what)
        ob.where = what
        ob.status, ob.backend = 'fail', 'vacuity'
        self.obs.append(ob)
        self.nfail += 1

    def explore(self, work, stop):
        reached = []
        while work:
            st = work.pop()
            self.check_deadline()
            try:
                res = self.step(st, stop)
            except PathEnd:
                continue
            for kind, s in res:
                if kind == 'stop':
                    reached.append(s)
                else:
                    work.append(s)
        return reached

    def step(self, st, stop):
        """run st until it forks, ends or reaches stop=(depth, block)"""
        while True:
            f = st.fr
            if f.pc == 0 and stop is not None and (len(st.frames), f.block) == stop and f.id == self.stop_frame:
                return [('stop', st)]
            insts = f.fn.blocks[f.block]
            if f.pc == 0:
                r = self.at_block_head(st)
                if r is not None:
                    return r
            while True:
                inst = insts[f.pc]
                if inst.op == 'phi':
                    f.pc += 1
                    continue
                r = self.exec(st, inst)
                if r is None:
                    f.pc += 1
                    continue
                if isinstance(r, str):
                    break
                return r

    # ------------------------------------------------------------ loops
    def loop_index(self, fn, head):
        for i, (h, body) in enumerate(fn.loops()):
            if h == head:
                return i, body
        return None

    def spec_for(self, st, fn, idx, nloops):
        sp = self.loops.get((fn.name, idx))
        if sp is not None:
            want = getattr(sp, 'names', ())
            return sp
        for (name, i), sp in self.loops.items():
            if sp.used or not sp.names:
                continue
            if all((n in st.fr.allocas or n + '.addr' in st.fr.allocas) for n in sp.names):
                self.fallback_used.append((fn.name, idx, name, i))
                return sp
        return None

    def inv_list(self, sp, st):
        r = sp.inv(self, st, L(self, st))
        if not isinstance(r, (list, tuple)):
            r = [r]
        out = []
        for i, x in enumerate(r):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                out.append(x)
            else:
                out.append(('inv%d' % i, x))
        return out

    def at_block_head(self, st):
        f = st.fr
        li = self.loop_index(f.fn, f.block)
        if li is None:
            return None
        idx, body = li
        inside = f.prev in body and f.prev is not None
        key = f.block
        if inside and key in f.loopctx:
            ctx = f.loopctx[key]
            if ctx is None:
                n = f.unroll.get(key, 0) + 1
                if n > self.unroll_bound:
                    raise Abort('loop without invariant does not unroll: %s#%d' % (f.fn.name, idx))
                f.unroll[key] = n
                return None
            self.back_edge(st, ctx, f.fn, idx)
            raise PathEnd()
        # entry
        sp = self.spec_for(st, f.fn, idx, len(f.fn.loops()))
        self.loops_seen.add((f.fn.name, idx, sp is not None))
        if sp is None:
            f.loopctx[key] = None
            f.unroll[key] = 0
            return None
        sp.used += 1
        lab = '%s#%d' % (f.fn.name, idx)
        if sp.on_entry:
            sp.on_entry(self, st, L(self, st))
        for n, g in self.inv_list(sp, st):
            self.prove(st, g, 'loop-entry(%s).%s' % (lab, n))
        # frame inference
        wr = self.infer_havoc(st, sp, idx, body, lab)
        self.havoc(st, sp, wr)
        for n, g in self.inv_list(sp, st):
            st.assume(g)
        if sp.case:
            st.assume(sp.case(self, st, L(self, st)))
        if st.writes is not None:
            for k, vs in wr.items():
                if k in st.writes:
                    st.writes[k] += vs
                else:
                    st.writes[k] = list(vs)
        dec = sp.decreases(self, st, L(self, st)) if sp.decreases else None
        f.loopctx[key] = (sp, dec)
        if not self.dry and not self.feasible(st):
            # invariant contradictory with the path: vacuous
            ob = Ob('loop-invariant-consistent(%s)' % lab)
            ob.where = f.fn.name
            ob.status, ob.backend = 'fail', 'vacuity'
            self.obs.append(ob)
            self.nfail += 1
            raise PathEnd()
        return None

    def back_edge(self, st, ctx, fn, idx):
        sp, dec = ctx
        if self.dry:
            # keep ghost writes visible
            if sp.on_back:
                sp.on_back(self, st, L(self, st))
            return
        lab = '%s#%d' % (fn.name, idx)
        if sp.on_back:
            sp.on_back(self, st, L(self, st))
        for n, g in self.inv_list(sp, st):
            self.prove(st, g, 'loop-preserved(%s).%s' % (lab, n))
        if dec is not None:
            d2 = sp.decreases(self, st, L(self, st))
            self.prove(st, lex_less(d2, dec), 'loop-terminates(%s)' % lab)

    def infer_havoc(self, st, sp, idx, body, lab):
        key = (st.fr.fn.name, idx, tuple(f.fn.name for f in st.frames))
        known = {}
        f = st.fr
        outer = set(st.mem)
        for it in range(12):
            s2 = st.copy()
            s2.writes = {}
            self.havoc(s2, sp, known)
            for n, g in self.inv_list(sp, s2):
                s2.assume(g)
            s2.fr.loopctx[f.block] = (sp, None)
            self.dry += 1
            saved = self.on_exit
            saved_exits = self.exits
            self.on_exit = None
            sink = s2.writes
            depth = len(s2.frames)
            try:
                # mark: run from the head instruction
                self.dry_explore(s2, body, depth)
            finally:
                self.dry -= 1
                self.on_exit = saved
                self.exits = saved_exits
            new = {}
            for k, vs in sink.items():
                if k[0] in ('cell', 'arr') and k[1] not in outer:
                    continue
                new[k] = vs
            merged = dict(known)
            ch = False
            for k, vs in new.items():
                if k not in merged:
                    merged[k] = list(vs)
                    ch = True
                else:
                    sh0 = shapes(merged[k])
                    sh1 = shapes(list(merged[k]) + list(vs))
                    if sh0 != sh1:
                        ch = True
                        merged[k] = list(merged[k]) + list(vs)
            known = merged
            if not ch:
                return known
        raise Abort('frame inference did not converge at ' + lab)

    def dry_explore(self, st, body, depth):
        """explore one iteration; leave the loop -> path end"""
        work = [(st)]
        first = True
        frid = st.frames[depth - 1].id
        while work:
            s = work.pop()
            self.check_deadline()
            try:
                # do not process the head again for the initial state
                if first:
                    first = False
                    res = self.step_from(s, body, depth, frid, True)
                else:
                    res = self.step_from(s, body, depth, frid, False)
            except PathEnd:
                continue
            for k, x in res:
                work.append(x)

    def step_from(self, st, body, depth, frid, skip_head):
        skip = skip_head
        while True:
            f = st.fr
            if f.pc == 0 and f.id == frid and f.block not in body:
                raise PathEnd()
            if len(st.frames) < depth:
                raise PathEnd()
            insts = f.fn.blocks[f.block]
            if f.pc == 0 and not skip:
                r = self.at_block_head(st)
                if r is not None:
                    return r
            skip = False
            while True:
                inst = insts[f.pc]
                if inst.op == 'phi':
                    f.pc += 1
                    continue
                r = self.exec(st, inst)
                if r is None:
                    f.pc += 1
                    continue
                if isinstance(r, str):
                    break
                return r

    def havoc(self, st, sp, wr):
        for k, vs in wr.items():
            if k[0] == 'cell':
                _, rid, o = k
                cur = st.mem[rid].get(o)
                size = vs[0][0]
                if cur is None:
                    # not initialised before the loop: stays unreadable until written
                    if sp.shape is None:
                        continue
                samples = [v for _, v in vs] + ([cur[1]] if cur is not None else [])
                c = dict(st.mem[rid])
                if cur is None:
                    # written on every path of the loop: the spec may name a value (its invariant says when it is set)
                    c.pop(o, None)
                    nv = sp.shape(self, st, rid, o, samples)
                    if nv is not None:
                        c[o] = (size, nv)
                else:
                    nv = None
                    if sp.shape is not None:
                        nv = sp.shape(self, st, rid, o, samples)
                    if nv is None:
                        nv = self.havoc_value(samples, size, rid, o)
                    c[o] = (size, nv)
                st.mem[rid] = c
            elif k[0] == 'arr':
                c = st.mem[k[1]]
                st.mem[k[1]] = Base('hv', c.w)
            elif k[0] == 'map':
                c = self.getmap(st, k[1])
                nk = map_arity(c)
                st.maps[k[1]] = Base('hvm.' + k[1], c.w, nk)
            elif k[0] == 'freed':
                pass
        for g in sp.ghosts:
            v = st.ghost[g]
            if isinstance(v, Arr):
                st.ghost[g] = Base('hg.' + g, v.w, map_arity(v))
            elif z3.is_int(v):
                st.ghost[g] = z3.Int('hg.%s!%d' % (g, next(_ctr)))
            elif isinstance(v, Ptr):
                st.ghost[g] = Ptr(None, fresh('hg.' + g))
            elif z3.is_bool(v):
                st.ghost[g] = fresh('hg.' + g, 1)
            elif z3.is_func_decl(v):
                st.ghost[g] = z3.Function('hg.%s!%d' % (g, next(_ctr)), *([v.domain(i) for i in range(v.arity())] + [v.range()]))
            elif callable(v) and not z3.is_expr(v):
                st.ghost[g] = havoc_fn('hg.%s!%d' % (g, next(_ctr)), v)
            else:
                st.ghost[g] = fresh('hg.' + g, v.size())

    def havoc_value(self, samples, size, rid, o):
        if any(isinstance(s, Sc) for s in samples):
            if all(scq(s) is not None or s.eq(self.scale[0]) for s in samples):
                return Sc(fresh('hvs'), self.scale[0])
            samples = [term(s) for s in samples]
        if any(isinstance(s, Fn) for s in samples):
            raise Abort('function pointer modified in loop')
        ps = [s for s in samples if isinstance(s, Ptr)]
        if ps:
            regs = set(p.reg for p in ps)
            regs_nn = set(p.reg for p in ps if not (p.reg is None and cval(p.off) == 0))
            if len(regs) == 1:
                r = ps[0].reg
                if r is None:
                    tags = set(p.tag for p in ps)
                    if len(tags) == 1 and ps[0].tag is not None:
                        b = fresh('hvb')
                        ai = fresh('hvi') if ps[0].aidx is not None else None
                        raise Abort('tagged pointer modified in loop: needs a shape')
                    return Ptr(None, fresh('hvp'))
                if r.kind == 'arr':
                    subs = set(p.sub for p in ps)
                    if len(subs) > 1:
                        raise Abort('sub-element pointers modified in loop')
                    return Ptr(r, idx=fresh('hvi'), sub=ps[0].sub)
                return Ptr(r, fresh('hvo'))
            return Ptr(None, fresh('hvp'))
        return fresh('hv', size * 8)

    # ------------------------------------------------------------ control
    def jump(self, st, target):
        f = st.fr
        cur = f.block
        insts = f.fn.blocks[target]
        vals = []
        for ins in insts:
            if ins.op != 'phi':
                break
            for v, b in ins.a['inc']:
                if b == cur:
                    vals.append((ins.dst, self.operand(st, v, ins.ty)))
                    break
            else:
                raise Abort('phi')
        for d, v in vals:
            f.regs[d] = v
        # leaving loops: forget their context
        if f.loopctx:
            for h, body in f.fn.loops():
                if h in f.loopctx and target not in body:
                    del f.loopctx[h]
                    f.unroll.pop(h, None)
        f.prev = cur
        f.block = target
        f.pc = 0

    def branch(self, st, cond, t, e):
        cond = S(cond)
        if z3.is_true(cond):
            self.jump(st, t)
            return 'jump'
        if z3.is_false(cond):
            self.jump(st, e)
            return 'jump'
        a = self.feasible(st, cond)
        b = self.feasible(st, z3.Not(cond)) if a else True
        if not a and not self.feasible(st):
            raise PathEnd()
        if a and not b:
            st.pc.append(cond)
            self.jump(st, t)
            return 'jump'
        if b and not a:
            st.pc.append(z3.Not(cond))
            self.jump(st, e)
            return 'jump'
        f = st.fr
        if self.merge and not (self.no_merge_in and f.fn.name in self.no_merge_in):
            m = self.merge_target(f.fn, f.block)
            if m is not None:
                return self.merge_branch(st, cond, t, e, m)
        s2 = st.copy()
        st.pc.append(cond)
        self.jump(st, t)
        s2.pc.append(z3.Not(cond))
        self.jump(s2, e)
        return [('go', s2), ('go', st)]

    no_merge_in = ()

    def merge_target(self, fn, block):
        cache = fn.__dict__.setdefault('_ipdom', None) if hasattr(fn, '__dict__') else None
        if cache is None:
            cache = ipdoms(fn)
            fn._ipdom = cache
        m = cache.get(block)
        if m is None:
            return None
        # region between must be loop free
        heads = set(h for h, _ in fn.loops())
        seen = set()
        st = [s for s in fn.succs(block)]
        while st:
            b = st.pop()
            if b == m or b in seen:
                continue
            if b in heads:
                return None
            seen.add(b)
            st += fn.succs(b)
        if block in seen:
            return None
        if len(seen) > 40:
            return None
        return m

    stop_frame = None

    def merge_branch(self, st, cond, t, e, m):
        f = st.fr
        depth = len(st.frames)
        npc = len(st.pc)
        s2 = st.copy()
        st.pc.append(cond)
        self.jump(st, t)
        s2.pc.append(z3.Not(cond))
        self.jump(s2, e)
        saved = self.stop_frame
        self.stop_frame = f.id
        try:
            ra = self.explore([st], (depth, m))
            self.stop_frame = f.id
            rb = self.explore([s2], (depth, m))
        finally:
            self.stop_frame = saved
        states = ra + rb
        out = []
        for s in states:
            for i, o in enumerate(out):
                x = merge_states(o, s, npc)
                if x is not None:
                    out[i] = x
                    break
            else:
                out.append(s)
        if not out:
            raise PathEnd()
        return [('go', s) for s in out]

    # ------------------------------------------------------------ instructions
    def exec(self, st, inst):
        f = st.fr
        op = inst.op
        a = inst.a
        if op == 'alloca':
            t = a['type']
            cnt = a['count']
            rt = f.mod.resolve(t)
            if cnt is not None and cval(self.operand(st, cnt, ('i', 64))) != 1:
                n = self.operand(st, cnt, ('i', 64))
                es = f.mod.size(t)
                r = self.region(st, 'arr', '%s.%s' % (f.fn.name, inst.dst), S(sext(n, 64)), es)
            elif rt[0] == 'arr' and f.mod.resolve(rt[2])[0] in ('i', 'ptr') and rt[1] > 0 and (f.fn.name, inst.dst) not in self.cell_arrays:
                es = f.mod.size(rt[2])
                r = self.region(st, 'arr', '%s.%s' % (f.fn.name, inst.dst), rt[1], es)
            else:
                self._quiet_addr = True
                r = self.region(st, 'cells', '%s.%s' % (f.fn.name, inst.dst), f.mod.size(t))
                self._quiet_addr = False
            r.local = True
            f.allocas[inst.dst] = r
            f.regs[inst.dst] = Ptr(r)
            return None
        if op == 'load':
            p = self.operand(st, a['ptr'], ('ptr',))
            f.regs[inst.dst] = self.load(st, p, inst.ty)
            return None
        if op == 'store':
            v = self.operand(st, a['val'], inst.ty)
            p = self.operand(st, a['ptr'], ('ptr',))
            self.store(st, p, v, inst.ty)
            return None
        if op == 'gep':
            p = self.operand(st, a['ops'][0][1], ('ptr',))
            ops = [(t, self.operand(st, v, t)) for t, v in a['ops'][1:]]
            f.regs[inst.dst] = self.gep(st, p, a['bt'], ops, a['ops'][1:])
            return None
        if op in ir.BIN:
            x = self.operand(st, a['x'], inst.ty)
            y = self.operand(st, a['y'], inst.ty)
            f.regs[inst.dst] = self.arith(st, op, inst, x, y, a['fl'], '@' + f.fn.name)
            return None
        if op == 'icmp':
            x = self.operand(st, a['x'], inst.ty)
            y = self.operand(st, a['y'], inst.ty)
            f.regs[inst.dst] = self.icmp(st, a['c'], x, y)
            return None
        if op in ir.CASTS:
            v = self.operand(st, a['v'], a['from'])
            f.regs[inst.dst] = self.cast(st, op, a['from'], v, f.mod.resolve(inst.ty))
            return None
        if op == 'br':
            if a['cond'] is None:
                self.jump(st, a['targets'][0])
                return 'jump'
            c = self.operand(st, a['cond'], ('i', 1))
            return self.branch(st, c, a['targets'][0], a['targets'][1])
        if op == 'switch':
            v = self.operand(st, a['v'], inst.ty)
            return self.do_switch(st, v, a)
        if op == 'ret':
            v = self.operand(st, a['v'], inst.ty) if a['v'] is not None else None
            return self.do_ret(st, v)
        if op == 'unreachable':
            if not self.dry and self.ub:
                self.prove(st, z3.BoolVal(False), 'unreachable-not-reached@%s' % f.fn.name)
            raise PathEnd()
        if op == 'select':
            c = self.operand(st, a['c'], ('i', 1))
            x = self.operand(st, a['x'], inst.ty)
            y = self.operand(st, a['y'], inst.ty)
            c = S(c)
            if z3.is_true(c):
                f.regs[inst.dst] = x
            elif z3.is_false(c):
                f.regs[inst.dst] = y
            else:
                r = merge_val(c, x, y)
                if r is None:
                    raise Abort('select of pointers')
                f.regs[inst.dst] = r
            return None
        if op == 'call':
            return self.do_call(st, inst)
        if op == 'extractvalue':
            v = self.operand(st, a['v'], inst.ty)
            for i in a['idx']:
                v = v[i]
            f.regs[inst.dst] = v
            return None
        if op == 'insertvalue':
            v = self.operand(st, a['v'], inst.ty)
            e = self.operand(st, a['e'], None)

            def ins(v, idx):
                v = list(v)
                v[idx[0]] = e if len(idx) == 1 else ins(v[idx[0]], idx[1:])
                return v
            f.regs[inst.dst] = ins(v, a['idx'])
            return None
        if op == 'freeze':
            f.regs[inst.dst] = self.operand(st, a['v'], inst.ty)
            return None
        if op == 'fence':
            return None
        if op == 'cmpxchg':
            p = self.operand(st, a['ptr'], ('ptr',))
            if self.interfere:
                self.interfere(self, st, p)
            old = self.load(st, p, inst.ty)
            c = self.operand(st, a['cmp'], inst.ty)
            n = self.operand(st, a['new'], inst.ty)
            eq = S(term(old) == term(c))
            self.store(st, p, If(eq, term(n), term(old)), inst.ty)
            f.regs[inst.dst] = [old, eq]
            return None
        if op == 'atomicrmw':
            p = self.operand(st, a['ptr'], ('ptr',))
            if self.interfere:
                self.interfere(self, st, p)
            old = self.load(st, p, inst.ty)
            v = self.operand(st, a['v'], inst.ty)
            o, x = term(old), term(v)
            n = {'add': lambda: o + x, 'sub': lambda: o - x, 'and': lambda: o & x, 'or': lambda: o | x,
                 'xor': lambda: o ^ x, 'xchg': lambda: x, 'nand': lambda: ~(o & x)}[a['op']]()
            self.store(st, p, S(n), inst.ty)
            f.regs[inst.dst] = old
            return None
        raise Abort('instruction %s' % inst.text)

    cell_arrays = frozenset()
    interfere = None

    def arith(self, st, op, inst, x, y, fl, where):
        # pointer difference / tagged pointers keep their region
        return self.binop(st, op, inst.ty, x, y, fl, where)

    def do_switch(self, st, v, a):
        c = cval(v)
        if c is not None:
            for k, t in a['cases']:
                if (k & ((1 << v.size()) - 1)) == c:
                    self.jump(st, t)
                    return 'jump'
            self.jump(st, a['default'])
            return 'jump'
        if self.merge:
            # encode as chain to allow merging
            f = st.fr
            m = self.merge_target(f.fn, f.block)
        else:
            m = None
        w = v.size()
        npc = len(st.pc)
        f = st.fr
        depth = len(st.frames)
        out = []
        notany = []
        groups = {}
        for k, t in a['cases']:
            groups.setdefault(t, []).append(v == bv(k, w))
            notany.append(v != bv(k, w))
        todo = [(Or(cs), t) for t, cs in groups.items()] + [(And(notany), a['default'])]
        for cond, t in todo:
            if self.feasible(st, cond):
                s2 = st.copy()
                s2.pc.append(cond)
                self.jump(s2, t)
                out.append(s2)
        if not out:
            raise PathEnd()
        if m is None:
            return [('go', s) for s in out]
        saved = self.stop_frame
        res = []
        try:
            for s in out:
                self.stop_frame = f.id
                res += self.explore([s], (depth, m))
        finally:
            self.stop_frame = saved
        fin = []
        for s in res:
            for i, o in enumerate(fin):
                x = merge_states(o, s, npc)
                if x is not None:
                    fin[i] = x
                    break
            else:
                fin.append(s)
        if not fin:
            raise PathEnd()
        return [('go', s) for s in fin]

    def do_ret(self, st, v):
        f = st.frames.pop()
        if not st.frames or (self.top_depth is not None and len(st.frames) < self.top_depth):
            if self.on_exit is not None and self.dry == 0:
                self.npaths += 1
                st.frames.append(f)
                if not self.covered_path(st):
                    raise PathEnd()
                self.exits += 1
                self.on_exit(st, v)
            raise PathEnd()
        # locals die
        g = st.fr
        if f.retdst is not None:
            g.regs[f.retdst] = v
        hook = self.ret_hooks.get(f.fn.name)
        for r in f.allocas.values():
            st.mem.pop(r.id, None) if r.kind == 'cells' else None
        if hook:
            hook(self, st, v)
        g.pc += 1
        return 'jump_same'

    ret_hooks = {}

    def covered_path(self, st):
        if self.covered:
            return True
        if self.feasible(st, timeout=4000):
            self.covered = True
            return True
        return False

    def do_call(self, st, inst):
        f = st.fr
        c = inst.a['callee']
        args = []
        for t, v in inst.a['args']:
            if t == ('meta',):
                args.append(None)
            else:
                args.append(self.operand(st, v, t))
        if c[0] == 'asm':
            raise Abort('inline asm %s' % c[1])
        if c[0] == 'g':
            fp = Fn(c[1], mod=f.mod)
        else:
            fp = self.operand(st, c, ('ptr',))
            if isinstance(fp, Ptr):
                if fp.reg is None and fp.off.get_id() in self.fn_terms:
                    fp = self.fn_terms[fp.off.get_id()]
                else:
                    fp2 = self.resolve_fn(st, fp)
                    if fp2 is None:
                        raise Abort('indirect call to %s in %s' % (fp, f.fn.name))
                    fp = fp2
        return self.call_fn(st, fp, args, inst)

    resolve_fn_hook = None

    def resolve_fn(self, st, fp):
        if self.resolve_fn_hook:
            return self.resolve_fn_hook(st, fp)
        return None

    def call_fn(self, st, fp, args, inst):
        f = st.fr
        h = fp.handler or self.contracts.get(fp.name)
        if h is None:
            for pre, hh in self.prefix_contracts:
                if fp.name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, args, inst)
            if isinstance(r, Forks):
                out = []
                for s, v in r.items:
                    g = s.fr
                    if inst.dst is not None:
                        g.regs[inst.dst] = self.coerce(s, v, inst.ty)
                    g.pc += 1
                    out.append(('go', s))
                if not out:
                    raise PathEnd()
                return out
            if inst.dst is not None:
                f.regs[inst.dst] = self.coerce(st, r, inst.ty)
            return None
        fn, m = self.find_fn(fp.name, fp.mod)
        for g in st.frames:
            if g.fn is fn:
                raise Abort('recursion into %s needs a contract' % fp.name)
        if len(st.frames) > 40:
            raise Abort('call depth')
        self.push_frame(st, fn, m, args, inst.dst)
        return 'frame'

    prefix_contracts = ()

    def coerce(self, st, v, ty):
        if v is None:
            return self.undef(st.fr.mod, ty) if ty and ty[0] != 'void' else None
        if isinstance(v, int):
            if ty[0] == 'ptr':
                return Ptr(None, bv(v))
            return bv(v, ty[1]) if ty[1] > 1 else z3.BoolVal(bool(v))
        if ty[0] == 'ptr' and not isinstance(v, (Ptr, Fn)):
            return self.norm(Ptr(None, v))
        if ty == ('i', 1) and z3.is_bv(v):
            return S(z3.Extract(0, 0, v) == 1)
        if ty[0] == 'i' and ty[1] > 1 and not isinstance(v, (Ptr, Fn)) and z3.is_bool(v):
            return If(v, bv(1, ty[1]), bv(0, ty[1]))
        return v


class PathEnd(Exception):
    pass


class Forks:
    def __init__(self, items):
        self.items = items


# ---------------------------------------------------------------- helpers
def sext(v, w):
    if isinstance(v, (Ptr, Fn, Sc)):
        v = v.term()
    if v.size() == w:
        return v
    return S(z3.SignExt(w - v.size(), v))


def zext(v, w):
    if v.size() == w:
        return v
    if v.size() > w:
        return S(z3.Extract(w - 1, 0, v))
    return S(z3.ZeroExt(w - v.size(), v))


def lex_less(a, b):
    if isinstance(a, (tuple, list)):
        out = z3.BoolVal(False)
        for x, y in reversed(list(zip(a, b))):
            out = Or(less(x, y), And(x == y, out))
        return out
    return less(a, b)


def less(a, b):
    if z3.is_int(a):
        return And(a < b, b >= 0)
    return ULT(a, b)


def divide_term(e, k):
    """e == k * q syntactically (without overflow concerns) -> q"""
    c = cval(e)
    if c is not None:
        if c >= 1 << 63:
            c -= 1 << 64
        return bv(c // k) if c % k == 0 else None
    if z3.is_app_of(e, z3.Z3_OP_BMUL):
        ch = list(e.children())
        for i, x in enumerate(ch):
            c = cval(x)
            if c is not None and c >= 1 << 63:
                c -= 1 << 64
            if c is not None and c % k == 0:
                rest = ch[:i] + ch[i + 1:]
                q = rest[0]
                for r in rest[1:]:
                    q = q * r
                return q * bv(c // k) if c != k else q
        return None
    if z3.is_app_of(e, z3.Z3_OP_BADD):
        out = bv(0)
        for x in e.children():
            q = divide_term(x, k)
            if q is None:
                return None
            out = out + q
        return S(out)
    if z3.is_app_of(e, z3.Z3_OP_CONCAT):
        # x ++ 000 : shift left; the dropped high bits make this exact only modulo wrap
        ch = e.children()
        last = ch[-1]
        c = cval(last)
        sh = k.bit_length() - 1
        if c == 0 and (1 << sh) == k and last.size() >= sh:
            if last.size() > sh:
                parts = list(ch[:-1]) + [bv(0, last.size() - sh)]
            else:
                parts = list(ch[:-1])
            q = z3.Concat(*parts) if len(parts) > 1 else parts[0]
            return S(z3.ZeroExt(64 - q.size(), q))
        return None
    return None


def stride_of(off):
    """off = base + stride*sym  -> (base, stride) best effort"""
    base = 0
    stride = 0
    import math
    todo = [off]
    while todo:
        e = todo.pop()
        c = cval(e)
        if c is not None:
            base += c if c < 1 << 63 else c - (1 << 64)
            continue
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            todo += list(e.children())
            continue
        if z3.is_app_of(e, z3.Z3_OP_BMUL):
            k = 1
            for x in e.children():
                c = cval(x)
                if c is not None:
                    k = c
            stride = math.gcd(stride, k if k < 1 << 63 else (1 << 64) - k)
            continue
        if z3.is_app_of(e, z3.Z3_OP_CONCAT):
            last = e.children()[-1]
            c = cval(last)
            if c is not None:
                stride = math.gcd(stride, 1 << last.size())
                base += c
                continue
        stride = 1
    return base, stride


def map_arity(m):
    while not isinstance(m, Base):
        if isinstance(m, (Store, Fill, Copy)):
            m = m.p
        elif isinstance(m, IteArr):
            m = m.a
        elif isinstance(m, FnArr):
            return 1
    return m.f.arity()


def shapes(vs):
    out = set()
    for x in vs:
        if x is None:
            out.add(None)
            continue
        size, v = x
        if isinstance(v, Ptr):
            if v.reg is None:
                out.add(('raw', v.tag, cval(v.off) == 0))
            else:
                out.add(('reg', v.reg.id, v.sub))
        elif isinstance(v, Sc) or cval(v) == 0:
            out.add('sc')
        elif isinstance(v, Fn):
            out.add(('fn', v.name))
        else:
            out.add('int')
    return out


def merge_val(c, x, y):
    if x is y:
        return x
    if isinstance(x, list) and isinstance(y, list):
        r = [merge_val(c, a, b) for a, b in zip(x, y)]
        return None if any(a is None for a in r) else r
    if isinstance(x, Fn) or isinstance(y, Fn):
        if isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name and x.handler is y.handler:
            return x
        return None
    if isinstance(x, Sc) or isinstance(y, Sc):
        a, b = scq(x), scq(y)
        if a is None or b is None:
            return z3.If(c, term(x), term(y))
        return Sc(If(c, a, b), x.e if isinstance(x, Sc) else y.e)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.reg is y.reg:
            if x.reg is None:
                if x.tag is None and y.tag is None:
                    return Ptr(None, If(c, x.off, y.off))
                if x.off.eq(y.off) and x.tag == y.tag:
                    return x
                return None
            if x.reg.kind == 'arr':
                if x.sub != y.sub:
                    return None
                return Ptr(x.reg, idx=If(c, x.idx, y.idx), sub=x.sub)
            if x.off.eq(y.off):
                return x
            return None
        return None
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        return None
    if x is None or y is None:
        return None
    if x.eq(y):
        return x
    if z3.is_bool(x) != z3.is_bool(y):
        return None
    return S(z3.If(c, x, y))


def merge_states(a, b, npc):
    """join two states that share pc[:npc]"""
    if len(a.frames) != len(b.frames) or a.freed != b.freed:
        return None
    if a.writes is not b.writes:
        return None
    for i in range(npc):
        if a.pc[i] is not b.pc[i] and not a.pc[i].eq(b.pc[i]):
            return None
    if len(a.foralls) != len(b.foralls) or any(x is not y for x, y in zip(a.foralls, b.foralls)):
        return None
    ca = And(a.pc[npc:])
    cb = And(b.pc[npc:])
    out = State()
    out.pc = a.pc[:npc] + [z3.simplify(z3.Or(ca, cb))]
    out.foralls = list(a.foralls)
    out.writes = a.writes
    out.trace = a.trace
    out.freed = a.freed
    for d in (a.terms, b.terms):
        for k, v in d.items():
            out.terms.setdefault(k, {}).update(v)
    c = ca
    for fa, fb in zip(a.frames, b.frames):
        if fa.id != fb.id:
            return None
        f = fa.copy()
        f.regs = {}
        for k, v in fa.regs.items():
            if k in fb.regs:
                w = fb.regs[k]
                r = merge_val(c, v, w)
                if r is not None:
                    f.regs[k] = r
        out.frames.append(f)
    for rid in set(a.mem) | set(b.mem):
        if rid not in a.mem:
            out.mem[rid] = b.mem[rid]
            continue
        if rid not in b.mem:
            out.mem[rid] = a.mem[rid]
            continue
        x, y = a.mem[rid], b.mem[rid]
        if x is y:
            out.mem[rid] = x
        elif isinstance(x, Arr):
            if not isinstance(y, Arr) or x.w != y.w:
                return None
            out.mem[rid] = IteArr(c, x, y)
        else:
            d = {}
            for o in set(x) & set(y):
                if x[o][0] != y[o][0]:
                    return None
                r = merge_val(c, x[o][1], y[o][1])
                if r is None:
                    return None
                d[o] = (x[o][0], r)
            for o in set(x) ^ set(y):
                # initialised on one side only: undefined afterwards
                pass
            out.mem[rid] = d
    for k in set(a.maps) | set(b.maps):
        x, y = a.maps.get(k), b.maps.get(k)
        if x is None or y is None:
            out.maps[k] = x or y
            if x is None or y is None:
                m = x or y
                if not isinstance(m, Base):
                    return None
            continue
        out.maps[k] = x if x is y else IteArr(c, x, y)
    for k in set(a.ghost) | set(b.ghost):
        x, y = a.ghost.get(k), b.ghost.get(k)
        if x is y:
            out.ghost[k] = x
        elif isinstance(x, Arr) and isinstance(y, Arr):
            out.ghost[k] = IteArr(c, x, y)
        elif x is None or y is None:
            return None
        elif z3.is_expr(x) and z3.is_expr(y):
            out.ghost[k] = z3.If(c, x, y)
        elif x == y:
            out.ghost[k] = x
        else:
            return None
    return out


def ipdoms(fn):
    nodes = list(fn.order)
    EXIT = object()
    succ = {b: (fn.succs(b) or [EXIT]) for b in nodes}
    allset = set(nodes) | {EXIT}
    pd = {b: set(allset) for b in nodes}
    pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in reversed(nodes):
            n = set.intersection(*[pd[s] for s in succ[b]]) | {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    out = {}
    for b in nodes:
        cands = pd[b] - {b, EXIT}
        best = None
        for c in cands:
            # immediate: every other candidate post-dominates c
            if all(o in pd[c] for o in cands):
                best = c
        out[b] = best
    return out


def cvc5_check(smt, timeout):
    head = '(set-logic ALL)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(head + smt)
        name = f.name
    try:
        p = subprocess.run(['/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), name],
                           capture_output=True, text=True, timeout=timeout + 10)
        o = p.stdout.strip().split('\n')
        return o[0] if o else ''
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(name)


# ---------------------------------------------------------------- builtins
def nop(ex, st, args, inst):
    return None


def install_builtins(ex):
    C = ex.contracts
    ex.prefix_contracts = [('llvm.lifetime', nop), ('llvm.dbg', nop), ('llvm.va_', nop), ('llvm.prefetch', nop), ('llvm.assume', nop),
                           ('llvm.memcpy', h_memcpy), ('llvm.memmove', h_memcpy), ('llvm.memset', h_memset),
                           ('llvm.expect', lambda ex, st, a, i: a[0]),
                           ('llvm.ctpop', h_ctpop), ('llvm.ctlz', h_ctlz), ('llvm.cttz', h_cttz), ('llvm.bswap', h_bswap),
                           ('llvm.uadd.with.overflow', h_ovf('uadd')), ('llvm.usub.with.overflow', h_ovf('usub')), ('llvm.umul.with.overflow', h_ovf('umul')),
                           ('llvm.sadd.with.overflow', h_ovf('sadd')), ('llvm.ssub.with.overflow', h_ovf('ssub')), ('llvm.smul.with.overflow', h_ovf('smul')),
                           ('llvm.umax', lambda ex, st, a, i: If(UGT(a[0], a[1]), a[0], a[1])),
                           ('llvm.umin', lambda ex, st, a, i: If(ULT(a[0], a[1]), a[0], a[1])),
                           ('llvm.smax', lambda ex, st, a, i: If(a[0] > a[1], a[0], a[1])),
                           ('llvm.smin', lambda ex, st, a, i: If(a[0] < a[1], a[0], a[1])),
                           ('llvm.fshl', h_fshl), ('llvm.fshr', h_fshr), ('llvm.is.constant', lambda ex, st, a, i: z3.BoolVal(False)),
                           ('llvm.abs', lambda ex, st, a, i: If(a[0] < 0, -a[0], a[0])),
                           ('llvm.stack', lambda ex, st, a, i: Ptr(None, fresh('stk'))),
                           ('llvm.objectsize', lambda ex, st, a, i: bv(-1)),
                           ('llvm.trap', h_trap)]
    C['memcpy'] = h_memcpy
    C['memmove'] = h_memcpy
    C['memset'] = h_memset
    for n in ('printf', 'fprintf', 'puts', 'fflush', 'bfdev_log_print'):
        C[n] = nop
    C['abort'] = h_trap
    C['exit'] = h_trap


def h_trap(ex, st, args, inst):
    if not ex.dry:
        ex.prove(st, z3.BoolVal(False), 'abort-not-reached@%s' % st.fr.fn.name)
    raise PathEnd()


def h_fshl(ex, st, a, i):
    w = a[0].size()
    s = z3.URem(a[2], bv(w, w))
    return S(z3.Extract(2 * w - 1, w, z3.Concat(a[0], a[1]) << z3.ZeroExt(w, s)))


def h_fshr(ex, st, a, i):
    w = a[0].size()
    s = z3.URem(a[2], bv(w, w))
    return S(z3.Extract(w - 1, 0, z3.LShR(z3.Concat(a[0], a[1]), z3.ZeroExt(w, s))))


def popcount(x):
    w = x.size()
    r = bv(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return r


def ctz(x):
    w = x.size()
    r = bv(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == 1, bv(i, w), r)
    return r


def clz(x):
    w = x.size()
    r = bv(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, bv(w - 1 - i, w), r)
    return r


def bswap(x):
    w = x.size()
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])


def h_ctpop(ex, st, a, i):
    return S(popcount(a[0]))


def h_ctlz(ex, st, a, i):
    if ex.ub and len(a) > 1 and z3.is_true(S(a[1])):
        # the result for 0 is poison: an arbitrary value that nothing may depend on
        return S(If(a[0] == 0, fresh('poison', a[0].size()), clz(a[0])))
    return S(clz(a[0]))


def h_cttz(ex, st, a, i):
    if ex.ub and len(a) > 1 and z3.is_true(S(a[1])):
        # the result for 0 is poison: an arbitrary value that nothing may depend on
        return S(If(a[0] == 0, fresh('poison', a[0].size()), ctz(a[0])))
    return S(ctz(a[0]))


def h_bswap(ex, st, a, i):
    return S(bswap(a[0]))


def h_ovf(kind):
    def h(ex, st, a, inst):
        x, y = a
        if kind == 'umul' and ex.nl is not None and (x.eq(ex.nl) or y.eq(ex.nl)):
            q = x if y.eq(ex.nl) else y
            ex.nl_term(st, 'm', q)
            return [ex.mulE(q), ex.ovfE(q)]
        if kind == 'uadd':
            return [S(x + y), S(Not(z3.BVAddNoOverflow(x, y, False)))]
        if kind == 'usub':
            return [S(x - y), S(ULT(x, y))]
        if kind == 'umul':
            return [S(x * y), S(Not(z3.BVMulNoOverflow(x, y, False)))]
        if kind == 'sadd':
            return [S(x + y), S(Not(And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))))]
        if kind == 'ssub':
            return [S(x - y), S(Not(And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))))]
        return [S(x * y), S(Not(And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))))]
    return h


def same_elem(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)


def elem_len(ex, st, n, E, what):
    """byte length n in units of E"""
    if not isinstance(E, int):
        if isinstance(n, Sc):
            return n.q
        if cval(n) == 0:
            return bv(0)
        if n.eq(E):
            return bv(1)
        raise Abort('length %s on strided region' % n)
    n = term(n)
    if E == 1:
        return n
    q = divide_term(n, E)
    if q is not None:
        sh = E.bit_length() - 1
        if (1 << sh) == E:
            ex.prove(st, z3.LShR(n, bv(sh)) == q if False else True, 'len')
        return S(z3.UDiv(n, bv(E))) if cval(n) is not None else S(z3.LShR(n, bv(E.bit_length() - 1)))
    if E & (E - 1) == 0:
        ex.prove(st, n & bv(E - 1) == 0, 'length-multiple-of-element(%s)@%s' % (what, st.fr.fn.name))
        return S(z3.LShR(n, bv(E.bit_length() - 1)))
    raise Abort('length in %d-byte elements' % E)


def range_ok(ex, st, p, n, what):
    """[p, p+n) inside its region; n in elements"""
    r = p.reg
    if r.id in st.freed and ex.free_checks:
        ex.prove(st, False, 'use-after-free(%s)%s' % (r.name, what))
    if ex.ub:
        ex.prove(st, Or(n == 0, And(ULE(p.idx, r.size), ULE(n, r.size - p.idx))), 'range(%s)%s@%s' % (r.name, what, st.fr.fn.name))
    st.hint(r.dom, p.idx)


def h_memcpy(ex, st, a, inst):
    d, s, n = a[0], a[1], a[2]
    n = sext(n, 64) if n.size() != 64 else n
    if not isinstance(d, Ptr):
        d = Ptr(None, d)
    if not isinstance(s, Ptr):
        s = Ptr(None, s)
    d, s = ex.norm(d), ex.norm(s)
    c = cval(n)
    if c == 0:
        return d
    if d.reg is not None and s.reg is not None and d.reg.kind == 'arr' and s.reg.kind == 'arr' and same_elem(d.reg.elem, s.reg.elem) and d.sub == 0 and s.sub == 0:
        E = d.reg.elem
        m = elem_len(ex, st, n, E, 'copy')
        range_ok(ex, st, d, m, '.copy-dst')
        range_ok(ex, st, s, m, '.copy-src')
        if d.reg.const:
            ex.prove(st, m == 0, 'write-to-const(%s)' % d.reg.name)
        name = inst.a['callee'][1] if inst is not None and inst.a['callee'][0] == 'g' else ''
        if d.reg is s.reg and 'memcpy' in name and ex.ub and not (d.idx.eq(s.idx)):
            ex.prove(st, Or(m == 0, ULE(m, d.idx - s.idx) if False else And(Or(UGE(d.idx, s.idx + m), UGE(s.idx, d.idx + m)))), 'memcpy-no-overlap(%s)@%s' % (d.reg.name, st.fr.fn.name))
        ex.set_arr(st, d.reg, Copy(st.mem[d.reg.id], d.idx, m, st.mem[s.reg.id], s.idx))
        return d
    if c is not None and c <= 512:
        return copy_const(ex, st, d, s, c)
    if ex.copy_hook:
        r = ex.copy_hook(ex, st, d, s, n)
        if r is not None:
            return r
    raise Abort('memcpy %s <- %s len %s in %s' % (d, s, n, st.fr.fn.name))


Ex.copy_hook = None


def copy_const(ex, st, d, s, c):
    # cell-structured copy
    if s.reg is not None and s.reg.kind == 'cells' and cval(s.off) is not None:
        o0 = cval(s.off)
        src = st.mem[s.reg.id]
        items = [(o - o0, sz, v) for o, (sz, v) in sorted(src.items()) if o >= o0 and o + sz <= o0 + c]
        if d.reg is not None and d.reg.kind == 'cells' and cval(d.off) is not None:
            dst = dict(st.mem[d.reg.id])
            do = cval(d.off)
            ex.split_cells(dst, do, c)
            for o, sz, v in items:
                dst[do + o] = (sz, v)
                if st.writes is not None:
                    st.writes.setdefault(('cell', d.reg.id, do + o), []).append((sz, v))
            st.mem[d.reg.id] = dst
            return d
        if d.reg is not None and d.reg.kind == 'arr':
            E = d.reg.elem
            range_ok(ex, st, d, bv((c + E - 1) // E), '.copy-dst')
            for o, sz, v in items:
                ex.arr_store(st, ex.ptr_add(d, bv(o)), term(v), sz)
            return d
    if d.reg is not None and s.reg is not None and s.reg.kind == 'arr':
        E = s.reg.elem
        range_ok(ex, st, s, bv((s.sub + c + E - 1) // E), '.copy-src')
        step = E if c % E == 0 and s.sub == 0 else 1
        vals = []
        for o in range(0, c, step):
            q = ex.ptr_add(s, bv(o))
            vals.append((o, ex.arr_load(st, q, step)))
        if d.reg.kind == 'arr':
            DE = d.reg.elem
            range_ok(ex, st, d, bv((d.sub + c + DE - 1) // DE), '.copy-dst')
            if DE > step:
                k = DE // step
                nv = []
                for i in range(0, len(vals) - len(vals) % k, k):
                    nv.append((vals[i][0], S(z3.Concat(*[v for _, v in reversed(vals[i:i + k])]))))
                nv += vals[len(vals) - len(vals) % k:]
                vals = nv
        for o, v in vals:
            q = ex.ptr_add(d, bv(o))
            if d.reg.kind == 'arr':
                ex.arr_store(st, q, v, v.size() // 8)
            else:
                ex.store(st, q, v, ('i', v.size()))
        return d
    if d.reg is None and s.reg is not None and s.reg.kind == 'cells' and cval(s.off) is not None and ex.raw_struct:
        tag = d.tag[0] if d.tag else ex.raw_struct
        base = d.base if d.tag else d.off
        o1 = d.tag[1] if d.tag else 0
        for o, sz, v in items:
            ex.store(st, Ptr(None, base + bv(o1 + o), tag=(tag, o1 + o), base=base), v, ('i', sz * 8))
        return d
    if (d.reg is None or d.reg.kind == 'cells') and ex.struct_copy_hook:
        return ex.struct_copy_hook(ex, st, d, s, c)
    raise Abort('const copy %s <- %s (%d)' % (d, s, c))


Ex.struct_copy_hook = None
Ex.raw_struct = None


def h_memset(ex, st, a, inst):
    d, v, n = a[0], a[1], a[2]
    n = sext(n, 64) if n.size() != 64 else n
    if not isinstance(d, Ptr):
        d = Ptr(None, d)
    d = ex.norm(d)
    b = S(z3.Extract(7, 0, v))
    c = cval(n)
    if c == 0:
        return d
    if d.reg is None:
        if ex.memset_hook:
            r = ex.memset_hook(ex, st, d, b, n)
            if r is not None:
                return r
        raise Abort('memset raw')
    if d.reg.kind == 'arr':
        E = d.reg.elem
        m = elem_len(ex, st, n, E, 'fill')
        range_ok(ex, st, d, m, '.fill')
        if d.sub:
            raise Abort('memset sub')
        val = b if E == 1 else S(z3.Concat(*([b] * E)))
        ex.set_arr(st, d.reg, Fill(st.mem[d.reg.id], d.idx, m, val))
        return d
    if c is None or cval(d.off) is None:
        raise Abort('memset symbolic on cells')
    do = cval(d.off)
    if isinstance(d.reg.size, int) and do + c > d.reg.size:
        ex.prove(st, False, 'bounds-fill(%s)' % d.reg.name)
    dst = dict(st.mem[d.reg.id])
    lay = ex.cell_layout.get(d.reg.id)
    if lay is None:
        # keep existing cell shapes when they tile the range, else bytes
        shape = [(o, sz) for o, (sz, _) in sorted(dst.items()) if o >= do and o + sz <= do + c]
        if sum(sz for _, sz in shape) != c:
            k = do
            shape = []
            while k < do + c:
                step = 8 if k % 8 == 0 and k + 8 <= do + c else 4 if k % 4 == 0 and k + 4 <= do + c else 1
                shape.append((k, step))
                k += step
    else:
        shape = [(o, sz) for o, sz in lay if o >= do and o + sz <= do + c]
    ex.split_cells(dst, do, c)
    for o, sz in shape:
        val = S(z3.Concat(*([b] * sz))) if sz > 1 else b
        dst[o] = (sz, val)
        if st.writes is not None:
            st.writes.setdefault(('cell', d.reg.id, o), []).append((sz, val))
    st.mem[d.reg.id] = dst
    return d


Ex.memset_hook = None
Ex.cell_layout = {}
Ex.top_depth = None
