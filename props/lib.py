"""Shared contracts and helpers for the proof tasks."""
import z3
from vcg.sym import *
from vcg import sym


def fld(mod, sname, idx):
    return mod.offset(mod.resolve(('named', sname)), idx)


def offs(mod, sname):
    """byte offsets of the top-level fields of a struct"""
    r = mod.resolve(('named', sname))
    return [mod.offset(r, i) for i in range(len(r[2]))]


def alloc_contracts(ex, make, can_fail=True, names=('bfdev_malloc', 'bfdev_zalloc'), on_free=None, realloc=None):
    """malloc/zalloc: NULL, or a fresh block described by make(ex, st, size, zero)"""
    ex.assumed.add('allocator contract: bfdev_malloc/zalloc/realloc return NULL or a fresh block of the requested size, realloc keeps the common prefix and leaves the old block alone on NULL, free releases (port/allocator.h is the C library)')

    def h(zero):
        def f(ex, st, args, inst):
            size = args[1]
            out = []
            if can_fail:
                s2 = st.copy()
                s2.ghost['oom'] = True
                out.append((s2, NULL))
            p = make(ex, st, size, zero)
            out.append((st, p))
            return Forks(out)
        return f

    def free(ex, st, args, inst):
        p = args[1]
        if on_free:
            return on_free(ex, st, p)
        p = ex.norm(p) if isinstance(p, Ptr) else p
        if p.reg is not None:
            if p.reg.id in st.freed:
                ex.prove(st, False, 'double-free(%s)' % p.reg.name)
            ex.prove(st, p.offset() == 0, 'free-of-block-start')
            st.freed = st.freed | {p.reg.id}
        return None
    ex.contracts['bfdev_malloc'] = h(False)
    ex.contracts['bfdev_zalloc'] = h(True)
    ex.contracts['bfdev_free'] = free
    if realloc:
        ex.contracts['bfdev_realloc'] = realloc


def pow2(m):
    """m = 2^k - 1"""
    return m & (m + 1) == 0


def umin(a, b):
    return If(ULT(a, b), a, b)


def umax(a, b):
    return If(ULT(a, b), b, a)
