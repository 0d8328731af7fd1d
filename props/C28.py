"""Reference counts: every operation, with other threads acting between its atomic steps."""
from .lib import *
TU = '/verif/harness/tu_refcnt.c'
HARNESS = dict(src='h_C28.c', what='all operations on every kind of count, and eight threads dropping shared references', bound='1.6 million single operations, 320 threaded rounds', cflags=['-pthread'])
BOUNDED = 'nothing beyond concrete re-checks; the threaded rounds sample schedules'
ASSUMPTIONS = ['each __sync builtin is one atomic step; other threads may set the count to anything between two such steps', 'count plus operand stays representable (the type does not saturate; see DESIGN.md)']


def ops(T):
    m = T.mod(TU)
    for n in ('add', 'inc', 'fetch_inc', 'sub', 'sub_test', 'fetch_sub', 'dec', 'dec_test', 'fetch_dec', 'fetch_dec_test',
              'addnz', 'addnz_test', 'fetch_addnz', 'incnz', 'incnz_test', 'fetch_incnz', 'fetch_incnz_test'):
        ex = T.ex(m)
        ex.merge = False
        st = State()
        R = ex.region(st, 'cells', 'ref', bv(8), content={0: (8, fresh('count'))})
        O = ex.region(st, 'cells', 'old', bv(8), content={0: (8, fresh('o'))})
        k = fresh('nr') if ('add' in n or 'sub' in n) else bv(1)
        lim = bv(1 << 61)
        ex.inputs['nr'] = k
        st.ghost['at'] = bv(0)
        st.ghost['steps'] = 0

        def interfere(ex, st, p, R=R):
            v = fresh('now')
            st.assume(v < lim, v > -lim)
            st.mem[R.id] = {0: (8, v)}
            st.ghost['at'] = v
        ex.interfere = interfere
        st.assume(k < lim, k > -lim)
        r_init = term(ex.cells_get(st, R, 0))
        st.assume(r_init < lim, r_init > -lim)
        ex.contracts['bfdev_refcnt_report'] = lambda ex, st, args, inst: None
        nz = 'nz' in n

        def inv(ex, st, L):
            v = term(L['prev'])
            return [v < lim, v > -lim]
        if nz:
            fn = 'bfdev_refcnt_fetch_addnz_test'
            ex.loops[(fn, 0)] = LoopSpec(inv=inv, ghosts=['at'])

        def done(s, r, ex=ex, R=R, O=O, k=k, n=n, nz=nz):
            at, now = s.ghost['at'], term(ex.cells_get(s, R, 0))
            old = term(ex.cells_get(s, O, 0))
            if nz:
                first = term(s.mem[R.id][0][1])
                # either the atomic step moved the count from a nonzero value, or a zero was seen
                if 'fetch' in n:
                    ex.prove(s, Or(old == 0, And(old == at, at != 0, now == at + k)), 'adds in one step to the nonzero count it reports, or sees zero')
                if 'test' in n:
                    t = r if z3.is_bool(r) else r != 0
                    ex.prove(s, Imp(Not(t), And(at != 0, now == at + k)), 'success means one step from a nonzero count')
                    if 'fetch' in n:
                        ex.prove(s, t == (old == 0), 'refuses exactly when the count was seen zero')
                return
            d = k if ('add' in n or 'inc' in n) else -k
            ex.prove(s, now == at + d, 'changes the count by exactly the operand')
            if 'fetch' in n:
                ex.prove(s, old == at, 'reports the previous count')
            if 'test' in n:
                t = r if z3.is_bool(r) else r != 0
                ex.prove(s, t == (now == 0), 'reports release exactly when this step reaches zero')
        args = [Ptr(R)] + ([k] if ('add' in n or 'sub' in n) else []) + ([Ptr(O)] if 'fetch' in n else [])
        ex.run(st, 'v_' + n, args, done)


def alone(T):
    """without other threads: addnz is exact, and never revives"""
    m = T.mod(TU)
    for n in ('addnz', 'addnz_test', 'fetch_addnz', 'incnz', 'incnz_test', 'fetch_incnz', 'fetch_incnz_test'):
        ex = T.ex(m)
        st = State()
        c0 = fresh('count')
        R = ex.region(st, 'cells', 'ref', bv(8), content={0: (8, c0)})
        O = ex.region(st, 'cells', 'old', bv(8), content={0: (8, fresh('o'))})
        k = fresh('nr') if 'add' in n else bv(1)
        ex.inputs.update(nr=k, count=c0)
        lim = bv(1 << 61)
        st.assume(k < lim, k > -lim, c0 < lim, c0 > -lim)
        ex.contracts['bfdev_refcnt_report'] = lambda ex, st, args, inst: None
        ex.loops[('bfdev_refcnt_fetch_addnz_test', 0)] = LoopSpec(inv=lambda ex, st, L, R=R, c0=c0: [
            term(ex.cells_get(st, R, 0)) == c0, term(L['prev']) == c0])

        def done(s, r, ex=ex, R=R, O=O, k=k, n=n, c0=c0):
            now = term(ex.cells_get(s, R, 0))
            ex.prove(s, now == If(c0 == 0, c0, c0 + k), 'adds the operand unless the count is zero')
            if 'test' in n:
                t = r if z3.is_bool(r) else r != 0
                ex.prove(s, t == (c0 == 0), 'reports a dead count')
            if 'fetch' in n:
                ex.prove(s, term(ex.cells_get(s, O, 0)) == c0, 'reports the previous count')
        ex.run(st, 'v_' + n, [Ptr(R)] + ([k] if 'add' in n else []) + ([Ptr(O)] if 'fetch' in n else []), done)


TASKS = [('every operation under interference', ops), ('conditional add alone', alone)]
