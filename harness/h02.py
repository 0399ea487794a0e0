from common import *
import cont_fracs
RULE = 'random histories of generate / add / reinitialize / classify operations (some ending in ZeroB), compared with a new object; non-trivial: at least 3 operations'


def state(cf):
    return cf.get_num_of_executed_iters(), tuple(cf.get_p_q())


def same_result(x, y):
    return (mpmath.isnan(x) and mpmath.isnan(y)) or x == y


def trial(h):
    r = h.r
    avoid = r.random() < 0.5
    logging = r.random() < 0.4
    a, b = rpolys(r), rpolys(r, lim=3)
    ops = []
    h.note(a=a, b=b, avoid=avoid, logging=logging, ops=ops)
    ca, cb = [list(p) for p in a], [list(p) for p in b]
    cf = cont_fracs.ContFrac(ca, cb, avoid_zero_b=avoid, logging=logging)
    other = cont_fracs.ContFrac([[1, 2]], [[3]], avoid_zero_b=False)
    other.gen_iterations(4)
    ostate = state(other), other.get_result()
    cur_n = 0          # None: undefined after an exception
    classified = False

    def fresh(n):
        f = cont_fracs.ContFrac([list(p) for p in a], [list(p) for p in b], avoid_zero_b=False, logging=logging)
        f.gen_iterations(n)
        return f

    def zero(n0, n):
        return avoid and any(at(b, i) == 0 for i in range(n0 + 1, n + 1))
    for _ in range(r.randint(2, 9)):
        op = r.choice(['gen', 'gen', 'add', 'add', 'reinit', 'class', 'genacc', 'slow'])
        if op == 'reinit':
            na = rpolys(r) if r.random() < 0.6 else None
            nb = rpolys(r, lim=3) if r.random() < 0.6 else None
            ops.append(('reinitialize', na, nb))
            kw = {}
            if r.random() < 0.5:
                cf.reinitialize(na, nb)
            else:
                if na:
                    kw['a_coeffs'] = na
                if nb:
                    kw['b_coeffs'] = nb
                cf.reinitialize(**kw)
            if na:
                a = [list(p) for p in na]
            if nb:
                b = [list(p) for p in nb]
            h.check(cf.get_approach_type_and_params()[0] == 'undefined', 'classification survives reinitialize')
            classified = False
            cur_n = None
            continue
        if op == 'class':
            info = ('exp', (mpf(r.randint(2, 9)), mpf(1)))
            ops.append(('classify', info))
            cf.set_approach_type_and_params(info)
            classified = True
            continue
        if op == 'slow':
            if r.random() < 0.8 or avoid:
                continue
            ops.append(('is_convergence_fast',))
            try:
                cf.is_convergence_fast(iters=40, initial_cutoff=10, iters_step=10)
            except Exception:
                pass
            cur_n = None
            continue
        n = r.choice([0, 1, 2, 3, 5, r.randint(0, 12)])
        acc = {}
        if op == 'genacc':
            acc = {'accuracy': mpf(10) ** -r.randint(1, 5)}
            if classified:
                continue
            op = 'gen'
        if op == 'add' and cur_n is None:
            continue
        start = 0 if op == 'gen' else cur_n
        ops.append((op, n) + tuple(acc.values()))
        expect_zero = zero(start, start + n)
        st, e = safe(cf.gen_iterations if op == 'gen' else cf.add_iterations, n, **acc)
        if st == 'exc':
            h.check(isinstance(e, cont_fracs.ZeroB) and expect_zero, '%s(%d) raised %r', op, n, e)
            cur_n = None
            continue
        h.check(not expect_zero, 'no ZeroB from %s(%d)', op, n)
        cur_n = start + n
        f = fresh(cur_n)
        h.check(state(cf) == state(f), '%s after the operations, %s for a new object', state(cf), state(f))
        h.check(cur_n == f.get_num_of_executed_iters(), 'iteration count')
        if cur_n:
            h.check(same_result(cf.get_result(), f.get_result()), 'result %r, new object %r', cf.get_result(),
                    f.get_result())
    # at the end: generating again is as good as a new object
    n = r.randint(1, 8)
    ops.append(('gen', n))
    if not zero(0, n):
        cf.gen_iterations(n)
        f = fresh(n)
        h.check(state(cf) == state(f) and same_result(cf.get_result(), f.get_result()),
                'after the history gen(%d) gives %s, a new object %s', n, state(cf), state(f))
    h.check((state(other), other.get_result()) == ostate, 'another object changed')
    h.trivial = len(ops) < 3
