from common import *
import gen_consts as G, enum_params, dill
RULE = 'every constant at random precisions, with and without setting it, and selected by name and index through a run; non-trivial: every trial'
with dps(400):
    TRUE = {'pi': +mpmath.pi, 'e': +mpmath.e, 'phi': +mpmath.phi, 'euler_masch': +mpmath.euler, 'apery': +mpmath.zeta(3),
            ('percolation', 0): 1 - 2 * mpmath.sin(mpmath.pi / 18), ('percolation', 1): 2 * mpmath.sin(mpmath.pi / 18)}
    for _n in range(2, 21):
        TRUE['zeta', _n] = +mpmath.zeta(_n)
# (no closed definition: the published leading digits)
FEIG = ['0.832367236905', '1.831258984937', '2.831509004740', '1.554618047064']
# digits the constants are given with
GIVEN = {'pi': 145, 'e': 145, 'phi': 98, 'euler_masch': 97, 'apery': 98}
FUN = {'pi': 'gen_pi_const', 'e': 'gen_e_const', 'phi': 'gen_phi_const', 'euler_masch': 'gen_euler_masch_const',
       'apery': 'gen_apery_const', 'percolation': 'gen_percolation_consts', 'zeta': 'gen_zeta_consts', 'feig': 'gen_feig_consts'}


def check_value(h, v, name, i, prec):
    if name == 'feig':
        h.check(abs(exact(v) - F(FEIG[i])) < F(1, 10 ** min(11, prec - 2)), '%s %s is %s', name, i, v)
        return
    t = TRUE[(name, i) if (name, i) in TRUE else name]
    d = min(GIVEN.get(name, 96), prec - 2)
    h.check(abs(exact(v) - exact(t)) < F(1, 10 ** d), '%s %s is %s at precision %d', name, i, v, prec)


class Stop(Exception):
    pass


def trial(h):
    r = h.r
    name = r.choice(sorted(FUN))
    i = {'percolation': lambda: r.randint(0, 1), 'zeta': lambda: r.randint(2, 20), 'feig': lambda: r.randint(0, 3)}.get(name, lambda: None)()
    if r.random() < 0.6:
        base, prec = r.choice([15, 30, 50, 80, 120, 150]), r.choice([None, None, 15, 40, 95, 145, 150])
        mp.dps = base
        h.note(constant=name, index=i, working_precision=base, requested=prec)
        f = getattr(G, FUN[name])
        if r.random() < 0.3 and prec is None:
            f(60, i) if i is not None else f(60)
            h.check(mp.dps == 60, 'precision 60 gives %d', mp.dps)
            mp.dps = base
        if i is not None:
            v = f(prec, i)
        else:
            v = f(prec) if prec is not None or r.random() < 0.5 else f()
        h.check(mp.dps == (prec or base), 'working precision %d', mp.dps)
        check_value(h, v, name, i, prec or base)
        return
    import main
    from h21 import genconf, write
    from h26 import FakeMITM
    opts, want = genconf(r, full=True)
    bad = r.random() < 0.1
    cname = r.choice(['tau', 'p', 'pie', 'zeta2']) if bad else name
    opts.update(const=cname, hashtable_file_operation='generate', hashtable_file='t.pkl', gen_hashtable_only='true')
    opts['i'] = str(i if i is not None else r.randint(0, 3))
    h.note(constant=cname, index=opts['i'])
    rec = []

    def dump(obj, f, *a, **k):
        rec.append(obj)
    with scratch(), patched((enum_params.MITM, lambda *a, **k: FakeMITM(rec, a, k)), (dill.dump, dump)):
        real = dill.dump
        dill.dump = dump
        try:
            write('c.ini', opts, r)
            mp.dps = 50
            st, e = safe(main.main, 'c.ini')
        finally:
            dill.dump = real
    if bad:
        h.check(st == 'exc', 'unknown constant %r is accepted', cname)
        h.check(not any(isinstance(c, tuple) and c[0] == 'build_hashtable' for c in rec), 'unknown constant %r: table is built', cname)
        return
    if st == 'exc':
        raise e
    made = [c for c in rec if isinstance(c, tuple) and c[0] == '__init__']
    h.check(len(made) == 1, 'calls %r', rec)
    gen = made[0][1]['target_generator']
    for prec in (50, 30, 90):
        mp.dps = prec
        v = gen()
        h.check(mp.dps == prec, 'working precision changed to %d', mp.dps)
        check_value(h, v, name, i, prec)
    h.check(str(made[0][1]['target_name']).startswith(name), 'target name %r', made[0][1]['target_name'])
