from common import *
import inspect, dill
import enum_params, latex
REAL = enum_params.MITM
RULE = 'random configurations run with a recording search object in a scratch directory, interrupts at random steps of the third stage, and the settings of extended tables; non-trivial: every trial'


class FakeMITM:
    """Records every call with its arguments normalised by the signature of the real method."""
    def __init__(self, rec, a=None, k=None, interrupt=None):
        self.__dict__['rec'] = rec
        self.__dict__['interrupt'] = interrupt
        self.__dict__['left'] = [1, 2, 3]
        self.__dict__['dec_hashtable'] = {}
        if a is not None:
            b = inspect.signature(REAL.__init__).bind(None, *a, **k)
            b.apply_defaults()
            rec.append(('__init__', {n: v for n, v in b.arguments.items() if n != 'self'}))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = getattr(REAL, name)

        def call(*a, **k):
            b = inspect.signature(real).bind(None, *a, **k)
            b.apply_defaults()
            args = {n: v for n, v in b.arguments.items() if n != 'self'}
            if name == 'get_filtered_params':
                return list(self.left)
            self.rec.append((name, args))
            n = sum(1 for c in self.rec if c[0] == 'refine_clicks_with_convergence_info')
            if self.interrupt is not None and n >= 2:
                if self.interrupt == 0:
                    self.__dict__['interrupt'] = None
                    raise KeyboardInterrupt()
                self.__dict__['interrupt'] -= 1
            if name == 'export_to_csv':
                with open(args['filename'], 'w') as f:
                    f.write('csv')
            if name == 'get_results_as_eqns':
                return ['x_%d = 1' % i for i in self.left]
        return call


def tree():
    out = {}
    for d, ds, fs in os.walk('.'):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as fh:
                out[os.path.normpath(os.path.join(d, f))] = fh.read()
    return out


def run(h):
    import main
    from h21 import genconf, write, compare
    import configfile as C
    r = h.r
    opts, want = genconf(r, full=True)
    op = want['hashtable_file_operation']
    opts['hashtable_file'] = r.choice(['table.pkl', 'table_v3.pkl', 'tables/t.pkl'])
    stop = want['gen_hashtable_only'] if r.random() < 0.5 else want['gen_hashtable_only']
    if want['const'] == 'zeta':
        want['i'] = r.randint(2, 20)
    elif want['const'] in ('feig', 'percolation'):
        want['i'] = r.randint(0, 1)
    opts['i'] = str(want['i'])
    interrupt = r.choice([None, None, 0, 1, 2, 3])
    rec, saved, loaded, pdfs = [], [], [], []
    h.note(options=opts, interrupt=interrupt)

    def dump(obj, f, *a, **k):
        saved.append((obj, os.path.normpath(f.name), len(rec)))
        f.write(b'saved')

    def load(f, *a, **k):
        loaded.append((os.path.normpath(f.name), f.read()))
        return FakeMITM(rec, interrupt=interrupt)

    def generate_pdf(self, filepath=None, *a, **k):
        pdfs.append((filepath, self.dumps(), len(rec)))
        with open(filepath + '.tex', 'w') as f:
            f.write('tex')
    import pylatex
    with scratch(), patched((REAL, lambda *a, **k: FakeMITM(rec, a, k, interrupt=interrupt)), (dill.dump, dump), (dill.load, load)):
        import time
        real = dill.dump, dill.load, pylatex.Document.generate_pdf
        strftime, ticks = time.strftime, []
        # (the minute may change at any time)
        time.strftime = lambda *a: ticks.append(1) or '201126_%04d' % (1000 + len(ticks))
        dill.dump, dill.load, pylatex.Document.generate_pdf = dump, load, generate_pdf
        try:
            os.mkdir('tables')
            write('c.ini', opts, r)
            if op != 'generate' or r.random() < 0.5:
                for v in ('', '_v1', '_v12'):
                    for d in ('', 'tables/'):
                        for s in ('t', 'table'):
                            if r.random() < 0.5 or (op != 'generate' and v == '_v1'):
                                with open(d + s + v + '.pkl', 'w') as f:
                                    f.write('content of ' + d + s + v)
            if r.random() < 0.5:
                os.mkdir('results')
            table = os.path.normpath(C.ConfigParser(configfile='c.ini').get_config()['hashtable_file'])
            before = tree()
            mp.dps = 50
            st, e = safe(main.main, 'c.ini')
            after = tree()
            if st == 'exc':
                raise e
            names = [c[0] for c in rec]
            args = lambda n, k=0: [c[1] for c in rec if c[0] == n][k]
            # table
            h.check(len(loaded) == (op in ('use', 'expand')), 'loaded %r', loaded)
            if loaded:
                h.check(loaded[0][0] == table and loaded[0][1] == before[table], 'loaded %r instead of %r', loaded[0], table)
            h.check(names.count('__init__') == (op == 'generate'), 'constructed %d times', names.count('__init__'))
            h.check(names.count('build_hashtable') == (op != 'use'), 'built %d times', names.count('build_hashtable'))
            h.check(names.count('redefine_settings') == (op == 'expand'), 'redefined %d times', names.count('redefine_settings'))
            if op != 'use':
                b = args('build_hashtable')
                h.check(b['range_a'] == want['a_coeffs_range'] and b['range_b'] == want['b_coeffs_range'], 'built with %r', b)
                s = args('__init__' if op == 'generate' else 'redefine_settings')
                h.check(list(s['postproc_funcs_filter']) == want['postproc_funcs_filter'], 'functions %r', s['postproc_funcs_filter'])
                h.check(s['hashtable_prec'] == want['hashtable_precision'], 'hashtable precision %r', s['hashtable_prec'])
                h.check(s['ab_poly_class'] is want['ab_polys_type'], 'polynomials %r', s['ab_poly_class'])
                h.check(s['ab_poly_special_params'] == want['ab_polys_special_params'], 'special parameters %r', s['ab_poly_special_params'])
                h.check(s['trunc_integer'] is True and s['prec'] == 50, 'settings %r', s)
                import postprocfuncs as P
                h.check(s['postproc_funcs'] is P.EVALUATED_POSTPROC_FUNCS and s['postproc_funcs_text'] is P.POSTPROC_FUNCS and
                        s['postproc_funcs_latex'] is P.POSTPROC_FUNCS_LATEX, 'function tables')
                if op == 'generate':
                    h.check(s['num_of_iterations'] == want['hashtable_num_of_iterations'], 'depth %r', s['num_of_iterations'])
                h.check(len(saved) == 1 and saved[0][1] == table, 'saved %r instead of %r', [t[1] for t in saved], table)
                h.check('build_hashtable' in names[:saved[0][2]], 'saved before it was built')
                h.check(names.index('__init__' if op == 'generate' else 'redefine_settings') < names.index('build_hashtable'), 'order')
            else:
                h.check(not saved, 'saved %r', saved)
            changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
            if op != 'use':
                changed.discard(table)
            rest = [c for c in rec if c[0] not in ('__init__', 'build_hashtable', 'redefine_settings')]
            if stop:
                h.check(not rest, 'continues with %r', [c[0] for c in rest])
                h.check(not changed, 'touches %r', changed)
                return
            h.check(not rest[0][0].startswith(('reset', 'filter', 'refine')), 'starts with %s', rest[0][0])
            rest = [c for c in rest if c[0] != 'reset_hashtable']
            seq = []
            for n, a in rest:
                if not (seq and seq[-1] == n == 'filter_uniq_params'):
                    seq.append(n)
            full = ['find_clicks', 'refine_clicks_with_const_num_of_iters', 'filter_uniq_params', 'filter_only_exp_convergence',
                    'filter_clicks_by_approach_type', 'refine_clicks_with_convergence_info', 'refine_clicks_with_convergence_info',
                    'filter_uniq_params', 'filter_pos_integer_roots_numerators', 'export_to_csv', 'get_results_as_eqns']
            if interrupt is None:
                h.check(seq == full, 'stages %r', seq)
            else:
                k = len(seq) - 2
                h.check(7 <= k <= 9 and seq[:k] == full[:k] and seq[k:] == full[-2:], 'interrupted stages %r', seq)
            f = args('find_clicks')
            h.check(f['lhs_classes'] == want['lhs_type'] and f['lhs_enumerator_params'] == want['lhs_params'], 'searched with %r', f)
            a1, (a2, a3) = args('refine_clicks_with_const_num_of_iters'), [args('refine_clicks_with_convergence_info', k) for k in (0, 1)]
            for a, s, it in ((a1, 'first', 'first_filtering_num_of_iterations'), (a2, 'second', 'second_filtering_max_num_of_iterations'),
                             (a3, 'third', 'third_filtering_max_num_of_iterations')):
                h.check(a['accuracy'] == want[s + '_filtering_precision'] and a['num_of_iterations'] == want[it], '%s refinement with %r', s, a)
            w = args('filter_clicks_by_approach_type')
            h.check(set(w['whitelist'] or ()) == {'exp', 'super_exp'} and not w['blacklist'], 'convergence filter with %r', w)
            dirs = {os.path.dirname(c) for c in changed}
            h.check(len(dirs) == 1 and os.path.dirname(list(dirs)[0]) == 'results', 'touches %r', changed)
            d = list(dirs)[0]
            h.check({os.path.basename(c) for c in changed} == {'results.csv', 'results.tex', 'config.ini'}, 'touches %r', changed)
            h.check(os.path.normpath(args('export_to_csv')['filename']) == os.path.join(d, 'results.csv'), 'exported to %r', args('export_to_csv'))
            h.check(len(pdfs) == 1 and all(pdfs[0][1].count('x_%d = 1' % i) == 1 for i in (1, 2, 3)) and
                    pdfs[0][1].index('x_1 = 1') < pdfs[0][1].index('x_2 = 1') < pdfs[0][1].index('x_3 = 1'), 'document %r', pdfs)
            import postprocfuncs as P
            h.check(list(args('get_results_as_eqns')['postproc_funcs']) == P.POSTPROC_FUNCS, 'functions of the equations')
            cfg = C.ConfigParser(configfile=os.path.join(d, 'config.ini')).get_config()
            compare(h, cfg, want, 'saved configuration')
        finally:
            dill.dump, dill.load, pylatex.Document.generate_pdf = real
            time.strftime = strftime


def settings(h):
    """Settings of a real search object after it is redefined."""
    import enum_poly_params as epp
    r = h.r
    CL = [epp.BasicEnumPolyParams, epp.IndexedParameterEnumPolyParams, epp.SparseParameterEnumPolyParams]

    def conf():
        c = r.choice(CL)
        return dict(target_generator=r.choice([lambda: mpf(3), lambda: mpf(5)]), target_name=r.choice(['pi', 'e']),
                    postproc_funcs_filter=r.sample(range(24), 3), trunc_integer=r.random() < 0.5, hashtable_prec=r.randint(3, 14),
                    ab_poly_class=c, ab_poly_special_params=(r.randint(2, 4), r.randint(2, 4)) if c is CL[2] else None,
                    prec=r.choice([20, 40, 60]))
    c1, c2 = conf(), conf()
    depth = r.randint(1, 9)
    h.note(first=c1, second=c2, depth=depth)
    m = REAL(num_of_iterations=depth, **c1)
    m.dec_hashtable[mpf(1) / 7] = ['kept']
    m.filtered_params = [1]
    m.redefine_settings(**c2)
    h.check(mp.dps == c2['prec'], 'working precision %d', mp.dps)
    for k in ('target_generator', 'target_name', 'postproc_funcs_filter', 'trunc_integer', 'hashtable_prec'):
        h.check(getattr(m, k) == c2[k], '%s is %r', k, getattr(m, k))
    h.check(m.get_filtered_params() == [], 'matches %r', m.get_filtered_params())
    h.check(m.dec_hashtable.get(mpf(1) / 7) == ['kept'], 'entries were lost')
    ref = REAL(num_of_iterations=depth, **c2)
    ra, rb = [[[1, 3], [0, 2]]], [[[1, 2], [1, 3]]]
    (g1, l1), (g2, l2) = [x.rhs_polys_enumer.polys_generator(range_a=ra, range_b=rb) for x in (m, ref)]
    h.check(l1 == l2 and sorted(map(repr, g1)) == sorted(map(repr, g2)), 'enumerates other polynomials')
    m.dec_hashtable[mpf(2) / 7] = 1
    key = [k for k, v in m.dec_hashtable.items() if v == 1]
    h.check(key == [digits(F(2, 7), 30)[:c2['hashtable_prec'] + 2]], 'key %r', key)


def trial(h):
    if h.r.random() < 0.6:
        run(h)
    else:
        settings(h)
