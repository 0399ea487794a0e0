"""C26: the stages of a run and the files they touch."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['the methods of the search object do what their own properties say (C02, C06-C08, C11, C12, C14-C16, C23); here only '
               'which of them are called, in which order and with which arguments, and which files are opened',
               'pickle.dump and pickle.load write and read an object to and from the given open file only',
               'an interruption of the third stage arrives while a method of the search object runs',
               'a folder of the name of the results does not exist yet (one run per minute)',
               'time.strftime gives a non-empty text without a slash',
               'os.path.join and os.path.split are those of POSIX; os.path.isdir is a function of the file system',
               'generate_latex writes only files of the given name (pylatex)']
C, Q = 'configfile:', 'main:'
STAGES = ['find_clicks', 'refine_clicks_with_const_num_of_iters', 'filter_uniq_params', 'filter_only_exp_convergence',
          'filter_clicks_by_approach_type', 'refine_clicks_with_convergence_info', 'refine_clicks_with_convergence_info',
          'filter_uniq_params', 'filter_pos_integer_roots_numerators', 'export_to_csv', 'get_results_as_eqns', 'generate_latex']
INTS = ('i', 'hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations', 'first_filtering_precision',
        'second_filtering_max_num_of_iterations', 'second_filtering_precision', 'third_filtering_max_num_of_iterations',
        'third_filtering_precision')


def run(V):
    In, M, E = V.I, V.M, V.E
    V.expected_covers = []
    PARSABLE = z3.Function('PARSABLE_TEXT', U, S)
    M.handlers['setting'] = lambda o, nm: z3.Function('TEXT', U, S)(o.term) if nm == '__str__' else None
    M.handlers['duration'] = lambda o, nm: z3.Function('DURATION', U, S)(o.term) if nm == '__str__' else None

    def same(a, b):
        if is_term(a) and is_term(b):
            return to_term(a) == to_term(b)
        if is_term(a) or is_term(b):
            a, b = (x if is_term(x) else z3.StringVal(x) if isinstance(x, str) else z3.IntVal(x) for x in (a, b))
            return a == b
        if isinstance(a, SV) and isinstance(b, SV):
            return a.term == b.term
        return z3.BoolVal(a is b or (type(a) in (str, int, bool, type(None)) and a == b))

    def main(op, const):
        In.module('main')
        legal = [k for k, _ in M.dict_items(V.get(C + 'CONFIG_PARAMS_TYPES'))]
        path = V.str('config_file')
        vals = {}
        for k in legal:
            vals[k] = V.str(k) if k in ('hashtable_file', 'const', 'hashtable_file_operation') else V.int(k) if k in INTS else \
                V.bool(k) if k in ('gen_hashtable_only', 'print_surprising_nonexp_contfracs') else \
                SV(z3.Const('value_' + k, U), ('obj', 'setting'))
        if op is None:
            V.assume(z3.And(*[vals['hashtable_file_operation'] != o for o in ('use', 'expand', 'generate')]))
        else:
            vals['hashtable_file_operation'] = op
        if const is None:
            names = [q for q, _ in CONSTS]
            V.assume(z3.And(*[vals['const'] != q for q in names]))
        else:
            vals['const'] = const
        log, files = [], []
        third = [False]
        interrupted = [False]
        table = {'exists': None}
        plain = []
        paths = Texts(plain)

        def interrupt(nm):
            if third[0] and not interrupted[0]:
                if In.truth(V.bool(E.fresh_name('interrupt'))):
                    interrupted[0] = True
                    third[0] = False
                    In.raise_('KeyboardInterrupt')

        def method(nm):
            real = In.getattr(V.get('enum_params:MITM'), nm)
            real = getattr(real, 'f', real)

            def call(I_, a, kw):
                d = I_.bind_args(real, list(a), kw)
                d = dict((q, v) for q, v in d.items() if q != 'self')
                if nm == 'get_filtered_params':
                    interrupt(nm)
                    return V.seq(E.fresh_name('left'), 'any')
                log.append((nm, d))
                if nm == 'refine_clicks_with_convergence_info' and sum(1 for q, _ in log if q == nm) == 2:
                    third[0] = True
                if nm == 'export_to_csv':
                    third[0] = False
                    files.append(('csv', d['filename']))
                if nm == 'get_results_as_eqns':
                    return SV(z3.Const('equations', U), 'any')
                interrupt(nm)
                return None
            return Native(nm, call)
        reals = V.get('enum_params:MITM').ns
        search = VClass('search object', [M.builtins['object']], dict(
            (q, method(q)) for q, f in reals.items() if isinstance(f, VFunc) and not q.startswith('__')))

        class Entries:
            def vsetitem(self, I_, k, v):
                log.append(('store', {'key': k}))
        loaded, made = VObj(search, {'dec_hashtable': Entries()}), VObj(search, {'dec_hashtable': Entries()})

        def construct(I_, a, kw):
            f = reals['__init__']
            d = I_.bind_args(f, [None] + list(a), kw)
            log.append(('__init__', dict((q, v) for q, v in d.items() if q != 'self')))
            return made
        filecls = VClass('file', [M.builtins['object']], {
            '__enter__': Native('__enter__', lambda I_, a, kw: a[0]),
            '__exit__': Native('__exit__', lambda I_, a, kw: I_.setattr(a[0], 'open', False)),
            'close': Native('close', lambda I_, a, kw: I_.setattr(a[0], 'open', False))})

        def open_(I_, a, kw):
            d = bind(I_, 'open', ['file', 'mode'], {'mode': 'r'}, a, kw)
            need(I_, isinstance(d['mode'], str), 'open')
            files.append(('open ' + d['mode'], d['file']))
            return VObj(filecls, {'name': d['file'], 'mode': d['mode'], 'open': True})

        def load(I_, a, kw):
            need(I_, isinstance(a[0], VObj) and a[0].attrs['open'] and a[0].attrs['mode'] == 'rb', 'pickle.load')
            log.append(('load', {'file': a[0].attrs['name']}))
            return loaded

        def dump(I_, a, kw):
            need(I_, isinstance(a[1], VObj) and a[1].attrs['open'] and a[1].attrs['mode'] == 'wb', 'pickle.dump')
            log.append(('dump', {'file': a[1].attrs['name'], 'object': a[0]}))

        def isdir(I_, a, kw):
            p = a[0]
            need(I_, isinstance(p, str) and p.strip('/') == 'results', 'isdir of the results folder')
            if any(q == 'mkdir' and x == 'results' for q, x in files):
                return True
            if table['exists'] is None:
                table['exists'] = I_.truth(V.bool('results_exists'))
            return table['exists']

        def mkdir(I_, a, kw):
            files.append(('mkdir', a[0]))

        def strftime(I_, a, kw):
            t = E.str('time') if hasattr(E, 'str') else z3.String(E.fresh_name('time'))
            plain.append(t)
            E.ctx.assume(z3.And(z3.Length(t) > 0, z3.Not(z3.Contains(t, '/'))))
            return t

        def init(I_, a, kw):
            d = bind(I_, 'ConfigParser', ['self', 'configfile'], {'configfile': None}, a, kw)
            if d['configfile'] is None:
                I_.setattr(d['self'], 'c26', VDict())
            else:
                V.prove('the given configuration is read', same(d['configfile'], path))
                I_.setattr(d['self'], 'config', VDict([[q, vals[q]] for q in legal]))

        def set_(I_, a, kw):
            d = bind(I_, 'set', ['self', 'section', 'option', 'value'], {}, a, kw)
            need(I_, d['section'] == 'Setup' and isinstance(d['option'], str), 'section Setup')
            M.dict_set(d['self'].attrs['c26'], d['option'], d['value'])

        def write(I_, a, kw):
            need(I_, isinstance(a[1], VObj) and a[1].attrs['open'] and a[1].attrs['mode'] in ('w', 'wt'), 'write')
            log.append(('config', {'file': a[1].attrs['name'], 'values': dict(M.dict_items(a[0].attrs['c26']))}))

        def latex(I_, a, kw):
            f = V.get('latex:generate_latex')
            d = I_.bind_args(f, list(a), kw)
            files.append(('latex', d[f.node.args.args[0].arg]))
            log.append(('generate_latex', dict((('file', 'equations')[i], d[x.arg]) for i, x in enumerate(f.node.args.args[:2]))))
        base = M.modules['configparser'].ns['ConfigParser'].ns
        texts = {}

        def text_of(I_, a, kw):
            v = a[0]
            if not any(v is x for x in vals.values()):
                I_.unsup('the text of another value than a setting')
            k = [q for q in legal if vals[q] is v or (type(vals[q]) is str and vals[q] is v)][0]
            t = z3.String('text of ' + k)
            texts[k] = t
            return t
        ns = In.module('main').ns
        osp = M.modules['os.path'].ns
        was = dict(osp), dict(M.modules['os'].ns), dict(M.modules['time'].ns), dict(base), ns.get('open'), dict(In.module('dill').ns)
        stubs = {C + 'ConfigParser.__init__': init, C + 'ConfigParser.set': set_, C + 'config_val_to_str': text_of,
                 C + 'ConfigParser.get_config': lambda I_, a, kw: a[0].attrs['config'], 'latex:generate_latex': latex}
        base.update(add_section=Native('add_section', lambda I_, a, kw: None), write=Native('write', write))
        osp.update(join=Native('join', paths.join), split=Native('split', paths.split), isdir=Native('isdir', isdir),
                   dirname=Native('dirname', lambda I_, a, kw: paths.split(I_, a, kw)[0]),
                   basename=Native('basename', lambda I_, a, kw: paths.split(I_, a, kw)[1]))
        M.modules['os'].ns['mkdir'] = Native('os.mkdir', mkdir)
        M.modules['time'].ns['strftime'] = Native('strftime', strftime)
        In.module('dill').ns.update(load=Native('load', load), dump=Native('dump', dump))
        In.module('datetime').ns['timedelta'] = Native('timedelta', lambda I_, a, kw: SV(z3.Const(E.fresh_name('t'), U), ('obj', 'duration')))
        ns['open'] = Native('open', open_)
        en = In.module('enum_params').ns
        mitm = en['MITM']
        en['MITM'] = Native('MITM', construct)
        In.stubs.update(stubs)
        try:
            bad, r = V.raises(lambda: V.call(Q + 'main', path))
        finally:
            en['MITM'] = mitm
            for q in stubs:
                del In.stubs[q]
            for d, w in zip((osp, M.modules['os'].ns, M.modules['time'].ns, base), was):
                d.clear()
                d.update(w)
            In.module('dill').ns.clear()
            In.module('dill').ns.update(was[5])
            if was[4] is None:
                ns.pop('open', None)
            else:
                ns['open'] = was[4]
        names = [q for q, _ in log]
        if op is None or const is None:
            V.prove('an unknown operation or constant is refused with ValueError', bad and r.cls.name == 'ValueError')
            V.prove('nothing is done', not log)
            V.prove('nothing is touched', not files)
            V.cover('done')
            return
        V.prove('no error', not bad)
        arg = lambda nm, j=0: [d for q, d in log if q == nm][j]
        n_load, n_build, n_dump = names.count('load'), names.count('build_hashtable'), names.count('dump')
        V.prove('a table is loaded exactly when it is used or expanded', n_load == int(op in ('use', 'expand')))
        if n_load:
            V.prove('the configured table is loaded', same(arg('load')['file'], vals['hashtable_file']))
        V.prove('a new table is made exactly when it is generated', names.count('__init__') == int(op == 'generate'))
        V.prove('the settings are redefined exactly when the table is expanded', names.count('redefine_settings') == int(op == 'expand'))
        V.prove('the table is built exactly when it is generated or expanded', n_build == int(op != 'use'))
        V.prove('the table is saved exactly when it was built', n_dump == int(op != 'use'))
        ok = True
        if op != 'use' and n_build == n_dump == 1 and len([q for q in names if q in ('__init__', 'redefine_settings')]) == 1:
            b = arg('build_hashtable')
            V.prove('the configured range of the first polynomials', same(b['range_a'], vals['a_coeffs_range']))
            V.prove('the configured range of the second polynomials', same(b['range_b'], vals['b_coeffs_range']))
            s = arg('__init__' if op == 'generate' else 'redefine_settings')
            V.prove('the configured functions', same(s['postproc_funcs_filter'], vals['postproc_funcs_filter']))
            V.prove('the configured precision of the table', same(s['hashtable_prec'], vals['hashtable_precision']))
            V.prove('the configured polynomials', same(s['ab_poly_class'], vals['ab_polys_type']))
            V.prove('the configured special parameters', same(s['ab_poly_special_params'], vals['ab_polys_special_params']))
            V.prove('integers are dropped, 50 digits', s['trunc_integer'] is True and type(s['prec']) is int and s['prec'] == 50)
            P = 'postprocfuncs:'
            V.prove("the functions' tables", s['postproc_funcs'] is V.get(P + 'EVALUATED_POSTPROC_FUNCS') and
                    s['postproc_funcs_text'] is V.get(P + 'POSTPROC_FUNCS') and
                    s['postproc_funcs_text_inverse'] is V.get(P + 'INVERSE_POSTPROC_PAIRS') and
                    s['postproc_funcs_latex'] is V.get(P + 'POSTPROC_FUNCS_LATEX'))
            V.prove('the target of the run', names.index('build_hashtable') > names.index('__init__' if op == 'generate' else 'redefine_settings'))
            if op == 'generate':
                V.prove('the configured depth', same(s['num_of_iterations'], vals['hashtable_num_of_iterations']))
            V.prove('it is saved after it was built', names.index('dump') > names.index('build_hashtable'))
            V.prove('to the configured file', same(arg('dump')['file'], vals['hashtable_file']))
            V.prove('the table that was built', arg('dump')['object'] is (made if op == 'generate' else loaded))
        table_files = [f for f in files if f[0] in ('open rb', 'open wb')]
        V.prove('the table is opened only to load or save it', len(table_files) == n_load + n_dump and
                [q for q, _ in table_files].count('open wb') == n_dump)
        for q, f in table_files:
            V.prove('only the configured table', same(f, vals['hashtable_file']))
        rest = [(q, d) for q, d in log if q not in ('load', 'dump', '__init__', 'redefine_settings', 'build_hashtable', 'store')]
        others = [f for f in files if f not in table_files]
        if In.truth(vals['gen_hashtable_only']):
            V.prove('a table only: no stage', not rest)
            V.prove('a table only: no other file', not others)
            V.cover('table only')
            return
        last = max([names.index('load') if n_load else -1, names.index('dump') if n_dump else -1])
        V.prove('searched when the table is there', 'find_clicks' in names and names.index('find_clicks') > last)
        V.prove('the hashtable is kept until the search is over', 'reset_hashtable' not in names or
                names.index('reset_hashtable') > names.index('find_clicks'))
        seq = []
        for q, d in rest:
            if q not in ('reset_hashtable', 'config') and not (seq and seq[-1] == q == 'filter_uniq_params'):
                seq.append(q)
        if not interrupted[0]:
            ok = seq == STAGES
        else:
            j = len(seq) - 3
            ok = 7 <= j <= 9 and seq == STAGES[:j] + STAGES[-3:]
        V.prove('the stages' + (' of an interrupted run' if interrupted[0] else ''), ok)
        if not ok:
            return
        f = arg('find_clicks')
        V.prove('the configured left-hand sides', z3.And(same(f['lhs_classes'], vals['lhs_type']),
                                                         same(f['lhs_enumerator_params'], vals['lhs_params'])))
        for nm, j, s, it in (('refine_clicks_with_const_num_of_iters', 0, 'first', 'first_filtering_num_of_iterations'),
                             ('refine_clicks_with_convergence_info', 0, 'second', 'second_filtering_max_num_of_iterations'),
                             ('refine_clicks_with_convergence_info', 1, 'third', 'third_filtering_max_num_of_iterations')):
            d = arg(nm, j)
            V.prove('the %s accuracy' % s, same(d['accuracy'], vals[s + '_filtering_precision']))
            V.prove('the %s limit of iterations' % s, same(d['num_of_iterations'], vals[it]))
        w = arg('filter_clicks_by_approach_type')
        white = M.concrete_or_none(w['whitelist'])
        black = M.concrete_or_none(w['blacklist']) if w['blacklist'] is not None else []
        V.prove('the kept kinds of convergence', white is not None and sorted(white) == ['exp', 'super_exp'] and black == [])
        V.prove('the equations that were made', arg('generate_latex')['equations'].term.eq(z3.Const('equations', U)))
        V.prove('the names of the functions', arg('get_results_as_eqns')['postproc_funcs'] is V.get('postprocfuncs:POSTPROC_FUNCS'))
        # files
        made_dirs = [f for q, f in others if q == 'mkdir']
        V.prove('the results folder is made when there is none', (['results'] if not table['exists'] else []) ==
                [f for f in made_dirs if isinstance(f, str)])
        mine = [f for f in made_dirs if not isinstance(f, str)]
        V.prove('a folder of its own', len(mine) == 1 and len(plain) >= 1)
        if len(mine) != 1 or not plain:
            return
        d = mine[0]
        V.prove('in the results folder', z3.Or(*[d == paths.text(['results/', t]) for t in plain]))
        order = [q for q, _ in others]
        V.prove('nothing else is touched', sorted(q for q in order if q != 'mkdir') == ['csv', 'latex', 'open w'])
        V.prove('the folders are made first', order[:len(made_dirs)] == ['mkdir'] * len(made_dirs) and
                (not isinstance(made_dirs[-1], str)))
        for q, f in others:
            nm = {'csv': '/results.csv', 'latex': '/results', 'open w': '/config.ini'}.get(q)
            if nm:
                V.prove('file in the folder: results%s' % nm, same(f, z3.Concat(d, z3.StringVal(nm))))
        V.prove('one configuration is saved', names.count('config') == 1)
        c = arg('config')
        V.prove('in its file', same(c['file'], z3.Concat(d, z3.StringVal('/config.ini'))))
        V.prove('every setting is saved', sorted(c['values']) == sorted(legal))
        for k in legal:
            v = c['values'].get(k)
            V.prove('as the text of its value: ' + k, v is not None and is_term(v) and v.eq(z3.String('text of ' + k)))
        V.cover('interrupted' if interrupted[0] else 'done')

    SETTINGS = ('target_generator', 'target_name', 'postproc_funcs_filter', 'trunc_integer', 'hashtable_prec', 'postproc_funcs',
                'postproc_funcs_text', 'postproc_funcs_text_inverse', 'postproc_funcs_latex')

    def settings(old, new):
        E_ = 'enum_params:'
        log = []

        def make(I_, a, kw):
            d = bind(I_, 'DecimalHashTable', ['accuracy'], {}, a, kw)
            log.append(('made', d['accuracy']))
            return VObj(VClass('table', [M.builtins['object']], {'update_accuracy': Native('update_accuracy', update)}), {})

        def update(I_, a, kw):
            d = bind(I_, 'update_accuracy', ['self', 'accuracy'], {}, a, kw)
            log.append(('updated', d['accuracy']))

        def conf(t, cls):
            c = {'ab_poly_class': V.get('enum_poly_params:' + cls), 'prec': V.int('digits_' + t), 'trunc_integer': V.bool('trunc_' + t),
                 'hashtable_prec': V.int('precision_' + t), 'ab_poly_special_params': None}
            V.assume(z3.And(c['prec'] > 0, c['hashtable_prec'] > 0))
            if cls.startswith('Sparse'):
                c['ab_poly_special_params'] = (V.int('n_a_' + t), V.int('n_b_' + t))
            for q in SETTINGS:
                if q not in c:
                    c[q] = SV(z3.Const(q + '_' + t, U), 'any')
            return c
        c1, c2 = conf('old', old), conf('new', new)
        depth = V.int('depth')
        ns = In.module('enum_params').ns
        real = ns['DecimalHashTable']
        ns['DecimalHashTable'] = Native('DecimalHashTable', make)
        try:
            m = V.call(E_ + 'MITM', num_of_iterations=depth, **c1)
            for q in SETTINGS:
                V.prove('a new object has the setting ' + q, same(In.getattr(m, q), c1[q]))
            V.prove('no match yet', to_term(M.b_len(In.getattr(m, 'filtered_params'))) == 0)
            V.prove('a table of the wanted precision', len(log) == 1 and same(log[0][1], c1['hashtable_prec']))
            table = In.getattr(m, 'dec_hashtable')
            In.setattr(m, 'filtered_params', V.seq('matches', 'any', 'list'))
            V.method(m, 'redefine_settings', **c2)
            ref = V.call(E_ + 'MITM', num_of_iterations=depth, **c2)
        finally:
            ns['DecimalHashTable'] = real
        for q in SETTINGS:
            V.prove('the setting is redefined: ' + q, same(In.getattr(m, q), c2[q]))
        V.prove('no match is left', to_term(M.b_len(In.getattr(m, 'filtered_params'))) == 0)
        V.prove('the table is kept', In.getattr(m, 'dec_hashtable') is table)
        V.prove('its precision is updated once', len(log) == 3 and log[1][0] == 'updated' and same(log[1][1], c2['hashtable_prec']))
        V.prove('the working precision', same(In.getattr(In.getattr(In.module('mpmath'), 'mp'), 'dps'), c2['prec']))
        e, f = In.getattr(m, 'rhs_polys_enumer'), In.getattr(ref, 'rhs_polys_enumer')
        V.prove('the class of the polynomials', e.cls is f.cls is V.get('enum_poly_params:' + new))
        for q in sorted(set(e.attrs) | set(f.attrs)):
            if q not in ('len_factor_func', '_prec'):
                V.prove('polynomials as those of a new object: ' + q, q in e.attrs and q in f.attrs and V.eq(e.attrs[q], f.attrs[q]))
        V.cover('done')
    CL = ('BasicEnumPolyParams', 'IndexedParameterEnumPolyParams', 'SparseParameterEnumPolyParams')
    for old in CL:
        for new in CL:
            nm = 'enum_params:MITM.redefine_settings, %s to %s' % (old[:7], new[:7])
            V.scope(nm, lambda old=old, new=new: settings(old, new),
                    ['enum_params:MITM.__init__', 'enum_params:MITM.redefine_settings'] + ['enum_poly_params:%s.__init__' % c for c in (old, new)])
            V.expected_covers.append(nm + ': done')
    CONSTS = [(q, None) for q in ('e', 'pi', 'feig', 'euler_masch', 'percolation', 'zeta', 'phi', 'apery')]
    for op in ('use', 'expand', 'generate'):
        for const in ('feig', 'percolation', 'pi') if op == 'use' else ('pi',):
            nm = Q + 'main, %s, %s' % (op, const)
            V.scope(nm, lambda op=op, const=const: main(op, const), [Q + 'main', Q + 'Parameters'])
            V.expected_covers += [nm + ': ' + c for c in ('done', 'interrupted', 'table only')]
    V.scope(Q + 'main, unknown operation', lambda: main(None, 'pi'), [Q + 'main'])
    V.scope(Q + 'main, unknown constant', lambda: main('use', None), [Q + 'main'])
    V.expected_covers += [Q + 'main, unknown operation: done', Q + 'main, unknown constant: done']
