"""check.py <property> - decides one property: the contracts (pyvc) and, concurrently, the concrete side (PyPy).

Exit 0: every obligation was discharged and no failing input was found. Exit 1: VIOLATION line."""
import sys, os, signal, json, time, subprocess, tempfile, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
VT = 'python3-vt'
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
WORKERS, SECONDS, TRIALS = (4, 20, 20000) if TIER == 'quick' else (6, 240, 400000)
PROOF_SECONDS = 600 if TIER == 'quick' else 780
TRUSTED = ['pyvc: the verifier in /verif/pyvc (semantics of the Python subset, weakest preconditions by symbolic execution)',
           'z3 4.x (python binding) / cvc5 1.1.2', 'sympy-free polynomial normaliser in pyvc']


def start_harness(prop, tmp):
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONINTMAXSTRDIGITS='0', PYTHONHASHSEED='0', VERIF_REPO=REPO,
               OMP_NUM_THREADS='1', TMPDIR=tmp)
    for w in range(WORKERS):
        out = os.path.join(tmp, 'h%d.json' % w)
        cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'harness', 'run.py'), prop, str(SEED * 100 + w), str(SECONDS),
               str(TRIALS), out]
        err = open(os.path.join(tmp, 'h%d.err' % w), 'wb')
        procs.append((subprocess.Popen(cmd, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=tmp), out, err))
    return procs


def wait_harness(procs):
    res, crashes = [], []
    end = time.time() + SECONDS + 180
    for p, out, err in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.close()
        if os.path.exists(out):
            with open(out) as f:
                res.append(json.load(f))
        else:
            with open(err.name, 'rb') as f:
                crashes.append('exit %s: %s' % (p.returncode, f.read()[-1500:].decode('utf8', 'replace')))
    return res, crashes


def start_proof(prop, tmp):
    if not os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py')):
        return None
    out = os.path.join(tmp, 'proof.json')
    err = open(os.path.join(tmp, 'proof.err'), 'wb')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=REPO, VERIF_TIER=TIER,
               PROOF_SECONDS=str(PROOF_SECONDS - 40), PYVC_JOBS='4')
    cmd = [VT, os.path.join(HERE, 'pyvc', 'run.py'), prop, out]
    return subprocess.Popen(cmd, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=HERE,
                            start_new_session=True), out, err


def stop(p):
    """Ends the verifier and its workers."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def wait_proof(pr, found):
    p, out, err = pr
    try:
        # with a failing input at hand, the verifier only gets some more time to name the obligations
        p.wait(45 if found else PROOF_SECONDS)
    except subprocess.TimeoutExpired:
        stop(p)
    err.close()
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    with open(err.name, 'rb') as f:
        msg = f.read()[-2000:].decode('utf8', 'replace')
    return {'obligations': [{'name': prop_name(out) + 'verifier run', 'ok': False, 'backend': 'engine', 'secs': 0,
                             'detail': 'the verifier gave no answer (exit %s): %s' % (p.returncode, msg)}],
            'functions': [], 'assumptions': [], 'stats': {}, 'bounded': [], 'crashed': True}


def prop_name(_):
    return ''


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif_' + prop + '_')
    pr = None
    try:
        pr = start_proof(prop, tmp)
        hs = start_harness(prop, tmp)
        res, crashes = wait_harness(hs)
        proof = wait_proof(pr, any(r['bad'] for r in res)) if pr else None
    finally:
        if pr:
            stop(pr[0])
        shutil.rmtree(tmp, ignore_errors=True)
    bad = [r['bad'] for r in res if r['bad']]
    failed = [o for o in proof['obligations'] if not o['ok']] if proof else []
    if proof and not proof['obligations']:
        failed = [{'name': 'no obligation was generated', 'detail': '', 'backend': 'engine'}]
    replay = os.path.join('evidence', 'replay-%s.json' % prop)
    if os.path.exists(os.path.join(HERE, replay)):
        os.unlink(os.path.join(HERE, replay))
    violations = 0
    line = None
    if bad or failed or crashes:
        violations = len(failed) + len(bad) + (1 if crashes else 0)
        rep = {'property': prop, 'failed_obligations': failed, 'harness_crashes': crashes}
        if bad:
            rep.update(seed=bad[0]['seed'], message=bad[0]['message'], inputs=bad[0]['inputs'],
                       how='cd /verif/harness && %s run.py replay ../%s' % (PY, replay))
        with open(os.path.join(HERE, replay), 'w') as f:
            json.dump(rep, f, indent=1)
        line = 'VIOLATION property=%s replay=%s' % (prop, replay)
        if not bad:
            line += ' no-failing-input-found'
    evaluations = sum(r['evaluations'] for r in res)
    cov = {'evaluations': evaluations,
           'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in res),
           'skipped': sum(r['skipped'] for r in res),
           'rule': res[0]['rule'] if res else '', 'samples': (res[0]['samples'] if res else [])}
    assumptions = []
    level = 'exploration'
    if proof:
        level = 'proof'
        obs = proof['obligations']
        by = {}
        for o in obs:
            if o['ok']:
                by[o['backend']] = by.get(o['backend'], 0) + 1
        cov.update(obligations=len(obs), discharged=len([o for o in obs if o['ok']]),
                   checker_cmd='python3-vt pyvc/run.py %s out.json' % prop, trusted_base=TRUSTED + proof.get('trusted', []),
                   obligation_names=sorted(set(o['name'] for o in obs)), discharged_by=by,
                   functions_under_contract=proof['functions'], solver_seconds=proof['stats'].get('solver_time'),
                   covers=proof.get('covers'), engine=proof['stats'], bounded=proof.get('bounded'),
                   sources=proof.get('sources'))
        assumptions = proof['assumptions']
    cov['harness_note'] = ('the concrete side (evaluations) evaluates the postconditions on the real code for generated inputs: '
                           'bounded, never counted as proved; it supplies failing inputs')
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if line:
        for o in failed[:10]:
            print('failed obligation: %s [%s] %s' % (o['name'], o['backend'], o['detail'][:600]))
        for b in bad[:1]:
            print('failing input (trial seed %s): %s' % (b['seed'], b['message'][:1500]))
        for c in crashes[:1]:
            print('harness crash: ' + c[:1500])
        print(line)
        return 1
    print('%s holds: %s; %d concrete evaluations, %.1f s' % (
        prop, '%d obligations discharged' % len(proof['obligations']) if proof else 'bounded exploration',
        evaluations, time.time() - t0))
    return 0


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2].strip())
    return out


if __name__ == '__main__':
    sys.exit(main())
