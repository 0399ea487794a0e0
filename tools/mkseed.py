"""Development tool: makes /verif/seeded/<id>/ out of tools/seeds.py and confirms each planted bug in a scratch copy.
Usage: mkseed.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
BASE = '58b9031'
DEMO = '''#!/bin/sh
# run with the repository as the working directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
REPO=$PWD PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONINTMAXSTRDIGITS=0 SCRATCH=$work \\
    /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tests(r):
    """The stable tests that fail in the scratch copy."""
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONINTMAXSTRDIGITS='0', OPENBLAS_NUM_THREADS='1')
    env.pop('PYTHONPATH', None)
    sh('/opt/venv/bin/python -m pytest tests -q --tb=line -p no:cacheprovider --timeout=60 --continue-on-collection-errors '
       '-o junit_family=xunit2 --junitxml=../junit.xml', r, env=env)
    sh('/usr/bin/python3 /opt/vp/results.py out.json junit:junit.xml', os.path.dirname(r))
    res = json.load(open(os.path.join(os.path.dirname(r), 'out.json')))
    passed = set(res.get('passed', res.get('pass', [])))
    return 'tests ok' if stable <= passed else 'FAILED TESTS %s' % sorted(stable - passed)

def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        work = tempfile.mkdtemp(prefix='seed')
        try:
            sh('cp -a /repo %s/r' % work, '/')
            r = work + '/r'
            path = os.path.join(r, s['file'])
            src = open(path, newline='').read()
            edits = s['edits']
            bad = False
            for old, new in edits:
                if '\r\n' in src:
                    old = old.replace('\n', '\r\n') if '\r\n' not in old else old
                    new = new.replace('\n', '\r\n') if '\r\n' not in new else new
                if src.count(old) != 1:
                    print(s['id'], 'occurrences:', src.count(old), repr(old)); bad = True; break
                src = src.replace(old, new)
            if bad:
                continue
            open(path, 'w', newline='').write(src)
            diff = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE).stdout
            # the changed lines have to be the original repository's
            removed = [l[1:] for l in diff.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
            base = subprocess.run(['git', 'show', BASE + ':' + s['file']], cwd=r, stdout=subprocess.PIPE).stdout.decode().splitlines()
            notorig = [l for l in removed if l not in base]
            if not removed or len(notorig) == len(removed):
                print(s['id'], 'WARNING: not original lines', notorig)
            d = os.path.join('/verif/seeded', s['id'])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + '/patch.diff', 'wb').write(diff)
            open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            p1 = sh('sh %s/demo.sh' % d, r, timeout=300)
            t1 = tests(r)
            sh('git checkout -q -- ' + s['file'], r)
            p0 = sh('sh %s/demo.sh' % d, r, timeout=300)
            print(s['id'], 'clean', p0.returncode, 'patched', p1.returncode,
                  t1, '' if p0.returncode == 0 and p1.returncode else 'BAD\n' + p0.stdout[-600:] + '\n----\n' + p1.stdout[-600:], flush=True)
        finally:
            shutil.rmtree(work)
main()
