"""mkseed.py SPEC.py ...: builds seeded/<id>/ from a description of a planted change and confirms it (scratch copy under /tmp/seedwt)
SPEC defines ID, PROP, EDITS=[(file, old, new)...], NEEDS, BREAKS, DEMO (python source run with cwd = repository)"""
import sys, os, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
PY = '/opt/venv/bin/python'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build(spec):
    g = {}
    exec(open(spec).read(), g)
    if os.path.exists(WT): shutil.rmtree(WT)
    sh('cp -a /repo %s' % WT)
    sh('git checkout -q -- .', cwd=WT)
    for f, old, new in g['EDITS']:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) < 1: return '%s: text not found in %s: %s' % (g['ID'], f, old[:60])
        i = g.get('OCC', {}).get(old, 0)
        parts = s.split(old)
        s = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
        open(p, 'w').write(s)
    d = os.path.join(ROOT, 'seeded', g['ID'])
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', cwd=WT).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + g['DEMO'].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds on the demonstrated input\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    # lines touched must be original ones
    base = sh('git rev-list --max-parents=0 HEAD', cwd='/repo').stdout.split()[-1]
    for f, old, new in g['EDITS']:
        orig = sh('git show %s:%s' % (base, f), cwd='/repo').stdout.split('\n')
        for l in diff.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in orig: print('  NOTE not an original line:', l[:120])
    a = sh('bash %s/demo.sh' % d, cwd='/repo')
    b = sh('bash %s/demo.sh' % d, cwd=WT)
    t = sh('export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1; %s -m pytest test -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors '
           '--randomly-seed=131 --randomly-dont-reorganize --ignore=test/cuda_test.py -o junit_family=xunit2 --junitxml=/tmp/seed.xml; python3 /opt/vp/results.py /tmp/seed.json junit:/tmp/seed.xml' % PY, cwd=WT)
    try:
        r = json.load(open('/tmp/seed.json'))
        ok = json.dumps(r)
        passed = r.get('passed', r)
        bad = [s for s in STABLE if s not in passed]
    except Exception as e: bad = ['?' + str(e)]
    return '%s: clean=%d mutated=%d stable-broken=%s %s' % (g['ID'], a.returncode, b.returncode, bad[:4], (a.stdout + a.stderr)[-300:] if a.returncode else b.stderr.strip().split('\n')[-1][:150])


for s in sys.argv[1:]: print(build(s), flush=True)
