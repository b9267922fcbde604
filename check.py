#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: discharge the property's contracts on /repo's current source, replay on the real code.
exit 0: held; exit 1: VIOLATION line"""
import sys, os, json, time, subprocess, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('EIV_REPO', '/repo')
PY = '/opt/venv/bin/python'


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PYTHONPATH=ROOT, PYTHONHASHSEED='0')
    mpl = os.path.join(ROOT, 'evidence', 'mpl')
    os.makedirs(mpl, exist_ok=True)
    e['MPLCONFIGDIR'] = mpl
    return e


def known():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                out.append(l[8:].strip())
    return out


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ev = os.path.join(ROOT, 'evidence')
    work = os.path.join(ev, 'work')
    os.makedirs(work, exist_ok=True)
    po, ro = os.path.join(work, pid + '.proof.json'), os.path.join(work, pid + '.replay.json')
    for f in (po, ro):
        if os.path.exists(f): os.remove(f)
    e = env()
    r = rl = p = None
    plog = open(os.path.join(work, pid + '.proof.log'), 'w')
    rlog = open(os.path.join(work, pid + '.replay.log'), 'w')
    has_proof = os.path.exists(os.path.join(ROOT, 'props', pid.lower() + '.py'))
    if has_proof:
        p = subprocess.Popen(['python3-vt', '-m', 'engine.runprop', pid, tier, str(seed), po], cwd=ROOT, env=e, stdout=plog, stderr=plog)
    er = dict(e)
    er['PYTHONPATH'] = REPO
    r = subprocess.Popen([PY, os.path.join(ROOT, 'replay', 'run.py'), pid, tier, str(seed), ro], cwd=work, env=er, stdout=rlog, stderr=rlog)
    limit = 620 if tier == 'quick' else 860
    for q in (p, r):
        if q is None: continue
        try: q.wait(max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            q.kill(); q.wait()
    proof = json.load(open(po)) if os.path.exists(po) else None
    rep = json.load(open(ro)) if os.path.exists(ro) else None
    if rep is None: rep = dict(evaluations=0, distinct=0, samples=[], failure=None, crashed=True, kinds={})
    obl = proof['obligations'] if proof else []
    failed = [o for o in obl if o['status'] == 'failed']
    und = [o for o in obl if o['status'] == 'undecided']
    disch = [o for o in obl if o['status'] == 'proved']
    if has_proof and proof is None: und = [dict(name='prover', how='prover stopped without a result')]
    viol = []
    rdir = os.path.join(ev, 'replay')
    os.makedirs(rdir, exist_ok=True)
    if rep.get('failure'):
        f = os.path.join(rdir, pid + '.json')
        d = dict(property=pid, kind='failing input on the real code', case=rep['failure']['case'], error=rep['failure']['error'], traceback=rep['failure'].get('tb'),
                 failed_obligations=[dict(name=o['name'], how=o['how'][:2000], model=o.get('refuted')) for o in failed[:10]],
                 command='cd %s && PYTHONPATH=%s %s %s/replay/run.py %s quick 1 /dev/stdout --replay %s' % (work, REPO, PY, ROOT, pid, f))
        json.dump(d, open(f, 'w'), indent=1, default=str)
        print('contract violated by the real code: %s' % rep['failure']['error'][:600])
        for o in failed[:5]: print('failed obligation: %s' % o['name'])
        viol.append('VIOLATION property=%s replay=%s' % (pid, f))
    elif failed:
        f = os.path.join(rdir, pid + '.obligation.json')
        json.dump(dict(property=pid, kind='failed obligation', obligations=[dict(name=o['name'], verifier_output=o['how'][:6000], model=o.get('refuted'), at=o.get('tb')) for o in failed]),
                  open(f, 'w'), indent=1, default=str)
        for o in failed[:5]: print('failed obligation: %s | %s' % (o['name'], o['how'][:300]))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, f))
    if not viol and has_proof and not obl:
        und = und or [dict(name='vacuity', how='no obligation was generated')]
    for o in und[:8]: print('UNDECIDED property=%s %s | %s' % (pid, o['name'], str(o.get('how'))[:300]))
    if not viol and rep.get('crashed'):
        print('UNDECIDED property=%s the replay on the real code gave no result' % pid)
    for k in known():
        if ('property=%s ' % pid) in k + ' ': print('KNOWN-FINDING: ' + k)
    level = (proof or {}).get('level', 'exploration')
    if level == 'proof' and (und or not has_proof): level_now = 'proof'
    cov = dict(obligations=len(obl) + (1 if has_proof and proof is None else 0), discharged=len(disch),
               checker_cmd='python3 %s/check.py %s --tier %s' % (ROOT, pid, tier),
               trusted_base=TRUSTED + (['assumed library contracts used on this run: ' + ', '.join('%s(%d)' % kv for kv in sorted(proof['contracts'].items()))] if proof else []),
               functions_under_contract=(proof or {}).get('functions', []), symbolic_paths=(proof or {}).get('paths', 0),
               preconditions_shown_satisfiable=(proof or {}).get('covers', {}),
               back_ends=backends(obl), solver=(proof or {}).get('solver', {}), prover_wall_s=(proof or {}).get('wall_s', 0),
               bounded_parts=(proof or {}).get('bounded', []), undischarged=[dict(name=o['name'], status=o.get('status'), how=str(o.get('how'))[:300]) for o in failed + und][:40],
               evaluations=rep['evaluations'], distinct_nontrivial=rep['distinct'], rule='runtime form of the same contracts on the real code (bounded, not counted as proved): seeded inputs of varied shape, every case counted once and distinct by its parameters',
               samples=rep['samples'], replay_kinds=rep.get('kinds', {}), replay_wall_s=rep.get('wall_s'),
               obligation_samples=[o['name'] for o in disch[:6]])
    cov['explanation'] = 'contracts on the real functions, discharged for all sizes and values unless listed under bounded_parts; then replayed at run time on the real interpreter'
    out = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + ((proof or {}).get('assumptions') or []),
               wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(out, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d undecided, %d replayed cases, %.1fs' % (pid, len(disch), cov['obligations'], len(und), rep['evaluations'], time.time() - t0))
    for v in viol: print(v)
    sys.exit(1 if viol else 0)


def backends(obl):
    out = {}
    for o in obl:
        if o['status'] == 'proved':
            k = str(o.get('how'))[:40]
            out[k] = out.get(k, 0) + 1
    return out


TRUSTED = ['the verification engine in /verif/engine (symbolic arrays, normal forms, case splitting) and z3 4.x as its arithmetic back end',
           'the mechanical instrumentation of the source (engine/load.py): it drops docstrings, type annotations and progress/plot output; loops, branches and comprehensions keep their bodies',
           'CPython semantics of the executed function bodies']
ASSUME = ['machine arithmetic is treated as exact real/complex/integer arithmetic (no rounding, overflow or NaN)',
          'numpy/scipy functions behave as their assumed contracts in engine/npfake.py']

if __name__ == '__main__': main()
