"""Runs the runtime form of a property's contracts on the real code (the interpreter and libraries the project uses).
usage: run.py <ID> <tier> <seed> <out.json> [--replay case.json]"""
import sys, os, json, time, random, traceback, importlib, shutil, tempfile, warnings
warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('EIV_REPO', '/repo')
sys.path.insert(0, REPO)


class Skip(Exception): pass


def main():
    pid, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, samples=[], failure=None, skipped=0, kinds={})
    try:
        import numpy as np
        mod = importlib.import_module(pid.lower())
    except Exception as ex:
        # a module that cannot even be imported breaks whatever it provides
        res['failure'] = dict(case=dict(kind='import'), error='%s: %s' % (type(ex).__name__, ex), tb=traceback.format_exc()[-2000:])
        if isinstance(ex, (ImportError, SyntaxError)) and not str(ex.__class__.__module__).startswith('builtins'): pass
        json.dump(res, open(out, 'w'), default=str)
        return
    if '--replay' in sys.argv:
        case = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))['case']
        cases = [case]
        budget = 600
    else:
        budget = float(os.environ.get('EIV_REPLAY_S', 45 if tier == 'quick' else 400))
        cases = mod.cases(random.Random(seed), tier)
    seen = set()
    for case in cases:
        if time.time() - t0 > budget: break
        key = json.dumps(case, sort_keys=True)
        try:
            np.random.seed(case.get('seed', 0) % (2 ** 31))
            mod.check(case)
        except Skip:
            res['skipped'] += 1
            continue
        except Exception as ex:
            fr = traceback.extract_tb(ex.__traceback__)
            res['failure'] = dict(case=case, error='%s: %s' % (type(ex).__name__, str(ex)[:3000]), tb=traceback.format_exc()[-3000:])
            break
        res['evaluations'] += 1
        k = case.get('kind', '')
        res['kinds'][k] = res['kinds'].get(k, 0) + 1
        if key not in seen:
            seen.add(key)
            res['distinct'] += 1
            if len(res['samples']) < 3 or res['kinds'][k] == 1 and len(res['samples']) < 8: res['samples'].append(case)
    res['wall_s'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)


if __name__ == '__main__':
    d = tempfile.mkdtemp(prefix='eivreplay')
    os.environ['EIV_SCRATCH'] = d
    try: main()
    finally: shutil.rmtree(d, ignore_errors=True)
