"""python3-vt -m engine.runprop <ID> <tier> <seed> <out.json>: runs the contract harness of one property on /repo's source"""
import sys, json, time, importlib, traceback, os, resource
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def main(pid, tier, seed, out):
    from engine import prove, load, npfake, ctx
    t0 = time.time()
    budget = float(os.environ.get('EIV_BUDGET', '500' if tier == 'quick' else '780'))
    B = prove.Book(pid, tier, seed, budget)
    err = None
    mod = None
    try:
        mod = importlib.import_module('props.' + pid.lower())
        L = npfake.make_loader()
        mod.run(B, L)
        B.finish()
    except Exception as ex:
        err = '%s: %s' % (type(ex).__name__, ex)
        B.add('load/harness', 'undecided', err, tb=traceback.format_exc()[-1500:])
    res = dict(prop=pid, obligations=B.obl, counts=B.counts, functions=sorted(B.functions), paths=B.paths, notes=B.notes,
               covers=B.covers, bounded=B.bounded, contracts=dict(npfake.USED), solver=dict(ctx.STATS) if hasattr(ctx, 'STATS') else {},
               sources=sorted(load.SEEN) if hasattr(load, 'SEEN') else [], level=getattr(mod, 'LEVEL', 'proof'),
               assumptions=getattr(mod, 'ASSUME', []), wall_s=time.time() - t0, error=err)
    json.dump(res, open(out, 'w'), default=str)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=main, args=(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]))
    th.start(); th.join()
