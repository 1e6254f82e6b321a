"""Run verification tasks in parallel; every task returns a plain dict."""
import multiprocessing as mp
import os
import time
import traceback

G = {}


def _work(args):
    try:
        idx = args
        return G['fn'](idx)
    except Exception as e:
        return {'label': str(idx), 'status': 'error', 'why': traceback.format_exc()[-1500:], 'obl': {}, 'steps': 0, 'paths': 0, 'queries': 0, 'qtime': 0, 'time': 0, 'intrin': [], 'called': [], 'viol': None}


def run(fn, idxs, procs=None, deadline=None):
    procs = procs or min(8, os.cpu_count() or 4)
    out = []
    G['fn'] = fn
    chunk = max(1, min(16, len(idxs) // 200))
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as p:
        it = p.imap_unordered(_work, list(idxs), chunksize=chunk)
        for _ in range(len(idxs)):
            if deadline is not None:
                left = deadline - time.time()
                if left <= 0:
                    break
                try:
                    out.append(it.next(timeout=left))
                except mp.TimeoutError:
                    break
            else:
                out.append(next(it))
        p.terminate()
    return out
