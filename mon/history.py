"""Runs sequences of jobs; the part that runs inside processes of its own."""
import gc
import sys
from . import env, jobs, threads


def serve(req):
    """req: root, jobs, seq = [(index, mode, limit)] -> ([results], [results held that changed])"""
    sys.setrecursionlimit(req.get('limit', 3000))
    if req.get('gc') == 'off':
        gc.disable()
    elif req.get('gc') == 'often':
        gc.set_threshold(50, 2, 2)
    if 'threads' in req:
        return threads.serve(req)
    st = jobs.State(req['root'])
    out = []
    for i, mode, limit in req['seq']:
        j = req['jobs'][i]
        if limit:
            jobs.under_limit(limit, lambda: st.run(j, mode))
            out.append(None)
        else:
            out.append(st.run(j, mode))
        if 'g' in mode:
            gc.collect()
    return out, st.check_held()


assert env
