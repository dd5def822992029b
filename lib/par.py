"""fork-per-task parallel map (the modules loaded by the parent are shared copy-on-write)"""
import os, sys, pickle, traceback, tempfile
from proj import Broken


def pmap(fn, tasks, n=None):
    """[fn(t) for t in tasks], in parallel; a Broken raised by a task is re-raised here as
    ('broken', message) entries"""
    n = n or int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 8)
    res = [None] * len(tasks)
    run = {}
    nxt = 0
    d = tempfile.mkdtemp(prefix='vp_par')
    try:
        while nxt < len(tasks) or run:
            while nxt < len(tasks) and len(run) < n:
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        try:
                            r = ('ok', fn(tasks[nxt]))
                        except Broken as e:
                            r = ('broken', str(e))
                        except BaseException:
                            r = ('crash', traceback.format_exc())
                        with open(f'{d}/{nxt}', 'wb') as f:
                            pickle.dump(r, f)
                    finally:
                        os._exit(0)
                run[pid] = nxt
                nxt += 1
            pid, st = os.wait()
            if pid in run:
                i = run.pop(pid)
                try:
                    with open(f'{d}/{i}', 'rb') as f:
                        res[i] = pickle.load(f)
                except Exception:
                    res[i] = ('crash', f'worker for {tasks[i]} ended with status {st}')
    finally:
        for x in os.listdir(d):
            os.unlink(f'{d}/{x}')
        os.rmdir(d)
    return res


class Soft(Exception):
    pass


def collect(res, tasks):
    """split results into successes and failures"""
    good, bad = [], []
    for t, r in zip(tasks, res):
        (good if r[0] == 'ok' else bad).append((t, r[1]) if r[0] == 'ok' else (t, r[0], r[1]))
    return good, bad
