import copy
from concurrent.futures import ThreadPoolExecutor as PoolExecutor, ThreadPoolExecutor
from multiprocessing.pool import ThreadPool
import multiprocessing
import numpy as np


def _task_sets(mp, i):
    mp.full.polaxis = i
    return mp.full.polaxis + 1


def bad_method(mp, vals):
    with ThreadPoolExecutor() as ex:
        return list(ex.map(lambda i: _task_sets(mp, i), vals))


def bad_shallow(mp, vals):
    def task(i):
        m = copy.copy(mp)
        m.full.polaxis = i
        return m.full.polaxis
    with ThreadPoolExecutor() as ex:
        return list(ex.map(task, vals))


def bad_accumulator(mp, vals):
    total = np.zeros(4)

    def task(i):
        total[i] = i
        return i
    with ThreadPoolExecutor() as ex:
        list(ex.map(task, vals))
    return total


def bad_shared_source(mp, vals):
    modvar = mp.new()
    src = Source()
    with PoolExecutor() as ex:
        fs = [ex.submit(_with_source, mp, src, i) for i in vals]
    return [f.result() for f in fs]


class Source:
    def __init__(self):
        self.index = 0


def _with_source(mp, src, i):
    src.index = i
    return mp.q * src.index


def bad_thread_pool(mp, n):
    pool = ThreadPool()
    r = pool.starmap(_task_sets, [(mp, i) for i in range(n)])
    pool.close()
    return r


def good_local(mp, vals):
    def task(i):
        src = Source()
        src.index = i
        out = np.zeros(3)
        out[0] = mp.q * src.index
        return out
    with ThreadPoolExecutor() as ex:
        return sum(ex.map(task, vals))


def good_copy(mp, vals):
    def task(i):
        m = copy.copy(mp)
        m.full = copy.copy(mp.full)
        m.full.polaxis = i
        return m.full.polaxis
    with ThreadPoolExecutor() as ex:
        return list(ex.map(task, vals))


def good_after(mp, vals):
    out = np.zeros(4)
    with ThreadPoolExecutor() as ex:
        for k, r in enumerate(ex.map(lambda i: mp.q * i, vals)):
            out[k] = r
    return out


def good_processes(mp, n):
    pool = multiprocessing.Pool()
    r = pool.starmap(_task_sets, [(mp, i) for i in range(n)])
    pool.close()
    return r
