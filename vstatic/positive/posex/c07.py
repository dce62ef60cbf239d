import numpy as np


def inplace_argument(a):
    a[a < 0] = 0
    return a.sum()


def through_view(a):
    b = np.reshape(a, (-1,))
    b *= 2
    return b.sum()


def through_loop_element(items):
    for x in items:
        x.n = 1
    return len(items)


def sorts_list(v):
    w = v
    w.sort()
    return w[0]


def dict_default(d):
    if 'k' not in d:
        d['k'] = 3
    return d['k'] + 1


def _helper(m):
    m.q.V = 0


def via_helper(mp):
    _helper(mp)
    return mp.q.V + 1


def live_reference(mp, flag):
    out = mp.table
    if flag:
        out = np.zeros(3)
    return out
