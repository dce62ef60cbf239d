import multiprocessing
import os
import pickle

import numpy as np


def bad_leaks(path):
    f = open(path, 'rb')
    a = pickle.load(f)
    f.close()
    return a


def bad_pool(work):
    pool = multiprocessing.Pool(4)
    r = pool.map(str, work)
    pool.close()
    pool.join()
    return r


def bad_chained(path):
    return pickle.load(open(path, 'rb'))


def bad_one_path(path, flag):
    f = open(path, 'rb')
    if flag:
        return None
    try:
        return f.read()
    finally:
        f.close()


def bad_place(mp, a):
    np.save('/tmp/field.npy', a)


def bad_working_dir(mp, a):
    with open(mp.runLabel + '.pkl', 'wb') as f:
        pickle.dump(a, f)


def bad_always(mp):
    with open(os.path.join(mp.path.ws, mp.runLabel), 'wb') as f:
        pickle.dump(mp, f)


def bad_inverted(mp):
    if not mp.flagSaveWS:
        with open(os.path.join(mp.path.ws, mp.runLabel), 'wb') as f:
            pickle.dump(mp, f)


def good_with(path):
    with open(path, 'rb') as f, multiprocessing.Pool(2) as p:
        return p.map(str, f)


def good_finally(path):
    f = open(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def good_places(mp, a, path):
    np.save(path, a)
    np.save(os.path.join(mp.path.jac, '%s.npy' % mp.runLabel), a)
    name = mp.path.brief + '/' + mp.runLabel
    with open(name, 'wb') as f:
        pickle.dump(a, f)
    save = mp.flagSaveWS
    if not save:
        return
    with open('%s/%s' % (mp.path.ws, mp.runLabel), mode='wb') as f:
        pickle.dump(a, f)
