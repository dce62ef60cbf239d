import os
import time
import random
import warnings
from functools import lru_cache
from datetime import datetime
import numpy as np
import matplotlib.pyplot as plt

_CACHE = {}
_count = 0
_TABLE = [1, 2, 3]


def global_statement(a):
    global _count
    _count += 1
    return a + _count


def module_dict(n):
    if n not in _CACHE:
        _CACHE[n] = np.zeros(n)
    return _CACHE[n]


def module_list(n):
    t = _TABLE
    t.append(n)
    return sum(t)


def default_list(a, acc=[]):
    acc.append(a)
    return len(acc)


def default_dict(a, opts={}):
    opts.setdefault('k', a)
    return opts['k']


def default_object(a, buf=np.zeros(3)):
    buf += a
    return buf.sum()


def function_attribute(a):
    function_attribute.last = a
    return a


@lru_cache(maxsize=None)
def memoised(n):
    return np.zeros(n)


class Holder:
    seen = {}

    def remember(self, k):
        self.seen[k] = 1
        return len(self.seen)


def numpy_errors(a):
    np.seterr(all='ignore')
    return 1 / a


def quiet(a):
    warnings.filterwarnings('ignore')
    return a


def fonts(a):
    plt.rcParams['font.size'] = 3
    plt.rcParams.update({'font.size': 4})
    plt.plot(a)


def environment(a):
    if os.environ.get('FAST'):
        return a
    return 2 * a


def set_environment(a):
    os.environ['OMP_NUM_THREADS'] = '1'
    return a


def clock_value(a):
    return a * time.time()


def clock_branch(a, t0):
    if time.perf_counter() - t0 > 3:
        return a
    return 2 * a


def clock_name(a):
    return 'x' + datetime.now().strftime('%H')


def random_value(a):
    return a + np.random.randn(3)


def unseeded_generator(a):
    rng = np.random.default_rng()
    return a + rng.normal(size=3)


def reseeds(a):
    np.random.seed(0)
    return a


def python_random(a):
    return random.choice(a)


def set_order(names):
    out = []
    for n in set(names):
        out.append(n)
    return out


def set_list(names):
    return list({n.lower() for n in names})


def directory_order(path):
    return [f for f in os.listdir(path)]


def identity_key(a, d):
    return d[id(a)]


def string_hash(a):
    return hash(a) % 10
