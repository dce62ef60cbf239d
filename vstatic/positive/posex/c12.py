import numpy as np
from . import c07
import posex.c07


def bad_branch(flag):
    if flag == 'a':
        x = 1
    elif flag == 'b':
        x = 2
    return x


def bad_uncorrelated(a, b):
    if a:
        y = 1
    if b:
        return y
    return 0


def bad_global(a):
    return undefined_thing(a)


def bad_member(a):
    return c07.no_such_function(a)


def bad_member2(a):
    return posex.c07.no_such_function(a)


def bad_numpy(a):
    return np.nosuch(a)


def _two(a, b):
    return a, b


def bad_few(a):
    return _two(a)


def bad_many(a):
    return _two(a, 1, 2)


def bad_keyword(a):
    return _two(a, c=2)


def bad_unpack(a):
    x, y, z = _two(a, 1)
    return x


def bad_ext_keyword(a):
    return np.linspace(0, 1, 3, dtpye=int)


def bad_attribute(mp):
    return mp.alpha.thereIsNoSuchSetting


def bad_path(mp):
    return mp.F3.full.lambda0


def good_correlated(a):
    if a:
        y = 1
    z = 0
    if a:
        z = y
    return z


def good_raise(a):
    if a == 1:
        y = 1
    elif a == 2:
        y = 2
    else:
        raise ValueError
    return y


def good_loop(n):
    for i in range(n):
        y = i
    return n


def good_try(a):
    try:
        y = a.alpha
    except AttributeError:
        y = 0
    return y
