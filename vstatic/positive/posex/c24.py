import contextlib
import numpy as np


def bad_swallow(path, out):
    try:
        out.field = np.load(path)
    except Exception:
        pass
    return out


def bad_swallow_one_path(path, strict):
    try:
        a = np.load(path)
    except IOError as ex:
        if strict:
            raise ValueError('no file') from ex
        a = np.zeros((2, 2))
    return a


def bad_finally(a):
    try:
        b = 1 / a
    finally:
        return 0


def bad_suppress(a):
    with contextlib.suppress(ValueError):
        a.update()


def bad_not_raised(a):
    if a < 0:
        ValueError('negative')
    return a


def bad_returned(a):
    if a < 0:
        return ValueError('negative')
    return a


def bad_clip(dm):
    np.clip(dm.V, -1, 1)
    return dm


def bad_compare(dm):
    dm.V == dm.V + 1
    return dm


def bad_method(a):
    a.copy()
    return a


def bad_helper(a):
    _double(a)
    return a


def bad_async(pool, a):
    pool.apply_async(_double, (a,))


def bad_generator(a):
    (x.update() for x in a)


def _double(a):
    return 2 * a


def good_reraise(path):
    try:
        return np.load(path)
    except OSError as ex:
        ex2 = ValueError('no file')
        raise ex2 from ex


def good_lookup(d):
    try:
        return d['a']
    except KeyError:
        return 0


def good_import():
    try:
        import foo
    except ImportError:
        foo = None
    return foo


def good_statements(a, b):
    """text"""
    None
    a.sort()
    np.copyto(a, b)
    b.append(1)
    np.multiply(a, b, out=a)
    a and b.update()
    [x.update() for x in b]
    try:
        a += 1
    finally:
        for x in b:
            break
    err = ValueError
    if a > 1:
        raise err('big')


def good_else(a):
    try:
        a = iter(a)
    except TypeError:
        raise TypeError('not iterable') from None
    else:
        return a
