import numbers
import numpy as np


class CheckException(Exception):
    pass


def bad_zero__real_positive_scalar(var, vname, vexc):
    if not isinstance(vname, str) or not isinstance(vexc, type) or not issubclass(vexc, Exception):
        raise CheckException('x')
    if not isinstance(var, numbers.Number):
        raise vexc(vname)
    if not np.isrealobj(var):
        raise vexc(vname)
    if var < 0:
        raise vexc(vname)
    return var


def bad_complex__real_positive_scalar(var, vname, vexc):
    if not isinstance(vname, str) or not isinstance(vexc, type) or not issubclass(vexc, Exception):
        raise CheckException('x')
    if not isinstance(var, numbers.Number):
        raise vexc(vname)
    if var <= 0:
        raise vexc(vname)
    return var


def bad_instance__string(var, vname, vexc):
    if not isinstance(vname, str):
        raise CheckException('x')
    if not isinstance(var, (str, bytes)):
        raise vexc(vname)
    return var


def bad_exception__scalar_integer(var, vname, vexc):
    if not isinstance(vname, str) or not isinstance(vexc, type) or not issubclass(vexc, Exception):
        raise CheckException('x')
    if not isinstance(var, (int, np.integer)):
        raise TypeError(vname)
    return var


def good_merged__real_positive_scalar(var, vname, vexc):
    if not isinstance(vname, str):
        raise CheckException('x')
    if not (isinstance(vexc, type) and issubclass(vexc, Exception)):
        raise CheckException('x')
    fine = isinstance(var, numbers.Real) and var > 0
    if fine:
        return var
    raise vexc(vname)


def good_shape__twoD_square_array(var, vname, vexc):
    if not isinstance(vname, str):
        raise CheckException('x')
    if not (isinstance(vexc, type) and issubclass(vexc, Exception)):
        raise CheckException('x')
    a = np.asarray(var)
    if a.ndim != 2 or a.shape[1] != a.shape[0]:
        raise vexc(vname)
    return a
