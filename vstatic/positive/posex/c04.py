def gen_surf(dm, n):
    return dm.V * n


def bad_width_of_other(mp):
    w = mp.dm1.spacing
    mp.dm2.width = 3 * w


def bad_condition(mp):
    if mp.dm1.flag:
        mp.dm2.V = 0


def bad_alike(mp):
    mp.dm1.V = mp.dm1.a + 1
    mp.dm2.V = mp.dm2.a - 1


def bad_guard(mp):
    if 1 in mp.dm_ind:
        mp.dm1.V = mp.dm1.a
    if 1 in mp.dm_ind:
        mp.dm2.V = mp.dm2.a


def good_alike(mp):
    if 1 in mp.dm_ind:
        mp.dm1.V = mp.dm1.a + 1
    if 2 in mp.dm_ind:
        t = mp.dm2.a
        mp.dm2.V = 1 + t


def good_refusal(mp):
    if mp.dm1.sign not in ('+', '-'):
        raise ValueError('sign')
    mp.dm1.s = mp.dm1.sign
    mp.dm2.s = mp.dm2.sign


def good_choice(mp, which):
    if which == 1:
        n = mp.dm1.n
    else:
        n = mp.dm2.n
    if which == 1:
        mp.dm1.m = n
    else:
        mp.dm2.m = n


def bad_turns(mp):
    gen_surf(mp.dm1, 3)
    gen_surf(mp.dm1, 3)


def good_turns(mp):
    if mp.flag:
        gen_surf(mp.dm1, 3 + mp.n)
        k = mp.n + 3
        gen_surf(mp.dm2, k)
