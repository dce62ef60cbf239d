import copy


def full(mp, modvar):
    return mp.P1.full.E


def compact(mp, modvar):
    return mp.P1.compact.E


def bad_compact_alias(mp):
    pupil = mp.P1
    truth = pupil.full
    return truth.E * 2


def bad_full_sampling(mp):
    for m in (mp.dm1, mp.dm2):
        x = m.compact.dx
    return x


def bad_compact_mirror(mp):
    return mp.dm1.inf_datacube[:, :, 0]


def bad_compact_calls(mp, modvar):
    return full(mp, modvar)


def bad_store(mp):
    n = mp.P1.full.Narr
    w = {'Narray': n}
    mp.P1.compact.mask = abs(w['Narray'])


def bad_share(mp):
    mp.dm9.compact = mp.dm9


def bad_mixed(mp):
    return helper(mp.P1.full.E, mp.P2.compact.dx)


def helper(a, b):
    return a * b


def good_compact_reads(mp, modvar):
    return compact(mp, modvar) * mp.P1.compact.mask + mp.dm1.compact.inf_datacube


def good_setup(mp):
    mp.P1.full.Narr = 2 * mp.P1.full.Nbeam
    mp.P1.compact.Narr = 2 * mp.P1.compact.Nbeam
    mp.dm9.compact = copy.copy(mp.dm9)
    return helper(mp.P1.full.E, mp.P2.full.dx)
