import falco


def _stops(mp, d2):
    for dm, flag, d in ((mp.dm1, mp.flagDM1stop, mp.dm1.Dstop), (mp.dm2, mp.flagDM2stop, d2)):
        if not hasattr(dm, 'full'):
            dm.full = falco.config.Object()
        if not hasattr(dm, 'compact'):
            dm.compact = falco.config.Object()
        if flag:
            dm.full.mask = falco.mask.falco_gen_DM_stop(mp.P2.full.dx, d, mp.centering)
            dm.compact.mask = falco.mask.falco_gen_DM_stop(mp.P2.compact.dx, d, mp.centering)


def bad1__falco__setup__falco_gen_dm_stops(mp):
    _stops(mp, mp.dm1.Dstop)


def good1__falco__setup__falco_gen_dm_stops(mp):
    _stops(mp, mp.dm2.Dstop)
