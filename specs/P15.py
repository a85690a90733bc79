import u_kern, u_rv


def units(prog, tier):
    return u_kern.pick('wave') + u_rv.wave_units()
