import u_misc, u_pyobj


def units(prog, tier):
    return u_misc.regions() + u_pyobj.obscurations()
