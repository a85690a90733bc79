import u_misc, u_pyobj


def units(prog, tier):
    return u_misc.media() + u_pyobj.media()
