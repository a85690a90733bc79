import u_surf, u_pyobj


def units(prog, tier):
    return u_surf.sag_units() + u_pyobj.py_sag() + u_pyobj.surfaces()
