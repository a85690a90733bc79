import u_surf, u_pyobj


def units(prog, tier):
    return u_surf.normal_units() + u_pyobj.py_normal() + u_pyobj.surfaces()
