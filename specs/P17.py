import u_proj
CXX = False


def units(prog, tier):
    return u_proj.units()
