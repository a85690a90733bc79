import u_coord
CXX = False


def units(prog, tier):
    return u_coord.coordsys()
