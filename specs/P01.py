import u_kern
import u_coord


def units(prog, tier):
    return u_kern.pick('transform') + u_coord.coordtransform()
