import u_kern, u_misc, u_pyobj


def units(prog, tier):
    us = [u for u in u_kern.pick('intersect', 'reflect', 'refract', 'rSplit')]
    return [u_misc.u_coating()]+us + u_pyobj.coatings()
