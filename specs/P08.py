import u_kern


def units(prog, tier):
    return u_kern.pick('intersect', 'reflect', 'refract', 'rSplit', 'screen', 'obscure')
