import u_trace
CXX = False


def units(prog, tier):
    return u_trace.wrappers('intersect', 'reflect', 'refract', 'rSplit', 'refractScreen', 'obscure') + u_trace.composition(tier)
