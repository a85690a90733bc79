import u_kern, u_trace


def units(prog, tier):
    return u_kern.pick('screen') + u_trace.wrappers('refractScreen')
