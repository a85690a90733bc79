import u_kern, u_trace


def units(prog, tier):
    return u_kern.pick('rSplit') + u_trace.wrappers('rSplit')
