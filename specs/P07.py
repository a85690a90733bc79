import u_kern, u_trace


def units(prog, tier):
    return u_kern.pick('refract') + u_trace.wrappers('refract')
