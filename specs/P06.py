import u_kern, u_trace


def units(prog, tier):
    return u_kern.pick('reflect') + u_trace.wrappers('reflect')
