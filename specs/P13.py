import u_kern, u_trace


def units(prog, tier):
    return u_kern.pick('obscure') + u_trace.wrappers('obscure')
