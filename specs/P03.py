import u_surf, u_kern, u_trace


def units(prog, tier):
    return u_surf.tti_units()+u_kern.pick('intersect') + u_trace.wrappers('intersect')
