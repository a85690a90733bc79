"""P24: every array access of src/*.cpp stays in bounds and every loop terminates: the bounds and
termination obligations of the contracts of all the functions (their postconditions are decided by
the other properties)."""
import u_kern, u_misc, u_surf
FLAVOR = 'asan'
BLIMIT = 300


def units(prog, tier):
    us = (u_surf.sag_units() + u_surf.normal_units() + u_surf.tti_units() + u_misc.media() + u_misc.regions() +
          [u_misc.u_coating()] + u_misc.equality() +
          u_kern.pick('intersect', 'reflect', 'refract', 'rSplit', 'screen', 'obscure', 'transform', 'finish', 'wave'))
    seen, out = set(), []
    for u in us:
        if u.name not in seen:
            seen.add(u.name)
            u.drop = ('post', 'frame')
            out.append(u)
    return out
