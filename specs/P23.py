import u_lat
import u_analysis
CXX = False
ASSUME = ['contracts used at calls of the image functions: as in P25']


def units(prog, tier):
    us = u_lat.units()
    # the lattices reported by the image functions
    us += [x for x in u_analysis.units(tier) if x.name.startswith(('huygensPSF', 'fftPSF', 'wavefront'))
           and (tier != 'quick' or 'mean' not in x.name)]
    return us
