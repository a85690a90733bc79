import u_analysis
CXX = False
ASSUME = ['contracts used at calls: the ray bundles (P16), Optic.trace as a function of each ray (P19, P08), change of '
          'coordinates (P01), crossing with the reference sphere (P03)']


def units(prog, tier):
    return u_analysis.units(tier)
