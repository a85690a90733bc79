import u_bundle, u_kern
ASSUME = ['the sag of the stop surface is a function of the point (P05); the point is not the source',
          'contracts used at calls: CoordTransform on arrays (P01), fieldToDirCos (P17), finishParallel (here), '
          'RayVector::propagateInPlace (P15)']


def units(prog, tier):
    return u_bundle.units(tier) + u_kern.pick('finish')
