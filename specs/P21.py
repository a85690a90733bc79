import u_pyobj
CXX = False
TRUSTED = ["pickle itself: an object travels as CPython's __reduce_ex__ takes it apart; galsim.zernike.Zernike is a function of its arguments",
           'numbers are printed in full (the caller sets the numpy print options)']


def units(prog, tier):
    return u_pyobj.values() + u_pyobj.surfaces() + u_pyobj.media() + u_pyobj.coatings() + u_pyobj.obscurations()
