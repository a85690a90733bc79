import u_parse, u_pyobj
CXX = False
TRUSTED = ['yaml.safe_load returns the mapping the file holds; galsim.zernike.Zernike is a function of its arguments']
ASSUME = ['CoordSys.shiftLocal and rotateLocal do what P02 proves of them']


def units(prog, tier):
    return u_parse.units() + u_pyobj.surfaces() + u_pyobj.media() + u_pyobj.obscurations()
