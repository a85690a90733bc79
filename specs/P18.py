import u_misc, u_rv
TRUSTED = ["pickle itself: an object travels as CPython's __reduce_ex__ takes it apart", 'slices of numpy arrays with symbolic bounds follow the model in lib/pysym.py']


def units(prog, tier):
    return u_misc.equality() + u_rv.value_units()
