import u_tree
import u_coord
CXX = False
ASSUME = ['CoordSys.shiftGlobal/shiftLocal/rotateGlobal/rotateLocal by their contracts (P02, proved here as well)']


def units(prog, tier):
    return u_tree.units(tier) + [x for x in u_coord.coordsys() if 'shift' in x.name or 'rotate' in x.name]
