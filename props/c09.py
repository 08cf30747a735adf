"""Rotations, rigid motions and spatial vectors obey their group and duality laws."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'lie', 118, 'rigid-motion law')
