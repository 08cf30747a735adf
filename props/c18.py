"""Line integrals, maps, rotor mixing and random numbers are the stated ones."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'fields', 32, 'field law')
