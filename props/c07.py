"""Derivative operators return the partial derivatives their documentation names."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'derivatives', 36, 'derivative-operator law')
