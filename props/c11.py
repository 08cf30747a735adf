"""Integrators take the steps their order and settings promise."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'ode', 28, 'integrator law')
