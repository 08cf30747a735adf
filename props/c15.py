"""Least-squares fits, local models and discretised systems are the stated ones."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'fitting', 25, 'fitting law')
