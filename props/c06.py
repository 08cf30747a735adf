"""Forward-mode scalars carry exact derivatives."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'forward_mode', 400, 'chain-rule law')
