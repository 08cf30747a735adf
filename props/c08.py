"""Matrix and vector operations compute what their names say; factorisations multiply back to the matrix."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'linalg', 85, 'linear-algebra law')
