NOTE['*'] = ('Stateless explicit enumeration of the real implementation (imported from /repo\'s working tree): every history / configuration in the stated bounds is executed and every observation compared '
             'with a reference model in NumPy (complex-step Jacobians). Exhaustive within the bounds given in the evidence; values are a fixed generic set per shape, so it assumes that behaviour does not '
             'depend on particular floating-point values beyond the enumerated ones. Trusts NumPy/SciPy, PyPy and the reference model.')
