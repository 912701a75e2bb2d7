import re
from . import acq as Q
CONTRACTS = Q.CONTRACTS
TRUST = ['the surrogate is an arbitrary differentiable mean and positive standard deviation (per hyper-parameter sample); the lemma on derivatives is discharged by computer algebra (sympy)',
         'equalities of rational expressions over exp, erfc and sqrt terms that z3 does not settle are decided by sympy, with every denominator shown to be nonzero by z3']
NOTE = ('The six acquisitions are verified against their closed forms for every surrogate, point, parameter and number of points and hyper-parameter samples (the averages by a summation lemma); '
        'a calculus lemma shows that the closed-form gradients are the derivatives of the closed-form values (standard deviation above the 1e-10 floor); AcquisitionBase is verified to weight an arbitrary '
        'acquisition and its gradient by cost and feasibility (quotient rule); the constructors keep the cost except the confidence bound. The jitter sign of the integrated expected improvement is a recorded finding.')
def finding_of(label, name):
    m = re.search(r'\[(\w+)\]$', name); return m.group(1) if m else None
