from . import design as D, search as S, acq as Q
CONTRACTS = D.CONSTR + D.REJ + Q.BASE + [c for c in S.GENS if 'constraints' in c.label]
TRUST = ['the value of a constraint expression at a point is an uninterpreted function of its text and that row (exec builds the function)']
NOTE = ('indicator_constraints is verified for every number of constraints, points and variables: entry i is one exactly when every expression is at most zero at row i, and an expression that fails raises. '
        'The rejection sampler and the anchor generators are verified to return only rows where that indicator is one, and the acquisition wrapper to multiply by it.')
