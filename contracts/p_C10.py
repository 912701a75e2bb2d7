from . import evaluators as E, search as S, lp as L
CONTRACTS = E.LPB + S.ESTL + L.CONTRACTS
TRUST = ['the derivatives of the closed-form penalised function are computed by sympy', 'preconditions of the gradient contracts: one query point, not one of the batch points; the base acquisition is strictly positive under the logarithm and below 40 under softplus; penalty probabilities of at least 1e-50 (below, the code states slope zero)']
NOTE = ('AcquisitionLP: radius and scale of each penalty, the penalty, the penalised function (both transforms, with and without batch points, any number of points and coordinates), its gradient, update_batches and the constructor are verified against '
        'closed forms, whose derivatives are checked by computer algebra. LocalPenalization.compute_batch is verified against the log of penaliser calls (chosen points so far before each search, none before the first, reset at the end, also under de-duplication); estimate_L returns the largest gradient norm found.')
