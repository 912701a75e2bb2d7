from . import search as S
CONTRACTS = S.GENS + S.ACQ + S.APPLYC + S.LBFGS + S.GLOB + S.CHOOSE + S.ACQOPT
NOTE = 'AnchorPointsGenerator.get (objective, Thompson and random scores; any sample, exclusion set, context, constraints), AcquisitionOptimizer.optimize, apply_optimizer, the three local-search wrappers, choose_optimizer and AcquisitionBase.optimize, each against the contract its caller uses. scipy, cma and DIRECT are external: whatever point they return is covered.'
TRUST = ['scipy.optimize.fmin_l_bfgs_b, cma.fmin, DIRECT.solve: only that they return a point of the given dimension (and, for L-BFGS without the ABNORMAL status, the value they report)']
