from . import variables as V, space as S, build as B
CONTRACTS = V.ROUND + V.CODING + V.BOUNDS + S.ALL + B.ALL
SECONDS = 15
NOTE = 'Construction of a space (translation of the descriptors, expansion into one-dimensional variables, column positions, totals), every variable class operation (round, encode, decode, bounds) and every Design_space translation are proved for any number of variables of any dimensionality and any values; Design_space uses the variables through the proved per-class contracts. Spaces of one bandit variable: proved as well; several bandit variables and look-up by name: bounded (concrete driver). Real arithmetic is exact.'
