from . import design as D
CONTRACTS = D.CONTRACTS
BOUNDED = ['multigrid with four or more coordinates (its lattice is proved for one, two and three coordinates)']
TRUST = ['pyDOE.lhs returns one point per equal slice of [0,1] in each column (assumed contract)', 'sobol_seq.i4_sobol_generate returns points in [0,1] (assumed contract)',
         'numpy.random.uniform(a, b, shape) returns values in [a, b] of the requested shape; random_sample values lie in [0,1)']
NOTE = ('Every design class is verified against the search space contract for every number of variables of every type and every requested number of points: random, Latin and Sobol '
        'return exactly the requested number of rows with every entry legal, Latin keeps one point per slice after scaling, the grid returns r**d rows with r the integer d-th root '
        '(iroot itself is verified for every d by a Newton-step induction) and the full evenly spaced lattice, the constructors reject constraints, and initial_design selects the design it is named after or fails.')
