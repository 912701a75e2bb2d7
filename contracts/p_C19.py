from . import parallel as P, objective as OB
CONTRACTS = P.CONTRACTS + OB.EVAL
NOTE = 'SingleObjective.evaluate on 2 to %d cores for batches of any size, with workers that may die at any point (2 to 4 cores): values, order, costs, number of processes, fallback to sequential evaluation; spawn and sequential evaluation under contract. The number of cores is bounded (each number is a separate proof), the number of rows is not. multiprocessing is used through an assumed contract (process = copy of the state, pipe = queue), the objective is a function of the row.' % P.MAXP
BOUNDED = ['more than %d cores: not proved' % P.MAXP]
