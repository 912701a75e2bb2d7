from . import bo as O
CONTRACTS = O.DIST + O.RUN
NOTE = 'run_optimization is proved for both/either/no limit given and outputs known or not, for all budgets, clocks and suggestion sequences, with unbounded loop iterations; evaluation times are arbitrary reals from the clock.'
