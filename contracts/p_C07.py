from . import util as U, bo as O
CONTRACTS = [U.best_value, U.results] + O.RUN_RES
NOTE = '_compute_results and best_value are proved for all recorded data of any size; run_optimization ends by calling it on the recorded data (part of the C05/C06 contracts).'
