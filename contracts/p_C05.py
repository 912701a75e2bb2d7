from . import bo as O, objective as J
CONTRACTS = J.EVAL + J.SIGN + J.GET + J.INIT + O.RUN
NOTE = 'run_optimization (8 argument configurations), _eval_func, evaluate on one core, _init_design_chooser, _sign and get_evaluations are proved against contracts for all data, all batch sequences and unboundedly many steps; suggestion and model update are used through their contracts. Parallel evaluation is decided under C19. The objective is a function of the row returning one value per row.'
