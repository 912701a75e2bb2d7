from . import util as U, bo as O, space as S, model as M
CONTRACTS = U.NORM + O.UPD + [S.o2m, S.unzip] + M.NEW + M.UPM + M.WNEW + M.WUP
NOTE = 'normalize (both modes, constant and non-constant data), _update_model and unzip_inputs/objective_to_model are proved for all data sizes, update intervals and spaces of one-dimensional variables; GPModel/GPModel_MCMC.updateModel and _create_model hand exactly these data to the regression; that the loop calls _update_model once per step is part of run_optimization (C06). Exact real arithmetic.'
