from . import bo as O, output as P, model as M
CONTRACTS = P.CONTRACTS + O.PAR + M.PAR
NOTE = 'save_evaluations, save_models, _write_csv and save_report: for every history the written header, lines, number of lines, cell values, stated minimum, location and sample count are those of the records, which stay unchanged; _update_model records one parameter row per step. The csv module, str() of floats and the file system are assumed to write what they are given.'
