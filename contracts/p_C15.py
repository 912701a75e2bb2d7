from . import cost as K
CONTRACTS = K.CONTRACTS
NOTE = 'CostModel in its three modes, driven through its interface with arbitrarily many earlier updates: values, gradients, labels and the exact data handed to the cost regression; evaluate_objective, _init_design_chooser and run_optimization hand over every evaluated point (encoded) with its time exactly once, in order. GPModel is used through its contract (C13).'
