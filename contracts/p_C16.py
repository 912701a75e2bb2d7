from . import cfg as C, search as S, design as D
CONTRACTS = C.CONTRACTS + S.CHOOSE + D.INITIAL
def finding_of(label, name): return 'driver_unfold_args' if '[driver_unfold_args]' in name else None
TRUST = ['json.load returns a tree (finite, no sharing); termination of the recursive merge', 'constructors of variables, spaces, surrogates are stood in for by recorders where the property is only about what they are given']
NOTE = ('Every creator of arguments_manager, select_model/acquisition/evaluator, choose_optimizer, initial_design, create_variable: one contract per documented name, for any subset of settings given with arbitrary values (each setting reaches its attribute, its default otherwise), and one for an arbitrary other name (rejected). '
        'update_config is verified against the recursive definition of the merge for dictionaries with any keys and values (induction over nesting through its own contract); parser deep-copies the defaults. BODriver methods, BayesianOptimization.__init__, BO.__init__ and ModularBayesianOptimization.__init__ are verified against recorders of the parts. '
        'A configuration space must state each dimensionality and give domains as strings (as the examples do). Known finding: a run from a configuration raises TypeError (unfold_args).')
