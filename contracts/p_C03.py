from . import context as C, search as S
CONTRACTS = C.CONTRACTS + [c for c in S.APPLYC + S.GENS if '(context' in c.label or 'context,' in c.label and 'no context' not in c.label]
NOTE = 'ContextManager (any fixed variables in any order: free and fixed columns partition the model columns, bounds of the free ones, encoded values), _expand_vector, OptimizationWithContext inside apply_optimizer (value, gradient, start restricted to the free columns for an arbitrary query), context columns of every candidate and constraints checked on full points. Handing the context of each request to the search is C20/C14.'
