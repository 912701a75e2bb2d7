from . import suggest as S
CONTRACTS = S.CONTRACTS
NOTE = 'suggest_next_locations (two consecutive requests with opposite arguments on an optimizer in an arbitrary state) and _compute_next_evaluations: no call of the objective, data unchanged, surrogate fitted first on the current data, one batch computed with the context, pending and ignored points of exactly this request. The evaluators are used through their contracts (C14), DuplicateManager and ContextManager through theirs (C04, C03).'
