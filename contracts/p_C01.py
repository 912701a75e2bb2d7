from . import variables as V, space as S, design as D, search as H, evaluators as E
CONTRACTS = V.ROUND + V.CODING + S.ALL + H.APPLYC + D.UNIF + D.SPACE + D.RANDOMS + E.BATCH
NOTE = 'The chain from a local-search result to a suggestion: apply_optimizer returns a rounded point whatever the local search returns; round_optimum (Design_space and every variable class) yields legal points; the suggestion is decoded by unzip/model_to_objective, which maps legal encodings to declared values; evaluators only pass on points they were given; random candidates (fill, uniform, rejection) are legal. One-dimensional variables; multi-dimensional declarations and bandits at space level are bounded (concrete driver).'
