from . import dedup as D, evaluators as E, search as S
CONTRACTS = D.CONTRACTS + [c for c in E.BATCH if c.dedup] + [c for c in S.GENS if c.q[2]] + [c for c in S.APPLYC if ', de-duplication' in c.label]
NOTE = 'DuplicateManager (constructor, add, both queries) against the set of evaluated, pending and ignored rows; the batch loops keep chosen rows distinct (random, Thompson) and consult the manager; AnchorPointsGenerator.get drops excluded candidates and raises the explicit error when none is left; apply_optimizer never returns an excluded row when its start is not one.'
