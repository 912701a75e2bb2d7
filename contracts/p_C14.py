from . import evaluators as E
CONTRACTS = E.CONTRACTS
NOTE = 'compute_batch of Sequential, RandomBatch, ThompsonBatch (with and without de-duplication) and LocalPenalization: for every batch size exactly that many rows, the first the acquisition optimum, the others as the evaluator promises. Candidate generation, refinement and the acquisition optimum are used through contracts that are discharged under C21.'
