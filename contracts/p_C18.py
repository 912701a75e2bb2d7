from . import es as E
CONTRACTS = E.CONTRACTS
TRUST = ['exp and log: exp(a+b)=exp(a)exp(b), exp(log x)=x for x>0, exp>0; a finite sum of positive terms is positive; sums scale termwise', 'emcee.EnsembleSampler.run_mcmc returns the final positions and log densities of its walkers']
ASSUME = ['min_faktor yields log Z_k (a number or minus infinity) and derivatives of the documented shapes (column or vector); its shapes are exercised by the bounded harness only']
BOUNDED = ['min_faktor, lt_factor, log_relative_gauss (expectation propagation): run on random means and covariances, the two-point case against the exact normal probability']
NOTE = ('joint_min (with and without derivatives; any number of points, any factors including minus infinity): the log-probabilities exponentiate to a distribution, their ratios are those of the factors, derivative shapes match. AcquisitionEntropySearch._update_parameters: the representer points are exactly the samples of positive density, '
        'each with its own log value, and the belief is joint_min at exactly these points; invalid log values are rejected. Sampler: rows and log values as the chain returned them. min_faktor (expectation propagation) is an assumed contract, exercised by the bounded harness.')
