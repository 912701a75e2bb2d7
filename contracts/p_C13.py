from . import model as M
CONTRACTS = M.CONTRACTS
TRUST = ['GPy: what a regression predicts at a row is a function of its data, its kernel and the parameters in force; assigning through the model puts them in force, writing to its parameter array does so only at the next trigger (paramz)', 'GPy.inference.mcmc.HMC.sample(num_samples=m) returns m draws']
NOTE = ('GPModel and GPModel_MCMC: predict, predict_covariance, predict_withGradients, get_fmin (any number of queries, training points, coordinates, hyper-parameter samples, fixed parameters; vector queries), _create_model (kernel, noise, sparse, exact), updateModel and copy; '
        'WarpedGPModel.predict/get_fmin. GPy is external: its predictions are uninterpreted functions of the parameters in force and the query row. Out of reach: the random-forest wrapper (scikit-learn is not installed and it is not a Gaussian process) and the constructor of InputWarpedGPModel.')
