# further properties (executed by props.py)
prop("C04", "EnbPI intervals come from out-of-bag bootstrap residuals and quantiles",
     "For all bootstrap data, EnbPI's training residual of a point is the absolute difference between its target and the mean prediction of the bootstraps that do not contain it (the absolute target where every bootstrap contains it), each test point is predicted by the 1 - error quantile of the corresponding leave-one-out aggregates, and its interval is that prediction minus/plus the 1 - error quantile of the training residuals, which are returned on request. Updating online with a batch of new targets keeps exactly the most recent T of the old residuals followed by the absolute prediction errors, and recentres the intervals by the new quantile. Inputs of inconsistent shape and bootstrap indices outside the training range are rejected with ValueError, and caller arrays are never modified.",
     "all numbers of bootstraps, training and test points, all index matrices and array contents, all error levels",
     "Tests check shapes on random arrays; no test knows what the residuals or intervals should be.",
     ["fortuna/conformal/regression/enbpi.py"],
     [("leave-one-out aggregation", "EnbPI._get_train_residuals / conformal_interval"), ("online update", "EnbPI.conformal_interval_from_residuals / update of residuals")],
     ["conformal_interval", "residuals"])

prop("C13", "Output layers are the categorical and Gaussian laws they claim to be",
     "For every batch of calibrated outputs, the classification output layer has log-density log softmax at the target, predicts softmax means, argmax modes, p(1 - p) variances and -sum p log p entropies, and the regression output layer has the diagonal Gaussian log-density, mean, mode, variance and standard deviation of the law whose mean and log-variance are the two halves of the outputs. Samples drawn with a given key are the law's reparametrisation of that key, in the documented shape, and the regression entropy, quantiles and credible intervals (scalar targets only, known interval types only, else ValueError) are the estimates from the samples of the given key. Given variances and probabilities are used instead of recomputed ones.",
     "all batch sizes, output dimensions, outputs, targets, quantile levels and keys",
     "Tests check the shape of each method's result for one batch.",
     ["fortuna/prob_output_layer/base.py", "fortuna/prob_output_layer/classification.py", "fortuna/prob_output_layer/regression.py"],
     [("categorical law", "ClassificationProbOutputLayer"), ("Gaussian law", "RegressionProbOutputLayer")],
     ["log_prob", "mean", "mode", "variance", "std", "entropy", "sample", "quantile", "credible_interval"])

prop("C15", "Likelihood, prior and joint are the stated densities and statistics",
     "For any model, parameters, state and calibrator, the likelihood's log-probabilities, outputs, means, modes, variances, entropies, samples and quantiles are those of the output layer's law at the calibrated model outputs, one row per data point in the order of the loader, whatever the batch sizes and whether or not computation is distributed over devices. The batched log-likelihood is n_data / batch size times the sum of the log-densities, the joint adds the prior's log-density and the negative version negates it, each returning exactly the requested auxiliary objects and raising for unknown auxiliary names or inconsistent arguments. The Gaussian priors evaluate and sample the stated (isotropic or diagonal) Gaussian over all the parameters of the tree.",
     "all batch splits, batch sizes, device counts, widths, models, parameters, calibrators, keys and auxiliary requests",
     "Tests check shapes on one batch of a tiny model; wrong weights, orders, or dropped terms keep every shape.",
     ["fortuna/likelihood/base.py", "fortuna/likelihood/classification.py", "fortuna/likelihood/regression.py", "fortuna/prob_model/joint/base.py", "fortuna/prob_model/prior/gaussian.py"],
     [("batch loops", "Likelihood._loop_fun_through_*_loader"), ("log-joint weights", "Likelihood._batched_log_joint_prob, Joint._batched_log_joint_prob"), ("priors", "IsotropicGaussianPrior, DiagonalGaussianPrior")],
     ["log_prob", "mean", "mode", "variance", "std", "entropy", "sample", "quantile", "log_joint_prob"])

prop("C12", "Predictive statistics are posterior mixtures of the likelihood for the key",
     "For any posterior, model, calibrator and random key, the predictive log-probability is the log of the mean likelihood over the posterior samples drawn with the split keys, means and aleatoric and epistemic variances are the mixture's (total = aleatoric + epistemic, standard deviations are their roots), entropies are those of the mixture, and target samples, quantiles and credible intervals come from one posterior draw per target sample. Results are in the order of the loader, independent of batch splits and of distribution over devices, and the same key gives the same result. Credible sets are the smallest sets of most probable labels whose mass exceeds 1 - error, and conformal sets hold the labels whose importance-weighted rank exceeds error (n + 1).",
     "all batch splits, batch sizes, device counts, posterior sample sizes, posteriors, models, calibrators and keys",
     "Tests check shapes of the predictive methods on tiny data with one device; wrong mixtures or orders keep every shape.",
     ["fortuna/prob_model/predictive/base.py", "fortuna/prob_model/predictive/classification.py", "fortuna/prob_model/predictive/regression.py"],
     [("posterior mixtures", "Predictive._batched_*, _loop_fun_through_*_loader"), ("ensemble loops", "_loop_ensemble_fun_through_inputs_loader"), ("entropies", "ClassificationPredictive/RegressionPredictive.*_entropy")],
     ["log_prob", "ensemble_log_prob", "mean", "variance", "entropy", "sample", "quantile", "credible_interval", "credible_set", "conformal_set"])

prop("C16", "SG-MCMC schedules, integrators and sample collection follow their recipes",
     "Every step schedule returns its documented formula at every step and rejects invalid parameters; the preconditioners keep the running average of squared gradients and multiply by the documented powers of the diagonal matrix; one SGHMC or cyclical SGLD step updates momentum, parameters, count, moments and random key by the published recursion (momentum resampling and the exploration / sampling phases included) for every parameter tree. The sampling callbacks store the synchronised current state exactly at every n_thinning-th step after the burn-in (SGHMC) or in the sampling phase of a cycle (cyclical SGLD), numbered consecutively up to n_samples, and reject configurations that would yield too few samples. The kernel Stein discrepancy is the published statistic of samples and gradients, with c > 0 and beta < 0 enforced.",
     "all steps, step sizes, cycle lengths, parameter trees, gradients, keys, thinnings and burn-ins",
     "Tests run a few steps and check shapes, tree structure or a rough bound; the recursion and the sampling steps are not checked.",
     ["fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_preconditioner.py", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_integrator.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_integrator.py", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_callback.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py"],
     [("recursions", "sghmc_integrator, cyclical_sgld_integrator, rmsprop_preconditioner"), ("sample collection", "SGHMCSamplingCallback, CyclicalSGLDSamplingCallback")],
     ["update", "training_step_end", "kernel_stein_discrepancy_imq"])

prop("C21", "Kernel regression and embedding OOD scores are their published estimators",
     "The Nadaraya-Watson regressor predicts, at every point, the average of the training targets weighted by kernel((x - x_i) / bandwidth), for every kernel, bandwidth, and training set (a constant or single target included), and rejects inputs that are not one-dimensional or of different lengths. The Mahalanobis classifier fits the mean of each class and the shared covariance of the class-centred embeddings, and scores a point by the smallest squared Mahalanobis distance to a class mean; the DDU classifier fits each class's mean and unbiased covariance and scores minus the log of the summed Gaussian class densities. Scoring before fitting raises.",
     "all training sets, kernels, bandwidths, labels, embedding dimensions and query points",
     "Tests compare shapes or a single toy data set.",
     ["fortuna/kernel_regression/nadaraya_watson.py", "fortuna/kernel_regression/kernels/gaussian.py", "fortuna/ood_detection/mahalanobis.py", "fortuna/ood_detection/ddu.py", "fortuna/ood_detection/base.py"],
     [("weights", "NadarayaWatsonKernelRegressor.predict / evaluate_scaled_kernel"), ("class moments", "compute_mean_and_joint_cov, compute_classwise_mean_and_cov"), ("scores", "compute_mahalanobis_distance, _get_logpdf_fn")],
     ["predict", "fit", "score"])

prop("C09", "Losses, temperature calibrators and clipping compute their formulas",
     "The cross-entropy, focal and scaled squared-error losses are the means over the data points of their documented formulas at the targets; the temperature scalers divide class scores by the temperature and add the log-temperature to the log-variance half of regression outputs only. The output calibration manager passes parameters, mutable state, training flag and dropout key to the calibrator, returns the outputs unchanged without a calibrator, and the calibration losses evaluate the calibrated outputs, return exactly the requested auxiliary objects and reject inconsistent arguments. Gradient clipping by value and by global norm and the stepped learning-rate schedule compute their documented values for every gradient tree, bound and step.",
     "all batch sizes, widths, outputs, targets, temperatures, gradient trees, bounds, steps, and combinations of optional arguments",
     "Tests check shapes, finiteness or one toy value.",
     ["fortuna/loss/classification/cross_entropy.py", "fortuna/loss/classification/focal_loss.py", "fortuna/loss/regression/scaled_mse.py", "fortuna/output_calibrator/classification.py", "fortuna/output_calibrator/regression.py", "fortuna/output_calibrator/output_calib_manager/base.py", "fortuna/calib_model/loss.py", "fortuna/output_calib_model/loss.py", "fortuna/utils/training.py", "fortuna/utils/optimizer.py"],
     [("losses", "cross_entropy_loss_fn, focal_loss_fn, scaled_mse_fn"), ("calibration", "OutputCalibManager.apply, *TemperatureScaler"), ("loss plumbing", "calib_model.loss.Loss, output_calib_model.loss.Loss"), ("optimiser helpers", "clip_grandients_by_*, stepped_schedule")],
     ["loss functions", "apply", "clip_grandients_by_norm", "stepped_schedule"])

prop("C17", "Training steps, schedules, stopping and checkpoints follow the trainer's options",
     "For every loss, state and batch, a training step evaluates the loss with the key folded with the step count, accumulates gradients over gradient_accumulation_steps batches, averages them over that number (and over devices), clips the average, applies the optimiser once per accumulation and only then advances the step, skips the update of non-finite gradients under a dynamic loss scale, and carries the mutable state and loss on; validation evaluates losses and metrics without changing the state. Training and validation metrics, callbacks, validation epochs and early stopping happen on the schedule the options request: early stopping stops after `patience` evaluations without an improvement of at least min_delta, and checkpoints are saved at the requested frequency and, when tracking the best model, exactly when the monitored metric improves. Frozen parameters are not changed by training and the others are updated as if only they were trained.",
     "all losses, gradients, parameter trees, batches, device counts, accumulation numbers, clippings, metric histories and options",
     "Tests run a few epochs of a toy model and check finiteness, types or one schedule; which gradient reaches the optimiser is not checked.",
     ["fortuna/training/trainer.py", "fortuna/training/mixin.py", "fortuna/training/callback.py", "fortuna/training/train_state.py", "fortuna/utils/training.py"],
     [("training step", "TrainerABC.training_step / JittedMixin / MultiDeviceMixin"), ("end of step and epoch", "TrainerABC.training_step_end, _train_loop, _val_loop"), ("stopping and saving", "WithEarlyStoppingMixin, WithCheckpointingMixin")],
     ["training_step", "training_step_end", "train", "is_early_stopping_active", "save_checkpoint"])

prop("C14", "Data loaders yield exactly their data points, in order, on every pass",
     "For any batches, a loader made from an iterable, callable or arrays yields exactly the given data points in order (or, shuffled, in the seeded permutation) on every pass; its size is the number of data points and its length the number of batches, and views of inputs or targets and conversions to arrays keep the order and pair inputs with their targets. Chopping keeps from each batch the largest multiple of the divisor and drops only shorter batches; splitting at n_data gives the first n_data points and the rest; sampling draws the requested number of data points, the same for the same seed; transformations see the batches in order, start every pass from the given status, which they do not change, and drop only what the transformation drops. Prefetching changes nothing, and combined loaders hold every point of every loader with that loader's label.",
     "all batch splits, sizes, divisors, contents, transformations, seeds and numbers of passes",
     "Tests iterate over one small array with one batch size; boundary batches, second passes and statuses are not explored.",
     ["fortuna/data/loader/base.py", "fortuna/data/loader/array_loaders.py", "fortuna/data/loader/utils.py"],
     [("iterables", "IterableData"), ("views", "BaseInputsLoader.from_data_loader, BaseTargetsLoader.from_data_loader"), ("chop / split / sample", "DataLoader, InputsLoader, TargetsLoader")],
     ["__iter__", "size", "chop", "split", "sample", "to_array_data", "to_transformed_data_loader"])

prop("C18", "Posterior approximations sample and train the approximation they describe",
     "For any model parameters, curvatures, flags and random key, a Laplace sample is the MAP parameters plus Gaussian noise of the stated posterior variance on exactly the parameters chosen for it, a SWAG sample adds the diagonal and the low-rank deviations in their published proportions, an ADVI sample is the affine image of the base sample, and MAP, deep-ensemble and SG-MCMC samples are one of the stored states, drawn uniformly with the key; calibration parameters and mutable objects come along unchanged. Training SWAG keeps the running first and second moments and the last `rank` deviations, the normalising-flow loss is the negative ELBO of the samples it draws, and the Gaussian flow's density, sample and affine maps are inverse and consistent. Laplace prior tuning returns a candidate of the grid (or the current value) with the largest validation log-probability, the log-probability being the log of the mean likelihood over posterior samples, and states converted or restored keep every value.",
     "all parameter shapes, values, curvatures, choices of the parameters under approximation, ranks, step counts and keys",
     "Tests run each posterior end to end on toy data and check shapes; the law that a sample follows is not checked.",
     ["fortuna/prob_model/posterior/laplace/laplace_posterior.py", "fortuna/prob_model/posterior/laplace/laplace_state.py", "fortuna/prob_model/posterior/swag/swag_posterior.py", "fortuna/prob_model/posterior/swag/swag_trainer.py", "fortuna/prob_model/posterior/normalizing_flow/normalizing_flow_trainer.py", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_architecture.py", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py", "fortuna/distribution/gaussian.py", "fortuna/prob_model/posterior/map/map_posterior.py", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py", "fortuna/prob_model/posterior/state.py", "fortuna/utils/nested_dicts.py", "fortuna/utils/random.py"],
     [("sampling", "LaplacePosterior.sample, SWAGPosterior.sample, ADVIPosterior.sample"), ("moments", "SWAGTrainer.training_step_end"), ("variational loss", "NormalizingFlowTrainer.training_loss_step"), ("tuning", "LaplacePosterior.prior_log_variance_tuning")],
     ["sample", "training_step_end", "training_loss_step", "prior_log_variance_tuning", "convert_from_map_state"])

prop("C05", "Multivalid calibration keeps exactly the patches that lower the losses",
     "For all data, every round of iterative multicalibration and BatchMVP takes, among the sets (group, bucket, class) of probability at least the minimum, the first one of largest calibration error, computes the patch that closes its gap (of means, their ratio, or the coverage shift of the grid), and moves only the points of that set by the step, clipped to [0, 1]; the patch is kept iff neither the training nor the validation loss increases (or the absolute tolerance is met), the status reports the validation losses, the number of kept patches and convergence iff a tolerance is met, and the test data get exactly the kept patches in order. Reported calibration errors are the sums over buckets of the weighted squared gaps of every group, losses are the stated means, BatchMVP sets hold the labels scored at most the point's threshold, and caller arrays are not modified. Inconsistent, out-of-range or misshaped arguments raise ValueError.",
     "all sample sizes, groups, values, scores, targets, tolerances, steps and splits (rounds: up to 2 in the proof of the round loop, 4 in concrete runs)",
     "Tests run a few configurations and check output shapes only.",
     ["fortuna/conformal/multivalid/base.py", "fortuna/conformal/multivalid/iterative/base.py", "fortuna/conformal/multivalid/iterative/multicalibrator.py", "fortuna/conformal/multivalid/iterative/batch_mvp.py", "fortuna/conformal/multivalid/mixins/multicalibrator.py",
      "fortuna/conformal/multivalid/mixins/batchmvp.py", "fortuna/conformal/multivalid/iterative/classification/top_label_multicalibrator.py", "fortuna/conformal/multivalid/iterative/classification/binary_multicalibrator.py", "fortuna/conformal/multivalid/iterative/regression/batch_mvp.py"],
     [("round loop", "IterativeMultivalidMethod.calibrate"), ("sets, errors and patches", "_get_b, _calibration_error, _get_patch, _patch of the methods"), ("replay on test data", "IterativeMultivalidMethod.apply_patches")],
     ["calibrate", "apply_patches", "calibration_error", "mean_squared_error", "pinball_loss", "conformal_set"])

prop("C06", "One-shot multicalibration maps each value to its own bucket's mean score",
     "For all calibration data and bucket counts, the patch of a bucket (and class, for top-label calibration) is the mean score of the calibration points within half a bucket of its grid value (and with that top label) when their probability exceeds the minimum, and the grid value itself otherwise. Applying the patches replaces every value (every probability of a top label) by the patch of the grid value nearest to it, independently of which other points are patched with it, and leaves everything else unchanged. Missing values, wrong dimensions or types and values or minimum probabilities outside [0, 1] raise ValueError.",
     "all numbers of points and buckets, all values, scores, targets and minimum probabilities",
     "Tests call calibrate on random data and check shapes only.",
     ["fortuna/conformal/multivalid/base.py", "fortuna/conformal/multivalid/one_shot/base.py", "fortuna/conformal/multivalid/one_shot/multicalibrator.py", "fortuna/conformal/multivalid/one_shot/classification/top_label_multicalibrator.py", "fortuna/conformal/multivalid/one_shot/classification/binary_multicalibrator.py"],
     [("patches", "OneShotMultivalidMethod.calibrate, OneShotMulticalibrator._get_patch"), ("application", "OneShotMultivalidMethod.apply_patches, _patch")],
     ["calibrate", "apply_patches", "patches"])
