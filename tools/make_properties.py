"""Writes /verif/properties.jsonl."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
        ),
    )
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop(
    "C01",
    "Polynomial arithmetic evaluates pointwise",
    "Any expression over named variables built from sums, differences, products, negation, "
    "non-negative integer powers, numeric constants on either side, and substitution of a polynomial for "
    "a variable yields a polynomial object whose value at every point equals the value of the same "
    "expression computed on numbers. The same holds for exponentiated polynomials under products, scaling, "
    "negation, substitution and translation of a variable, also when coefficients or inputs are broadcasting arrays. "
    "Operations never modify their operands.",
    ["inputs", "programs"],
    "all expression trees over the operators, all variable assignments, scalar and array coefficients",
    "The existing tests evaluate a handful of fixed two- or three-term expressions; like terms, zero powers, cancellation "
    "and nested substitution are not sampled.",
    ["gpcm/exppoly.py"],
    [("polynomial, term and factor arithmetic", "gpcm/exppoly.py: Poly/Term/Factor operators"),
     ("substitution", "gpcm/exppoly.py: substitute, translate_var")],
    ["eval of polynomials and exponentiated polynomials"],
)
prop(
    "C02",
    "Polynomials have a canonical form: equality, hashing and structural queries",
    "Two polynomials (or exponentiated polynomials) compare equal exactly when they are the same polynomial (and constant), however they were "
    "built, including when terms cancel; equal terms and factors have equal hashes. "
    "Whether a polynomial depends on a variable, is constant, its highest power in a variable, the coefficient collected for a power of a variable, "
    "and the part not involving a variable all agree with the mathematical polynomial.",
    ["inputs", "programs"],
    "all polynomials with integer coefficients in a few variables, built along any two routes",
    "Tests compare a few hand-written polynomials; they never build the same polynomial along different routes or make terms cancel.",
    ["gpcm/exppoly.py"],
    [("merging of common factors and terms", "gpcm/exppoly.py: Term.__init__, Poly.__init__"),
     ("structural queries", "gpcm/exppoly.py: collect_for, reject, highest_power, is_constant, is_function_of")],
)
prop(
    "C03",
    "Integrals of Gaussian exponentials over the whole line are exact",
    "Integrating an exponentiated polynomial that is negative-definite quadratic in the integrated variables over any number of variables "
    "from minus to plus infinity gives the exact value of the integral, in every order of integration, for any scale and offset and for "
    "linear coefficients that depend on the remaining variables. Broadcasting inputs are integrated pointwise.",
    ["inputs"],
    "all negative-definite quadratics in up to four integration variables with polynomial dependence on free variables, all evaluation points and shapes",
    "Tests check a few fixed integrands at single points.",
    ["gpcm/exppoly.py"],
    [("completing the square variable by variable", "gpcm/exppoly.py: ExpPoly.integrate, _integrate")],
)
prop(
    "C04",
    "Half-line and box integrals of Gaussian exponentials are exact",
    "Integrating an exponentiated quadratic over one or two variables from minus infinity to zero, or over boxes whose limits are numbers, arrays, polynomials of other variables "
    "or infinite in either direction, in any mix with fully infinite variables, gives the exact integral. Integrals are additive over adjacent boxes, "
    "and half-line integrals over all quadrants add up to the full integral.",
    ["inputs"],
    "all negative-definite quadratics in one or two boxed variables (plus fully integrated ones), all finite/infinite limit combinations, correlations over (-1, 1)",
    "Tests use a few fixed limits, never a finite lower with an infinite upper limit, and few correlations.",
    ["gpcm/exppoly.py"],
    [("univariate half integral through erf", "gpcm/exppoly.py: _integrate_half1"),
     ("bivariate half integral through the bivariate normal CDF", "gpcm/exppoly.py: _integrate_half2"),
     ("decomposition of a box", "gpcm/exppoly.py: integrate_box")],
)
prop(
    "C05",
    "Unsupported integrals and operations are rejected, never answered wrongly",
    "Integrating over a variable whose dependence is not exactly quadratic (absent, linear, or of higher order), or whose quadratic coefficient depends on an unassigned variable when integrating over the whole line, raises an error instead of "
    "returning a number, for full, half-line and box integrals alike. Factors with powers below one, negative powers of polynomials, and collecting a factor that is not there are rejected.",
    ["inputs"],
    "all polynomials whose dependence on an integration variable has the wrong shape, in every position among the integration variables",
    "Tests try two or three malformed integrands.",
    ["gpcm/exppoly.py"],
    [("shape checks", "gpcm/exppoly.py: _integrate, _integrate_half1, _integrate_half2, Factor.__init__, Poly.__pow__")],
)
prop(
    "C06",
    "Constructors turn window and scale into the documented prior",
    "For every window, scale and explicit override, a freshly constructed model has prior signal power exactly one when the window's scale is left to default, a prior kernel that decays as documented for its window and scale "
    "(squared-exponential in the scale for the acausal model, its causal counterpart, exponential for the rough model), unit-variance inducing features of the filter (rough model) and of the excitation (smooth models), and a filter extent of four window lengths. "
    "Explicitly given parameters are used as given, except that the rough model's feature decay is kept below the window's decay, and flags, noise and scheme are stored as given.",
    ["configurations"],
    "all positive windows and scales, causal and acausal and rough models, all combinations of explicit parameters",
    "Tests check prior power for one configuration by Monte Carlo and scale conversion round trips only.",
    ["gpcm/gpcm.py", "gpcm/rgpcm.py"],
    [("parameter initialisation", "gpcm/gpcm.py: GPCM.__init__; gpcm/rgpcm.py: RGPCM.__init__"),
     ("length scale conversions", "gpcm/gpcm.py: scale_to_factor, factor_to_scale")],
)
prop(
    "C07",
    "Inducing points cover the filter and the data as documented",
    "Default filter inducing points span twice the filter length scale (both sides, including the origin, for the acausal model; from zero, with two extra points to the left for the causal smooth model; from zero for the rough model) with the documented density, and excitation points or Fourier features cover the data span with two per wiggle, "
    "extended by the filter length on the side(s) that matter on request while keeping their spacing. Requested counts and explicitly given locations are honoured, and caps apply to automatically determined counts with a warning.",
    ["configurations"],
    "all windows, scales, time ranges, counts, caps and explicit locations",
    "Tests construct models in one or two configurations and assert nothing about the layout.",
    ["gpcm/gpcm.py", "gpcm/rgpcm.py"],
    [("layout of inducing points", "gpcm/gpcm.py: GPCM.__init__ (t_u, t_z, extend_t_z)"),
     ("basis support and frequencies", "gpcm/rgpcm.py: RGPCM.__init__ (a, b, m_max, ms)")],
)
prop(
    "C08",
    "GPCM and CGPCM covariances and integrals equal their defining integrals",
    "For every parameter setting, set of inducing points and inputs, the covariance matrices of the inducing variables and the integrals I_hx, I_ux, I_hz and I_uz that the smooth models (causal and acausal) report equal "
    "direct numerical integration of the filter's kernel and the inter-domain kernel over the excitation, entry for entry.",
    ["inputs", "configurations"],
    "all positive parameters, inducing points and time points in either order, causal and acausal",
    "The existing tests check only the scale conversions and the prior power of these models; no integral is compared with anything.",
    ["gpcm/gpcm.py", "gpcm/exppoly.py"],
    [("model integrals as exponentiated polynomials", "gpcm/gpcm.py: compute_K_u, compute_K_z, compute_i_hx, compute_I_ux, compute_I_hz, compute_I_uz")],
)
prop(
    "C09",
    "RGPCM covariances and integrals equal their defining integrals",
    "For every parameter setting, basis support and inputs within the model's domain, the covariance matrices of the inducing variables and the integrals I_hx, I_ux, I_hz and I_uz that the rough model reports equal direct numerical integration "
    "of their definitions with an Ornstein-Uhlenbeck excitation and Fourier features, entry for entry. The order in which basis frequencies are listed only permutes the result.",
    ["inputs", "configurations"],
    "all positive parameters with the feature decay below the window decay, all supports containing the inputs and their filter features, all orders of frequencies",
    "Tests compare one configuration with quadrature.",
    ["gpcm/rgpcm.py"],
    [("closed-form integrals", "gpcm/rgpcm.py: compute_K_u, compute_K_z, compute_i_hx, compute_I_ux, compute_I_hz, compute_I_uz")],
)
prop(
    "C10",
    "Covariances are positive definite and conditional variances non-negative",
    "For every model the covariance matrices of the inducing variables are symmetric and positive definite, and the residual terms left after conditioning the filter and the excitation on their inducing variables are positive semi-definite (matrices) and non-negative (scalars), up to round-off. "
    "Adding observations never removes residual variance: the terms add up over observations.",
    ["inputs", "configurations"],
    "all models, parameters, layouts and data locations in the model's domain",
    "Tests check positive definiteness of one configuration of one model; the residual terms are not tested at all.",
    ["gpcm/approx.py", "gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/model.py"],
    [("residual terms", "gpcm/approx.py: Approximation.construct_terms")],
)
prop(
    "C11",
    "The kernel given the filter's inducing variables is a valid covariance",
    "For every model and every value of the filter's inducing variables, the approximate kernel equals the conditional expectation of the process covariance under the prior on the filter: its average over the prior is the prior covariance, it is symmetric, positive semi-definite, stationary, even in the inducing variables, "
    "and reduces to the prior minus the explained part at zero.",
    ["inputs", "configurations"],
    "all models, inducing variable values and pairs of inputs",
    "One Monte Carlo average at one configuration is tested.",
    ["gpcm/model.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"],
    [("kernel approximation", "gpcm/model.py: AbstractGPCM.kernel_approx")],
)
prop(
    "C12",
    "Prior samples have the covariance they come with",
    "Sampling from the prior returns a symmetric kernel matrix of the right shape that is a sample of the model's stationary kernel at the inputs, together with a noisy function drawn with that covariance plus independent noise of the model's variance. "
    "With normalisation the kernel has unit variance, and everything is reproducible from the random seed; sampling a conditioned model is refused.",
    ["inputs", "configurations"],
    "all models, inputs, noise levels and seeds",
    "Tests check the average power of samples at one configuration; not the joint law of kernel and function.",
    ["gpcm/model.py", "gpcm/util.py"],
    [("sampling", "gpcm/model.py: AbstractGPCM.sample")],
)
prop(
    "C13",
    "Natural-parameter Gaussians agree with ordinary Gaussians",
    "A Gaussian given by natural parameters has the mean, variance, second moment, log-density, Kullback-Leibler divergence and samples of the Gaussian with that precision, whatever structure (dense, diagonal, low-rank plus diagonal) the precision has, and converting from and to the mean/variance form round-trips. "
    "The divergence is non-negative and zero only between equal distributions.",
    ["inputs"],
    "all means and positive-definite precisions of any dimension, all matrix structures, all evaluation points",
    "Tests check one random three-dimensional instance.",
    ["gpcm/normal.py"],
    [("natural parametrisation", "gpcm/normal.py: NaturalNormal")],
)
prop(
    "C14",
    "Optimal conditionals satisfy Bayes' rule exactly",
    "For every model, data set and value of the other variable, the optimal distribution of the filter's inducing variables given the excitation's (and vice versa) is the Gaussian proportional to prior times expected likelihood: the log of prior times expected likelihood minus the conditional's log-density is the same constant for every value. "
    "For the excitation that constant is the reported normaliser, and with point-mass inputs the mean-field optimum coincides with the conditional optimum.",
    ["inputs", "configurations"],
    "all models, parameters, data, and values of the inducing variables",
    "No test touches the approximation code.",
    ["gpcm/approx.py"],
    [("optimal conditionals", "gpcm/approx.py: q_u_optimal, q_z_optimal, q_u_optimal_mean_field, q_z_optimal_mean_field, log_Z_u")],
)
prop(
    "C15",
    "Mean-field coordinate ascent climbs to a fixed point of the ELBO",
    "Replacing one factor of the mean-field approximation by its optimum never decreases the ELBO and no perturbation of that factor increases it; a collapsed ELBO equals the ELBO at the collapsed factor's optimum. "
    "A coordinate-ascent fit therefore ends with factors that are each other's optimum (to its tolerance) and an ELBO at least that of its start, and a gradient fit of the mean-field approximation does not end below its start.",
    ["inputs", "histories", "configurations"],
    "all models, data and current factors; all iteration counts",
    "No test fits a model.",
    ["gpcm/approx.py", "gpcm/model.py"],
    [("fixed-point iterations", "gpcm/approx.py: _fit_mean_field_ca"), ("ELBO", "gpcm/approx.py: MeanField.elbo"), ("fits", "gpcm/approx.py: fit")],
)
prop(
    "C16",
    "Every ELBO is a lower bound on the log marginal likelihood",
    "For every model, parameters and data, no mean-field, collapsed or structured ELBO exceeds the log marginal likelihood of the model, and collapsing over a factor never lowers the bound: "
    "mean-field ELBO <= ELBO collapsed over one factor <= structured ELBO with the same filter factor (up to Monte Carlo error) <= log marginal likelihood.",
    ["inputs", "configurations"],
    "all models, parameters, data sets and variational factors",
    "No test evaluates an ELBO.",
    ["gpcm/approx.py", "gpcm/model.py"],
    [("ELBOs", "gpcm/approx.py: MeanField.elbo, Structured.elbo_collapsed_z, Structured.log_Z_u")],
)
prop(
    "C17",
    "The ELBO is the documented expectation and respects the model's symmetries",
    "The ELBO equals expected log-likelihood minus Kullback-Leibler divergences computed from the factors' moments, for mean-field, collapsed and structured schemes, and equals the sum of the parts contributed by single observations. "
    "It does not depend on the order of observations, on negating the data together with one factor, on a common shift of data and inducing locations, on the array library the data comes in, or on compilation.",
    ["inputs", "configurations"],
    "all models, schemes, data sets and factors; all permutations and shifts",
    "No test evaluates an ELBO.",
    ["gpcm/approx.py", "gpcm/model.py"],
    [("ELBOs", "gpcm/approx.py: MeanField.elbo, Structured.elbo_gibbs, elbo_collapsed_z"), ("terms", "gpcm/approx.py: construct_terms")],
)
prop(
    "C18",
    "Predictions are the moments of the approximate posterior",
    "Predictive means and variances equal the moments of a noisy observation under the current approximate posterior (averaged over stored posterior samples for the structured scheme) and the model's conditional prior. "
    "The variance is never below the observation noise, each prediction depends only on its own input, and predictions do not depend on batching, order or the array library of the inputs; before conditioning, mean-field predictions are those of the prior.",
    ["inputs", "configurations", "histories"],
    "all models, schemes, factors or stored samples, and prediction inputs",
    "No test makes a prediction.",
    ["gpcm/approx.py", "gpcm/model.py"],
    [("predictive moments", "gpcm/approx.py: _predict_moments, predict")],
)
prop(
    "C19",
    "Conditioning, evaluating and predicting do not disturb the model",
    "Conditioning returns a posterior and leaves the model it was called on a prior; predictions, kernel, spectrum, filter and feature predictions, sampling, ELBO evaluation, and instantiation, in any order and number, leave the learned hyperparameters and the stored posterior unchanged, so that repeating any of them with the same random seed gives the same answer. "
    "Evaluating a mean-field ELBO changes nothing at all.",
    ["histories"],
    "all sequences of reads and conditionings on fitted models",
    "No test calls more than one method of a model.",
    ["gpcm/model.py", "gpcm/approx.py"],
    [("conditioning", "gpcm/approx.py: Approximation.condition"), ("stored posterior", "gpcm/approx.py: q_u, q_z, q_u_samples, q_z_samples")],
    state=[("vs", "parameters and stored posterior", "gpcm/model.py: AbstractGPCM.__init__")],
)
prop(
    "C20",
    "Every model works with every documented approximation scheme end to end",
    "For each of the three models and each documented scheme, construct, sample, fit, compute the ELBO, condition, predict, and predict the kernel, spectrum, filter and Fourier features all succeed and give finite results of the documented shapes, with quantiles ordered and variances non-negative (a spectrum in decibels may be minus infinity at frequencies without power). "
    "Scheme names are case-insensitive, and an unknown scheme is refused when the model is used.",
    ["configurations", "histories"],
    "all models times all schemes times small data sets and sizes",
    "Tests never fit any model with any scheme.",
    ["gpcm/model.py", "gpcm/approx.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"],
    [("scheme selection", "gpcm/model.py: AbstractGPCM.__prior__"), ("fits", "gpcm/approx.py: fit")],
)
prop(
    "C21",
    "Fitting respects fixed parameters and constraints",
    "Fitting never changes a parameter that was requested to be fixed (noise, window, scale, or all hyperparameters when only the posterior is to be fitted), while unfixed ones are free to move. "
    "After any fit all learned positive parameters are positive and finite, the rough model's feature decay stays below its window decay, and filter inducing points stay within their bounds. Fitting a conditioned model leaves the posterior of the earlier data as it was.",
    ["configurations", "histories"],
    "all models, schemes that learn hyperparameters, flag combinations and data sets",
    "No test fits a model.",
    ["gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/approx.py"],
    [("constraints", "gpcm/gpcm.py: __prior__; gpcm/rgpcm.py: __prior__"), ("selection of trained variables", "gpcm/approx.py: ignore_qs, fit")],
)
prop(
    "C22",
    "Saving and loading a model round-trips",
    "A model constructed the same way and loaded from a file written by another gives the same hyperparameters, stored posterior, ELBO and predictions as the saved one, for every model and scheme, whether the loading model was fresh, already instantiated, or fitted to something else. "
    "Saving does not alter the model, and saving a loaded model again stores the same values.",
    ["histories", "configurations"],
    "all models, schemes, states of the receiving model",
    "No test saves or loads.",
    ["gpcm/model.py"],
    [("pickle of variables", "gpcm/model.py: save, load")],
)
prop(
    "C23",
    "Gradients used for learning are the gradients of the objectives",
    "For every model, the automatic gradient of each differentiable ELBO with respect to every unconstrained parameter and factor is finite and equals its numerical derivative.",
    ["inputs", "configurations"],
    "all models, parameters, data and directions",
    "No test differentiates an ELBO.",
    ["gpcm/approx.py", "gpcm/exppoly.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"],
    [("safe square roots", "gpcm/exppoly.py: safe_sqrt"), ("differentiable terms", "gpcm/approx.py: construct_terms")],
)
prop(
    "C24",
    "Every elliptical slice sampling move is a legal move",
    "Every sample lies on the ellipse through the previous state and a fresh draw from the prior, has a log-likelihood above the current slice (never outside the support), and the stored log-likelihood is always the one of the stored state. "
    "The bracket only shrinks and always contains the current state, so a sample terminates with finitely many likelihood evaluations; a failed attempt leaves the state untouched and is retried with a fresh ellipse, and the requested number of samples is returned.",
    ["histories", "inputs"],
    "all likelihoods (including bounded support and plateaus), initial states, dimensions and numbers of samples",
    "Tests check the first two moments of one Gaussian target.",
    ["gpcm/sample.py"],
    [("slice and bracket", "gpcm/sample.py: ESS._draw, _draw_bracket, _draw_proposal, _sample")],
    state=[("x, log_lik_x", "current state and its log-likelihood", "gpcm/sample.py: ESS")],
)
prop(
    "C25",
    "Elliptical slice sampling leaves the target distribution invariant",
    "Starting from a draw of the posterior proportional to prior times likelihood, one or more elliptical slice sampling moves give another draw from the same posterior, for Gaussian, truncated, skewed and multimodal likelihoods in any dimension.",
    ["inputs", "histories"],
    "all likelihoods and zero-mean Gaussian priors; distributional statement over the random numbers",
    "Tests check moments of one Gaussian posterior.",
    ["gpcm/sample.py"],
    [("slice sampling", "gpcm/sample.py: ESS")],
)
prop(
    "C26",
    "Spectrum estimates have the right frequencies, power and shape",
    "A power spectral density estimated from kernel samples on an equally spaced grid starting at zero is real and non-negative, lives on the non-negative frequencies of the zero-padded grid, has total (two-sided) power equal to the kernel's value at zero, and has the shape of the Fourier transform of the symmetrised kernel. "
    "Scaling the kernel scales it, rescaling time rescales frequencies inversely, decibels are ten times the base-ten logarithm, the inputs are left alone, and a grid not starting at zero is refused.",
    ["inputs"],
    "all kernels, grids and amounts of zero padding",
    "No test calls it.",
    ["gpcm/util.py"],
    [("FFT of the symmetrised kernel and normalisation", "gpcm/util.py: estimate_psd")],
)
prop(
    "C27",
    "The closest PSD matrix is the projection onto the PSD cone",
    "For every square matrix, the repaired matrix is symmetric, positive semi-definite, equal to the input when that already is, and no PSD matrix is closer to the symmetric part in Frobenius norm; batches are handled matrix by matrix. "
    "Its inverse version is the (pseudo-)inverse of that projection.",
    ["inputs"],
    "all square matrices, including indefinite ones with eigenvalues of equal magnitude, singular, and batched ones",
    "No test calls it.",
    ["gpcm/util.py"],
    [("eigenvalue clipping", "gpcm/util.py: closest_psd")],
)
prop(
    "C28",
    "Sample summaries are ordered statistics of the samples",
    "A summary of samples reports the pointwise mean and variance, lower and upper bounds that are the central 68%, 95% and 99.7% quantiles (hence nested and ordered), three distinct actual samples and all samples, with dimensions reversed as documented by their layout. "
    "It does not depend on the order of the samples, transforms correctly under shifts and positive scalings, and converts to decibels monotonically.",
    ["inputs"],
    "all sample arrays with at least three samples, with and without decibels",
    "No test calls it.",
    ["gpcm/util.py"],
    [("statistics", "gpcm/util.py: summarise_samples")],
)
prop(
    "C29",
    "The minimum-phase transform keeps the spectrum and concentrates energy early",
    "The minimum-phase version of a filter is real, of the same length, has the same amplitude spectrum and therefore energy, does not change with the sign or a circular shift of the filter, scales with it, leaves minimum-phase filters (decaying one-sided filters with a positive first coefficient and zeros inside the unit circle) unchanged and is idempotent; its energy arrives no later than that of the original.",
    ["inputs"],
    "all filters with a spectrum that does not vanish",
    "No test calls it.",
    ["gpcm/util.py"],
    [("Hilbert transform of the log-spectrum", "gpcm/util.py: min_phase")],
)
prop(
    "C30",
    "Autocorrelation and permutation utilities are exact",
    "The autocorrelation of a series equals the direct sum of lagged products of the centred series divided by the number of products (or by the length when windowed), with lag zero equal to one, the variance in covariance mode, invariance to shifts and scalings, and the requested number of lags. "
    "Inverting a permutation gives the permutation that undoes it on both sides, and collected quantities are returned under their names.",
    ["inputs"],
    "all series, lags and modes; all permutations",
    "No test calls them.",
    ["gpcm/util.py"],
    [("correlation", "gpcm/util.py: autocorr"), ("permutation inverse", "gpcm/util.py: invert_perm")],
)
prop(
    "C31",
    "Hessians, MAP estimates and Laplace approximations are exact on known densities",
    "The Hessian of a smooth function at any column vector is symmetric and equals the analytic one, and non-column inputs are refused. "
    "For a log-concave density the MAP estimate is a stationary point at least as probable as the start, and the Laplace approximation of an unnormalised Gaussian density recovers its mean and variance from any start; a separate evaluation density determines the curvature only.",
    ["inputs"],
    "all quadratic, exponential and polynomial test functions, dimensions and starting points",
    "No test calls them.",
    ["gpcm/util.py"],
    [("forward/reverse differentiation", "gpcm/util.py: hessian"), ("optimisation", "gpcm/util.py: maximum_a_posteriori, laplace_approximation")],
)
prop(
    "C32",
    "Kernel, spectrum, filter and feature predictions describe the fitted posterior",
    "Predictions of the kernel, the spectrum, the filter and the Fourier features of a conditioned model are statistics of the approximate posterior that was fitted, not of the prior or of an unfitted approximation: they follow from the stored samples (structured) or factors (mean-field) through the model's kernel, filter and feature definitions, on the requested inputs and number of samples. "
    "The filter prediction passes through the sampled filter values at the inducing points and vanishes where the filter must be zero, and minimum-phase filters start at time zero.",
    ["histories", "configurations", "inputs"],
    "all models and schemes, all stored posteriors, inputs and numbers of samples",
    "No test makes a prediction.",
    ["gpcm/model.py", "gpcm/approx.py", "gpcm/util.py"],
    [("kernel samples", "gpcm/approx.py: sample_kernel"), ("filter samples", "gpcm/model.py: predict_filter"), ("features", "gpcm/approx.py: predict_z"), ("spectrum", "gpcm/model.py: predict_psd")],
)
prop(
    "C33",
    "The experiment harness builds, trains and reloads the requested models",
    "The experiment harness builds exactly the requested models, in a fixed order, with the given settings, and refuses unknown names; training honours the training configuration, stores every model, and loading in a later run restores models that predict the same. "
    "Fixing hyperparameters from the command line leaves them as initialised.",
    ["configurations", "histories"],
    "all sets of model names, settings and training configurations",
    "The experiments are not tested.",
    ["experiments/experiment.py", "gpcm/model.py"],
    [("construction, training and loading", "experiments/experiment.py: setup, run, build_models, train_models")],
)
prop(
    "C34",
    "A structured fit stores Gibbs samples of its own approximate posterior",
    "After a structured fit the model holds samples of the filter's and the excitation's inducing variables that are successive draws of a Gibbs sampler under the final hyperparameters: every stored excitation sample is a draw from the optimal conditional given its filter sample, and every filter sample is one given the previous excitation sample. "
    "They come paired and in the documented number.",
    ["histories", "configurations"],
    "all models, data sets, with and without learning hyperparameters; distributional statement over the random numbers",
    "No test fits a model.",
    ["gpcm/approx.py"],
    [("Gibbs sampling", "gpcm/approx.py: fit (gibbs_sample), NaturalNormal.sample")],
    state=[("q_u_samples, q_z_samples", "stored posterior samples", "gpcm/approx.py: Structured")],
)
prop(
    "C35",
    "Instantiating a model exposes exactly the constructed parameters",
    "A freshly constructed model, when first used, carries exactly the parameter values, inducing locations and matrices it was constructed with (for any valid explicit values), inverses of covariance matrices that are inverses, and instantiating it any number of times, or together with other models, gives the same values. "
    "Instances of the same model share parameters, different models share nothing.",
    ["configurations", "histories"],
    "all models and valid constructor arguments, any number of instances",
    "Tests instantiate one model in one configuration.",
    ["gpcm/model.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"],
    [("registration of parameters", "gpcm/gpcm.py: __prior__; gpcm/rgpcm.py: __prior__; gpcm/model.py: __prior__")],
)
prop(
    "C36",
    "Conditioning makes the fitted posterior the prior for further observations",
    "After conditioning, the fitted approximate posterior acts as the prior: the ELBO of further data is computed against it, predictions come from it, and a mean-field coordinate-ascent fit to further data ends at an optimum that has it as the prior. "
    "Conditioning a mean-field model on no information changes nothing, the earlier posterior is kept unchanged through later fits, and conditioning can be repeated.",
    ["histories"],
    "all models, sequences of data sets",
    "No test conditions a model.",
    ["gpcm/approx.py", "gpcm/model.py"],
    [("chaining of posteriors", "gpcm/approx.py: Approximation.condition, p_u, p_z, q_u, q_z")],
    state=[("_q_i", "number of the current variational posterior", "gpcm/approx.py: Approximation")],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
