#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
D = "src/distribution/"
FAM = ["bernoulli","beta","binomial","categorical","cauchy","exponential","gamma","gaussian","laplace","logistic","lognormal","pert","triangular","uniform"]
def files(*n): return [D + x + ".rs" for x in n]
ALL = files("mod", *FAM)
CONT = files("beta","cauchy","exponential","gamma","gaussian","laplace","logistic","lognormal","pert","triangular","uniform")
P = []
def prop(id, title, statement, over, text, why, fs, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=fs, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Every CDF is a distribution function",
 "For each of the 14 families and every valid parameterisation, the cumulative distribution function returns a number in [0, 1], never decreases beyond rounding when its argument grows, and is exactly 0 below and exactly 1 above a bounded side of the support. For the discrete families it is a right-continuous step function that changes only at outcomes: it returns the same value everywhere from one outcome up to, but not including, the next.",
 ["inputs","histories"], "all valid parameters, all sets of arguments (support endpoints, neighbouring floats, far tails, infinities, random points), in any order of the calls",
 "Existing tests evaluate each CDF on one hand-picked grid for one or two parameterisations and compare values one by one; none relates two calls to each other, and none visits extreme parameters.",
 ALL, [("distribution() of each family", "src/distribution/*.rs"), ("prefix sums", "categorical.rs Categorical::new")], ["Distribution::distribution"],
 [("cumsum", "precomputed prefix sums of the probabilities", "categorical.rs")])
prop("C02", "CDF values are the true probabilities",
 "For each family, every valid parameterisation and every argument x, distribution(x) equals the probability that the random variable is at most x, to floating-point accuracy.",
 ["inputs"], "all valid parameters (tiny, unit, equal, integer, large, beyond 32-bit trial counts) and all real arguments",
 "The unit tests compare a few dozen values at one parameterisation per family with reference numbers; every branch boundary and parameter regime in between is unobserved.",
 ALL, [("closed forms, error function, incomplete beta and gamma", "src/distribution/*.rs")], ["Distribution::distribution"])
prop("C03", "Densities are the true densities, zero off the support",
 "For each continuous family, every valid parameterisation and every finite, non-subnormal x, density(x) is the derivative of the true distribution function to floating-point accuracy: never negative, never NaN, and exactly 0 outside the support. At an endpoint of the support it is the one-sided limit of the density (possibly infinite).",
 ["inputs"], "all valid parameters and all finite arguments, including support endpoints, modes and far tails",
 "Tests cover one parameterisation on a grid; endpoints for special shapes, large shapes and far tails are never evaluated.",
 CONT, [("density() of each continuous family", "src/distribution/*.rs"), ("norm", "gamma.rs Gamma::new"), ("ln_beta", "beta.rs, pert.rs")], ["Continuous::density"])
prop("C04", "Probability masses are the true masses and add up to the CDF",
 "For each discrete family (Bernoulli, binomial, categorical) and every valid parameterisation, mass(k) is the true probability of outcome k to floating-point accuracy, and it is exactly 0 for an integer that is not an outcome (a categorical argument must be one of its categories). The masses are consistent with the same object's distribution function: the masses of the outcomes up to k add up to distribution(k), and all masses add up to 1.",
 ["inputs","histories"], "all valid parameters including trial counts from 0 to 10^9 and all integer outcomes, inside and outside the support",
 "Tests check one small and one large binomial against reference numbers; outcomes outside the support, extreme probabilities, the saddle-point branches and the sum are not covered.",
 files("bernoulli","binomial","categorical"), [("saddle-point expansion", "binomial.rs mass, stirlerr, ln_d0")], ["Discrete::mass", "Distribution::distribution"])
prop("C05", "Continuous quantiles invert the CDF",
 "For each continuous family that offers inverse, every valid parameterisation and every p in [0, 1], inverse(p) is the p-quantile: the true distribution function at that point equals p to the accuracy the quantile's own rounding permits, and p = 0 and p = 1 give the endpoints of the support (infinite where the support is unbounded). It never decreases beyond rounding when p grows.",
 ["inputs","histories"], "all valid parameters and all probabilities, from 1e-300 to 1 - 2^-53, in any order of the calls; for beta and PERT p = 0, p = 1 or 1e-10 <= p <= 1 - 1e-10 and shapes from 0.2 to 30000, which is as far as the inverse incomplete beta function of the dependency `special` reaches",
 "Tests invert a grid of 11 to 21 probabilities for one parameterisation; tails, breakpoints of the rational approximations and skewed parameters are not reached.",
 files("beta","cauchy","exponential","gaussian","laplace","logistic","lognormal","pert","triangular","uniform"),
 [("AS 241 rational approximations", "gaussian.rs inverse"), ("inverse incomplete beta", "beta.rs, pert.rs inverse"), ("closed forms", "cauchy, exponential, laplace, logistic, triangular, uniform")], ["Inverse::inverse"])
prop("C06", "Bernoulli and categorical quantiles are the least admissible outcome",
 "For every Bernoulli and categorical distribution and every p in [0, 1], inverse(p) is the smallest outcome of positive probability whose cumulative probability is at least p. In particular it never returns a category of probability zero, whatever zeros the probability vector contains and wherever p falls, including p = 0, p = 1 and every attained cumulative value.",
 ["inputs"], "all probability vectors (zeros in any position, repeated values, rounded sums, any length) and all p",
 "Tests check a handful of p on three vectors; the property quantifies over all positions of zeros and exact ties.",
 files("bernoulli","categorical"), [("scan of prefix sums", "categorical.rs inverse"), ("comparison with q", "bernoulli.rs inverse")], ["Inverse::inverse"],
 [("cumsum", "precomputed prefix sums", "categorical.rs")])
prop("C07", "The binomial quantile terminates and is the least admissible count",
 "For every binomial distribution and every p in [0, 1], inverse(p) returns, without hanging or panicking, a count k between 0 and the number of trials with P(X <= k) >= p and P(X <= k - 1) < p, up to rounding of p itself. Where the documented normal approximation applies (at least 1000 trials and variance above 80) k may be off by one, and p or 1 - p below 1e-18 need only give a count in range; p = 0 gives 0 and p = 1 the number of trials.",
 ["inputs"], "all trial counts, all success probabilities (given as success or as failure probability) and all p, across the three algorithms and their thresholds",
 "Tests sample a few (n, p) pairs; termination and correctness at underflow, in both tails and at the switch between algorithms hold for all or none of the inputs.",
 files("binomial"), [("bottom-up and top-down summation, normal approximation, Newton iteration", "binomial.rs inverse"), ("inverse_normal", "binomial.rs")], ["Inverse::inverse"])
prop("C08", "Mean, variance and standard deviation are the true moments",
 "For each family that offers them and every valid parameterisation, mean and variance equal the first raw and second central moment of the distribution to floating-point accuracy, and deviation equals the square root of the variance.",
 ["inputs"], "all valid parameters",
 "Tests evaluate one to three parameterisations per family.",
 ALL, [("closed forms", "src/distribution/*.rs"), ("default deviation", "mod.rs Variance")], ["Mean::mean", "Variance::variance", "Variance::deviation"])
prop("C09", "Skewness and kurtosis are the true standardized moments",
 "For each family that offers them and every valid parameterisation, skewness equals the third standardized moment and kurtosis the fourth standardized moment minus three, to floating-point accuracy.",
 ["inputs"], "all valid parameters",
 "Tests evaluate one to three parameterisations per family; a wrong exponent or sign can vanish at the sampled ones.",
 ALL, [("closed forms", "src/distribution/*.rs")], ["Skewness::skewness", "Kurtosis::kurtosis"])
prop("C10", "Entropy is the true entropy in nats",
 "For each family that offers it and every valid parameterisation, including outcomes of probability zero, entropy equals the (differential) entropy in nats to floating-point accuracy and is never NaN. For a binomial with more than 10000 trials and variance above 80 the documented normal approximation is allowed its leading error.",
 ["inputs"], "all valid parameters",
 "Tests evaluate one to three parameterisations per family.",
 ALL, [("closed forms, digamma", "src/distribution/*.rs"), ("summation of masses and normal approximation", "binomial.rs entropy")], ["Entropy::entropy"])
prop("C11", "The median splits the distribution in half",
 "For each family that offers it and every valid parameterisation, median() returns a point m with P(X <= m) >= 1/2 and P(X >= m) >= 1/2, to floating-point accuracy. Exceptions are only the documented closed-form approximation for a beta distribution with both shapes above one and distinct, which must lie within 0.02 min(alpha, beta)^(-3/2) in probability of one half, and the binomial normal approximation (more than 1000 trials, variance above 80), which may be off by one.",
 ["inputs"], "all valid parameters, including symmetric ones, exact ties and boundaries between cases; where a beta median is a quantile, shapes from 0.2 to 30000 as for the quantiles",
 "Tests evaluate one to five parameterisations per family and do not relate the result to the distribution function.",
 ALL, [("case analyses", "binomial.rs, beta.rs, categorical.rs, triangular.rs, bernoulli.rs median")], ["Median::median"])
prop("C12", "Modes are exactly the global maximizers",
 "For each family that offers it and every valid parameterisation, modes() returns, in increasing order and without repetition, exactly the points at which the density or mass attains (or grows without bound towards) its supremum. It returns nothing exactly where the family defines no mode: the flat beta distribution and gamma shapes below one.",
 ["inputs"], "all valid parameters, including ties, boundary shapes and degenerate trial counts; for beta shapes where only one of the two is below one, the endpoint at which the density is unbounded",
 "Tests evaluate one to six parameterisations per family; ties between outcomes and boundaries between cases are mostly unsampled.",
 ALL, [("case analyses", "beta.rs, binomial.rs, categorical.rs, gamma.rs modes")], ["Modes::modes"])
prop("C13", "One-draw samplers apply the quantile function to one uniform read",
 "Sampling from a Bernoulli, binomial, categorical, exponential, Laplace, logistic, triangular or uniform distribution reads exactly one uniform number u from the source and returns the u-quantile of that distribution (or, with the same orientation for every draw of a family, the (1 - u)-quantile). Hence independent uniform reads give independent samples of exactly the declared law.",
 ["inputs","histories"], "all valid parameters and all sequences of source words, including the smallest and largest word",
 "Tests draw a few values with one seed, or none; the law of a sampler is a statement about all source words.",
 files("bernoulli","binomial","categorical","exponential","laplace","logistic","triangular","uniform"),
 [("sample() of each family", "src/distribution/*.rs")], ["Sample::sample", "Source reads"])
prop("C14", "Normal sampling is an exact ziggurat; lognormal and Cauchy derive from it",
 "From independent uniform source words the Gaussian sampler returns values with exactly the declared normal law: every word sequence is mapped as by a 128-layer ziggurat whose layers have equal area, with rejection inside the wedges, an exponential tail beyond the last layer and a sign independent of the magnitude. Gaussian samples are location plus scale times a standard normal, lognormal samples the exponential of one, Cauchy samples location plus scale times the ratio of two consecutive ones.",
 ["inputs","histories"], "all source word sequences, covering each of the 128 layers, the fast path, wedge acceptance and rejection, the tail, both signs, and all valid parameters",
 "Tests draw at most a hundred values from a single seed and compare summary statistics loosely, so most table entries and the wedge and tail paths are never judged.",
 files("gaussian","lognormal","cauchy"), [("ziggurat tables K, W, Y and tail R", "gaussian.rs"), ("sample", "gaussian.rs, lognormal.rs, cauchy.rs")], ["Sample::sample", "Source reads"])
prop("C15", "Gamma, beta and PERT samplers follow their law on every path",
 "From independent uniform source words the gamma sampler returns values with the declared gamma law for every positive shape: rejection sampling from a transformed normal with exact acceptance for shapes of at least one, and the power-of-a-uniform boost for smaller shapes. Beta and PERT samples are the affine image of x / (x + y) for two such independent gamma values with the two shape parameters.",
 ["inputs","histories"], "all source word sequences (each acceptance test passing and failing, zero uniforms) and all valid parameters, shapes below, at and above one",
 "Tests draw a few values from one seed and one shape; acceptance and rejection paths and small shapes are not judged.",
 files("gamma","beta","pert","gaussian"), [("Marsaglia-Tsang loop and boost", "gamma.rs sample"), ("ratio of gammas", "beta.rs, pert.rs sample")], ["Sample::sample", "Source reads"])
prop("C16", "Every sample lies in the support",
 "For each family, every valid parameterisation and every sequence of source words, a drawn sample is an outcome of the distribution: it is not NaN, lies within the support, and for discrete families has positive probability.",
 ["inputs","histories"], "all source word sequences (extreme words, alternating extremes, random) and all valid parameters, including very small and very large shapes and probabilities next to 0 or 1",
 "No test feeds extreme words or extreme parameters to a sampler.",
 ALL, [("sample() of each family", "src/distribution/*.rs")], ["Sample::sample"])
prop("C17", "An independent sampler is the endless stream of direct samples",
 "Iterating an independent sampler over a distribution and a source yields, lazily and without ever ending, exactly the values that calling sample repeatedly on the same source would yield, reading from the source only when an element is requested. Several samplers and direct calls that take turns on one shared source continue from wherever the source stands.",
 ["histories","programs"], "all interleavings of stream steps, adaptors (take, skip, nth, zip, by_ref), and direct sample calls over several distributions and sources",
 "The only test of the module collects ten values; interleaving, laziness and source sharing are not examined.",
 ["src/sampler/mod.rs"] + ALL, [("Iterator for Independent", "src/sampler/mod.rs")], ["Independent::next", "Source reads"])
prop("C18", "Answers depend only on the parameters, not on history or threads",
 "A distribution object is immutable: each query returns bit-for-bit the same answer no matter which queries or draws came before, on which clone or copy, or on which thread it is made. A draw depends only on the parameters and the words it reads from its source, so equal seeds give equal samples.",
 ["histories","schedules","programs"], "all sequences of queries, draws, copies and threads over several live objects",
 "Tests make each call once on a fresh object.",
 ALL + ["src/source/mod.rs"], [("absence of interior mutability and of caches", "src/distribution/*.rs")], ["every trait method"])
prop("C19", "Constructors accept exactly the valid domain and accessors report it",
 "With debug assertions enabled each constructor panics for parameters outside its documented domain (including NaN) and returns for every finite parameterisation strictly inside it. The accessors of the object return exactly the given parameters (and derived ones that follow from them), the default objects are the standard ones, and constructing through the complementary probability gives the same distribution.",
 ["inputs"], "all parameter tuples, on, just inside and just outside each boundary of the domain",
 "Tests contain a few should-panic cases and never probe acceptance near the boundary.",
 ALL + ["src/lib.rs"], [("should! assertions", "src/lib.rs and each new()"), ("Default", "gaussian.rs, logistic.rs, lognormal.rs, uniform.rs")], ["constructors", "accessors"])
prop("C20", "Related distributions agree",
 "Distributions that are mathematically the same answer alike, on every query both offer: beta with unit shapes and uniform, gamma with unit shape and exponential, PERT and its beta form, Bernoulli, one-trial binomial and two-category categorical, lognormal and Gaussian of the logarithm. Moving and scaling the location and scale parameters moves and scales every answer accordingly, and mirrored parameters give mirrored answers.",
 ["inputs","histories"], "all valid parameters, all arguments, all shifts and scales, and all pairs of related objects alive together",
 "No test relates two objects.",
 ALL, [("closed forms duplicated between families", "src/distribution/*.rs")], ["every trait method"])
prop("C21", "Fitting a Gaussian recovers sample mean and unbiased deviation",
 "Collecting any sequence of at least two not all equal finite numbers into a Gaussian gives the distribution whose mean is the arithmetic mean of the numbers and whose deviation is the square root of the sum of squared deviations divided by the count minus one, independently of the order of the numbers to floating-point accuracy.",
 ["inputs"], "all finite sequences of numbers, any length and order, with large offsets and tiny spreads",
 "One test fits one short list.",
 files("gaussian"), [("FromIterator", "gaussian.rs")], ["Gaussian::from_iter"])
prop("C22", "Release builds answer like debug builds",
 "Compiled with optimisations and without debug assertions and overflow checks, the library accepts every valid parameterisation and gives, for every query, fit and draw on the same source words, the same answer as the debug build, up to rounding. Nothing that an answer needs happens only inside a debug assertion, and no arithmetic relies on, or is stopped by, an overflow check.",
 ["inputs","histories","configurations"], "all valid parameters, queries and draws, under both build profiles",
 "The test suite is run in one profile only; users run the other one.",
 ALL + ["src/lib.rs"], [("should! assertions", "src/lib.rs and each new()"), ("integer arithmetic on counts", "binomial.rs, categorical.rs"), ("indices of the ziggurat", "gaussian.rs")], ["constructors", "every trait method"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
