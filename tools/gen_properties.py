"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
S = "src/pysatl_criterion/"
G = S + "statistics/goodness_of_fit/"
H = S + "hypothesis_testing/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

p("C01", "Multiple-testing corrections give the textbook adjusted p-values",
  "For every list of p-values, in any order and with ties, each correction (Bonferroni, Sidak, Holm, Sidak-Holm, Benjamini-Yekutieli) returns, in the input's order, exactly the adjusted p-values its published procedure defines, each in [0, 1], never below the raw p-value, and never reversing the order of two raw p-values.",
  ["inputs"], "all lists of p-values in [0,1] (any length including 0, 1 and above 10000, any order, duplicates, 0, 1, denormals)",
  "The tests check ten or so fixed short lists, nearly all already sorted and without ties.",
  [H + "multiple_testing/fwer.py", H + "multiple_testing/fdr.py"],
  [("Bonferroni/Sidak/Holm/Sidak-Holm adjust", H + "multiple_testing/fwer.py"), ("Benjamini-Yekutieli adjust", H + "multiple_testing/fdr.py")],
  ["adjust(p_values)", "test(p_values, threshold)"])
p("C02", "Multiple-testing decisions follow the adjusted p-values and valid input",
  "A family test rejects hypothesis i exactly when its adjusted p-value is below the threshold, reports the same adjusted p-values as the correction alone, treats the hypotheses symmetrically (permuting the p-values permutes the answer) and never rejects less when the threshold rises or a p-value falls. Any p-value outside [0, 1] (NaN included) is refused with an error by the test of every correction, valid input never is, and the caller's list is left unchanged.",
  ["inputs"], "all lists of numbers, all thresholds, all permutations, every correction",
  "The tests use sorted fixed lists at one or two thresholds and four invalid lists for two of the five corrections.",
  [H + "multiple_testing/abstract_multiple_testing.py", H + "multiple_testing/fwer.py", H + "multiple_testing/fdr.py"],
  [("AbstractMultipleTesting.test / _validate_p_values", H + "multiple_testing/abstract_multiple_testing.py")])
p("C03", "P-values are the empirical tail probabilities of the limit distribution",
  "For every simulated limit distribution and statistic value, the left p-value is the fraction of simulated values not exceeding the statistic, the right p-value is the fraction exceeding it, and the two-sided p-value is twice the smaller of the two; p-values lie in [0, 1]. They depend only on the multiset of simulated values, and are monotone in the statistic value.",
  ["inputs"], "all non-empty lists of finite floats (ties included, any order) and all statistic values inside, outside or on them",
  "One fixed list of four distinct sorted values is tested, at one point per alternative.",
  [H + "p_value/calculator/p_value_calculator.py"],
  [("Left/Right/TwoSided PValueCalculator.calculate", H + "p_value/calculator/p_value_calculator.py")])
p("C04", "Critical values are quantiles of the limit distribution, ties included",
  "For every simulated limit distribution and significance level, the left critical value is its empirical quantile at the level, the right one its quantile at one minus the level, and the two-sided pair its quantiles at half the level in each tail, every simulated value counting once per occurrence. The acceptance region built from them contains exactly the values on the non-rejected side, bounds included, so the share of the simulated distribution falling outside it exceeds the significance level (half of it per tail for two-sided) by less than one simulated value per tail.",
  ["inputs"], "all non-empty lists of finite floats, continuous or discrete (heavily tied), all levels in (0,1), all statistic values",
  "One list of four distinct values is tested at one level; discrete statistics (graph, Lorenz-type counts) never reach the tests.",
  [H + "critical_values/calculator/critical_value_calculator.py", H + "critical_values/critical_area/critical_areas.py", H + "alternative_factory/alternative_factories.py"],
  [("CriticalValueCalculator.calculate", H + "critical_values/calculator/critical_value_calculator.py"), ("CriticalArea.contains", H + "critical_values/critical_area/critical_areas.py")])
p("C05", "A goodness-of-fit test decides by its own statistic, level and alternative",
  "Running a goodness-of-fit test evaluates the configured statistic on the given sample, obtains the limit distribution for that statistic and that sample size, and reports a result whose statistic, level, p-value or critical value and rejection flag are mutually consistent with the statistic's alternative: by p-value it rejects exactly when the p-value is at most the level, by critical value exactly when the statistic lies strictly beyond the critical value(s) on the rejection side. A missing limit distribution is an error, never a decision.",
  ["inputs", "configurations"], "all samples, statistics (every alternative kind), levels, limit distributions, and both decision methods",
  "Tests use a fake statistic with a right-sided alternative and one boundary each; left and two-sided pipelines are never run end to end.",
  [H + "goodness_of_fit_test/goodness_of_fit_test.py", H + "alternative_factory/alternative_factories.py", H + "model.py"],
  [("PValueDecisionMethod / CriticalValueDecisionMethod.decide", H + "goodness_of_fit_test/goodness_of_fit_test.py"), ("AbstractAlternativeFactory.get_concrete_factory", H + "alternative_factory/alternative_factories.py")])
p("C06", "P-value and critical-value decisions agree; more level never rejects less",
  "For the same statistic value, limit distribution and level, the p-value decision and the critical-value decision agree whenever the statistic value is not within one order-statistic gap of the critical value, for each of the three alternatives. Under either method a value more extreme in the direction of the alternative is rejected whenever a less extreme one is, and raising the significance level never turns a rejection into an acceptance.",
  ["inputs", "configurations"], "all limit distributions, pairs of statistic values, pairs of levels and alternatives",
  "No test compares the two decision methods or two levels.",
  [H + "goodness_of_fit_test/goodness_of_fit_test.py", H + "p_value/calculator/p_value_calculator.py", H + "critical_values/calculator/critical_value_calculator.py"],
  [("decide", H + "goodness_of_fit_test/goodness_of_fit_test.py")])
p("C07", "Monte Carlo null distributions simulate the statistic's own hypothesis",
  "A Monte Carlo resolver returns exactly the requested number of statistic values, each the statistic evaluated on an independent sample of exactly the requested size drawn from the statistic's hypothesised distribution with the statistic's own parameters, so that a probability-integral transform of the simulated data under that hypothesis is uniform. Non-positive counts or sizes are refused, and equal random state gives equal results.",
  ["inputs", "configurations"], "all distribution families and hypothesis parameters, counts, sample sizes and random states",
  "No test runs the Monte Carlo resolver at all, let alone with non-default hypothesis parameters.",
  [H + "limit_distribution/base.py", S + "utils/generator.py", S + "generator/generators.py"],
  [("MonteCarloLimitDistributionResolver.resolve", H + "limit_distribution/base.py"), ("get_available_generator", S + "utils/generator.py")])
p("C08", "Limit-distribution storage behaves as a keyed map across every history",
  "After any sequence of inserts, re-inserts, bulk inserts, deletes and re-openings of the database, every exact query (criterion, parameters, sample size, count) returns a record last stored by some experiment under exactly that key, or nothing if there is none, a query for critical values returns a matching record with the largest Monte Carlo count, and a bulk query returns one such best record per requested criterion and size range. A deletion removes what the same exact query would find; inserting or deleting one key never changes another, and a bulk insert that fails leaves nothing behind.",
  ["histories", "inputs"], "all sequences of storage operations over colliding and near-colliding keys, with re-opening from disk at any point",
  "The tests run one or two inserts on a fresh in-memory database and never re-open it or interleave keys.",
  [S + "persistence/sqlalchemy/datastorage.py", S + "persistence/sqlalchemy/models/limit_distribution_orm.py", S + "persistence/models/limit_distribution.py"],
  [("primary key and merge upsert", S + "persistence/sqlalchemy/models/limit_distribution_orm.py"), ("AlchemyLimitDistributionStorage", S + "persistence/sqlalchemy/datastorage.py")])
p("C09", "The stored float-array encoding round-trips and rejects malformed blobs",
  "Every list of floats written through the compressed column comes back with the same length, order and values - bit-exact in 64-bit mode and rounded once to 32-bit precision in 32-bit mode, infinities, NaN, signed zero and empty lists included - and blobs of either precision are readable by a column of either setting, also when several threads share the column. Legacy JSON text is still read, absent values stay absent, and a truncated, wrong-version or length-inconsistent blob raises an error instead of returning data.",
  ["inputs", "fault_sequences"], "all float lists, both precisions, and all truncations/byte corruptions of the header",
  "The codec is only reached through two-value lists inserted by the storage tests.",
  [S + "persistence/sqlalchemy/alchemy_decorator.py"],
  [("CompressedFloatArray.process_bind_param/process_result_value", S + "persistence/sqlalchemy/alchemy_decorator.py")])
p("C10", "Loading critical values makes local storage serve what remote has",
  "After a load reports success the requested distribution is readable from local storage, and it reports success exactly when local or remote storage holds matching data; records already cached locally are never overwritten or re-fetched. A bulk load reports counts and missing codes that match what the two stores actually contain, caches exactly the missing records that remote has, leaves remote untouched, is idempotent, and does not claim to have cached what a failing local store refused.",
  ["histories", "fault_sequences", "inputs"], "all contents of local and remote stores, requested code lists, size tolerances, repeated loads, absent remote and failing local inserts",
  "Single loads are not tested at all; bulk loads are tested from six hand-made store contents without faults or repetition.",
  [H + "critical_values/loader/remote_loader.py", S + "persistence/sqlalchemy/datastorage.py"],
  [("CriticalValueLoader.load/load_bulk", H + "critical_values/loader/remote_loader.py")])
p("C11", "Every goodness-of-fit statistic ignores the order of observations",
  "For every concrete goodness-of-fit statistic and every valid sample, permuting the observations leaves the statistic unchanged up to rounding.",
  ["inputs", "configurations"], "all 195 concrete statistics, all valid samples (sorted, reversed, shuffled, tied) and sizes they accept",
  "Each statistic is tested on one to three literal samples in a single order.",
  [G + f for f in ("normal.py", "exponent.py", "weibull.py", "gamma.py", "uniform.py", "beta.py", "student.py", "log_normal.py", "graph_goodness_of_fit.py")],
  [("execute_statistic of every class", G)])
p("C12", "Computing a statistic is pure: same answer, no side effects, list or array",
  "For every concrete goodness-of-fit statistic, computing it never modifies the caller's sample, gives the same value when repeated on the same object, on a fresh object or after computing on other samples, does not consume or depend on global random state, and gives the same finite number for a list, an array or a view with the same values, whole numbers of any integer type included.",
  ["inputs", "histories", "configurations"], "all 195 concrete statistics, interleavings of evaluations on several samples, and container kinds (list, contiguous array, strided view, read-only array)",
  "Tests call each statistic once per object on a literal list and never look at the argument afterwards.",
  [G + f for f in ("normal.py", "exponent.py", "weibull.py", "gamma.py", "uniform.py", "beta.py", "student.py", "log_normal.py", "graph_goodness_of_fit.py", "common.py")],
  [("execute_statistic of every class", G)])
p("C13", "Composite-hypothesis statistics are invariant to nuisance parameters",
  "Normality statistics of the composite hypothesis (those that are not built from distances in the data's own unit, as the graph statistics are) do not change when the sample is shifted and rescaled, exponentiality statistics of the composite hypothesis do not change when it is rescaled, log-normality statistics do not change when it is rescaled together with the hypothesised scale, and Weibull statistics of the composite hypothesis do not change when it is rescaled and raised to a positive power. Statistics of a fully specified hypothesis do not change when the sample and the hypothesised location and scale parameters are transformed together.",
  ["inputs"], "all valid samples, all shifts and positive scales (and powers) within floating-point conditioning, each statistic in its invariance class",
  "No existing test evaluates a statistic on two related samples.",
  [G + f for f in ("normal.py", "exponent.py", "weibull.py", "uniform.py", "student.py", "log_normal.py", "gamma.py", "graph_goodness_of_fit.py")],
  [("standardisation inside each statistic", G)])
p("C14", "EDF statistics compare the sample with the hypothesised CDF as defined",
  "For every family that offers them, the Kolmogorov-Smirnov (two-sided and both one-sided forms), Kuiper, Cramer-von Mises, Watson, Anderson-Darling, Lilliefors and Zhang statistics equal their published empirical-distribution definitions evaluated with the hypothesised distribution function at the statistic's configured parameters (or, for a Lilliefors statistic that prescribes estimates, at those).",
  ["inputs", "configurations"], "all valid samples, sizes, ties, and all hypothesis parameters of the eight families",
  "Tests compare with one or two literal numbers per statistic, mostly at default parameters and a single sample size.",
  [G + f for f in ("common.py", "normal.py", "exponent.py", "weibull.py", "gamma.py", "uniform.py", "beta.py", "student.py", "log_normal.py")],
  [("KSStatistic/ADStatistic/CrammerVonMisesStatistic/LillieforsTest", G + "common.py"), ("per-family CDF", G)])
p("C15", "Normality statistics equal their published definitions",
  "For every sample size and sample they accept, the moment-based, regression/correlation-based, L-moment, entropy and likelihood-ratio normality statistics (Shapiro-Wilk, Shapiro-Francia, D'Agostino, Jarque-Bera and its robust form, Doornik-Hansen, Hosking, Epps-Pulley, Bonett-Seier, Zhang-Wu, Martinez-Iglewicz and the other non-graph ones) equal an independent evaluation of their published formula, including every constant and sample-size branch.",
  ["inputs", "configurations"], "all real samples of admissible size (small-size, ordinary and large-size branches), with ties and outliers",
  "Each statistic is compared with one to three published or precomputed numbers, so sample-size branches and most constants are unexercised.",
  [G + "normal.py"], [("execute_statistic of the normality classes", G + "normal.py")])
p("C16", "Exponentiality statistics equal their published definitions",
  "For every non-negative sample, the exponentiality statistics (Epps-Pulley, Ahsanullah, Atkinson, Cox-Oakes, Deshpande, Epstein, Frozini, Gini, Gnedenko, Harris, Hegazy-Green, Hollander-Proschan, Kimber-Michael, Kochar, Lorenz, Moran, Pietra, Rossberg, Shapiro-Wilk, We and Wong-Wong) equal an independent evaluation of their published formula, including their optional tuning arguments.",
  ["inputs", "configurations"], "all positive samples of admissible size with ties and outliers, odd and even sizes, and admissible tuning arguments",
  "One literal sample per statistic at default tuning arguments.",
  [G + "exponent.py"], [("execute_statistic of the exponentiality classes", G + "exponent.py")])
p("C17", "Weibull statistics equal their published definitions",
  "For every positive sample, the Weibull goodness-of-fit statistics based on probability plots, spacings, Laplace transforms, entropy, likelihood and correlation equal an independent evaluation of their published formula at the configured parameters.",
  ["inputs", "configurations"], "all positive samples of admissible size and all parameter values",
  "One or two literal samples per statistic.",
  [G + "weibull.py", G + "common.py"], [("execute_statistic of the Weibull classes", G + "weibull.py")])
p("C18", "Uniform and beta statistics equal their published definitions",
  "For every sample inside the hypothesised support, the spacing, smooth, binned, moment, entropy, mode and ratio statistics for the uniform and beta hypotheses equal an independent evaluation of their published formula at the configured parameters and options, the uniform ones depending on the data only through (x - a)/(b - a).",
  ["inputs", "configurations"], "all samples in the support, interval ends, shape parameters, bin rules and options",
  "Literal samples on [0,1] at default options.",
  [G + "uniform.py", G + "beta.py", G + "common.py"], [("execute_statistic of the uniform classes", G + "uniform.py"), ("execute_statistic of the beta classes", G + "beta.py")])
p("C19", "Gamma and Student statistics equal their published definitions",
  "For every sample in the support, the spacing, binned (Pearson, likelihood-ratio, power-divergence) and probability-plot statistics for the gamma and Student hypotheses equal an independent evaluation of their published formula at the configured parameters, bin counts and powers.",
  ["inputs", "configurations"], "all samples in the support, all parameters, bin counts and power-divergence exponents",
  "Literal samples at one or two parameter settings.",
  [G + "gamma.py", G + "student.py", G + "common.py"], [("binned gamma statistics", G + "gamma.py"), ("student statistics", G + "student.py")])
p("C20", "Graph statistics equal brute-force invariants of the proximity graph",
  "For every sample, the graph statistics (edge count, maximum degree, average degree, connected components, clique number, independence number) for the normal, exponential and gamma hypotheses equal the corresponding invariants, computed by brute force, of the graph joining two observations when their distance is less than a tenth of the sample range (for the normal family divided by the sample variance, for the exponential family by the sample mean, and for the gamma family measured after mapping the sample through the hypothesised distribution function).",
  ["inputs"], "all samples (tied, clustered, with isolated points, sizes 1 upwards), three families",
  "One literal sample per family and statistic, with no ties and few clusters.",
  [G + "graph_goodness_of_fit.py", G + "normal.py", G + "exponent.py", G + "gamma.py"],
  [("edge construction and graph invariants", G + "graph_goodness_of_fit.py")])
p("C21", "Log-normal statistics are the normality statistics of standardised logs",
  "For every positive sample and every hypothesised shape and scale, each log-normality statistic that has a normality counterpart equals that normality statistic on (log x - log scale)/shape and reports the counterpart's alternative, the remaining ones equal their published formula, the critical values that the Kullback-Leibler statistics offer are upper quantiles of their distribution under log-normality, and data that are not strictly positive give the documented infinite value instead of a finite one.",
  ["inputs", "configurations"], "all positive samples, shapes and scales, and samples with a zero or negative observation at any position",
  "Each wrapper is tested on one literal sample with unit parameters.",
  [G + "log_normal.py", G + "normal.py"], [("dynamic wrapping of the normality statistics", G + "log_normal.py")])
p("C22", "The criterion catalogue is complete, unique and internally consistent",
  "Every concrete criterion has a unique identifying code that names its short code and family and does not change with parameters, is listed exactly once under its own distribution and under no other, reports a hypothesis whose parameters are the ones it was constructed with, in a fixed order, and has an alternative for which p-value, critical-value and acceptance-region machinery of the matching side is provided. The set of criteria offered per distribution and the side on which each rejects do not change.",
  ["configurations"], "every exported criterion, every constructor parameter value, every distribution and alternative type",
  "Tests check codes one class at a time with default parameters and compare only lists of short codes.",
  [G + "__init__.py", S + "utils/statistic.py", S + "statistics/statistic.py", S + "statistics/hypothesis.py", H + "alternative_factory/alternative_factories.py"],
  [("get_available_criteria", S + "utils/statistic.py"), ("code()/short_code()", G)])
p("C23", "Distribution descriptors, validators and generators agree with each other",
  "Every supported distribution has exactly one descriptor and one generator; each descriptor's parameter names, in order, are the generator's parameters, its defaults satisfy its own validators, and constructing the generator from any valid parameter values reproduces them in its parameters and code, distinct values giving distinct codes. Validators accept exactly the values they document (positive, non-negative, probability), rejecting NaN.",
  ["inputs", "configurations"], "all 21 distributions, all parameter values, all floats including NaN, infinities and signed zero",
  "Seven of the descriptors are compared with literals; validators and the remaining ones are untested.",
  [S + "distribution/distributions.py", S + "distribution/validator.py", S + "generator/generators.py", S + "utils/distribution.py", S + "utils/generator.py"],
  [("descriptor lookup", S + "utils/distribution.py"), ("generator lookup", S + "utils/generator.py"), ("validators", S + "distribution/validator.py")])
p("C24", "Generators draw samples from the distribution they declare",
  "For every distribution and valid parameters, a generator returns exactly the requested number of finite observations inside the distribution's support, reproducible from the global random state, independent between draws, and distributed as the documented parametrisation says. Draws made through the generator and through the underlying sampling function agree for the parameters each of them documents.",
  ["inputs", "configurations"], "all 21 distributions, valid parameter values (away from defaults), sizes from 1 upwards and random states",
  "Tests only read the generators' metadata; no sample is ever drawn.",
  [S + "generator/generators.py", S + "core/distributions"],
  [("generate", S + "generator/generators.py"), ("generate_*", S + "core/distributions")])
p("C25", "CDF, density and moment helpers match their distributions",
  "The exported distribution-function, log-distribution, log-survival, density and moment helpers equal the documented mathematical functions for all arguments and parameters: distribution functions are monotone from 0 to 1, densities are their derivatives, log forms are their logarithms into the tails as far as the probabilities are representable, raw and central moments are the averages of powers they name, and central moments do not change under shifts.",
  ["inputs"], "all arguments (far tails included) and parameter values",
  "They are only reached indirectly at default parameters.",
  [S + "core/distributions/expon.py", S + "core/distributions/norm.py", S + "core/distributions/weibull.py", S + "core/distributions/sample.py"],
  [("cdf/pdf/logcdf/logsf helpers", S + "core/distributions")])
p("C26", "Likelihood estimators return the maximised likelihood of the sample",
  "For every sample in the support, each likelihood function returns the likelihood of the whole sample at that family's maximum-likelihood (or documented) parameter estimates, so it is invariant to reordering, scales with the Jacobian under changes of unit, and is at least the likelihood at any other parameter value (for the families fitted by a numeric search: at least that at the fitted parameters; the Weibull shape is searched in [0.1, 10]). Samples that the family cannot generate give zero, samples of equal observations zero or, where the likelihood is unbounded, possibly infinity, and no sample a negative value or NaN; a likelihood beyond the double range is reported as infinity. The search for the best-fitting family returns the family of largest likelihood and that likelihood.",
  ["inputs"], "all small samples inside and outside the support of the twenty families",
  "Tests only check that the value is non-negative or above a loose bound on four literal samples per family.",
  [S + "estimation/maximum_likelihood/function_for_maximum_likelihood.py", S + "estimation/maximum_likelihood/maximum_likelihood.py"],
  [("likelihood_function_*", S + "estimation/maximum_likelihood/function_for_maximum_likelihood.py"),
   ("find_max_probability_function, find_result_of_likelihood_function", S + "estimation/maximum_likelihood/maximum_likelihood.py")])
p("C27", "Invalid hypotheses and impossible data are refused or flagged",
  "Uniform, beta, Student, gamma and log-normal statistics refuse hypothesis parameters outside their domain (an interval that is empty or reversed, non-positive shapes, scales and degrees of freedom), and statistics with options refuse invalid ones, with a value error at construction, while every admissible value is accepted. A sample with an observation outside the bounded support of the uniform and beta hypotheses is refused with a value error, and a sample with a negative observation is never given a finite value by the log-normality, Weibull and gamma statistics that need logarithms of the data or of its distribution function, nor accepted by a log-normality criterion. Samples too small for a statistic with a stated minimum are refused. This happens for every position and every magnitude of the offending value.",
  ["inputs", "configurations"], "all parameter values on both sides of each bound, and an offending observation at any position of any valid sample",
  "Tests try one or two invalid literals for some of the classes.",
  [G + f for f in ("uniform.py", "beta.py", "student.py", "gamma.py", "weibull.py", "log_normal.py", "common.py")],
  [("constructor and sample validation", G)])
p("C28", "Criteria reject on the side where the evidence against the hypothesis lies",
  "For every criterion that rejects on one side only, a sample laid out exactly as the hypothesis expects (its own quantiles) is on the accepting side of the criterion's null distribution, and samples grossly incompatible with the hypothesis in the direction the criterion responds to are on the rejecting side.",
  ["inputs", "configurations"], "all one-sided criteria, all sample sizes and hypothesis parameters, gross departures of several kinds",
  "Tests compare the declared alternative with nothing; a criterion rejecting on the wrong side passes all of them.",
  [G + f for f in ("normal.py", "exponent.py", "weibull.py", "gamma.py", "uniform.py", "beta.py", "student.py", "log_normal.py")] + [H + "alternative_factory/alternative_factories.py"],
  [("alternative_type of every class", G), ("AlternativeFactory", H + "alternative_factory/alternative_factories.py")])
p("C29", "Distribution helpers refuse the parameters of no distribution",
  "Every sampling and distribution-function helper called with a parameter its documentation names as an error (a scale, rate, shape or degrees of freedom that is not positive, a negative variance, an empty or reversed interval, a mixture weight outside [0, 1]) raises a value error, whatever the other parameters, the size, the arguments, the random state and the magnitude of the offence, and a generator given such a parameter never draws a sample. Admissible values, also next to the bounds, are accepted.",
  ["inputs", "configurations"], "all documented parameter domains of the 19 distributions that state them, invalid values of any magnitude alone or together, all sizes, arguments and random states",
  "No test passes an invalid parameter to any of the helpers.",
  [S + "core/distributions", S + "generator/generators.py"],
  [("generate_* / cdf_* / pdf_* argument checks", S + "core/distributions"), ("AbstractRVSGenerator.generate", S + "generator/generators.py")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
