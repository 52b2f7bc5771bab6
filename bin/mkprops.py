import json
P=[]
SRC="src/pysatl_criterion/"
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":[SRC+f for f in files],"mechanism":[{"name":mech,"where":SRC+files[0]}]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":o} for n,m,o in state]
    if state: a["observe_at"]=[o for n,m,o in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
DS="persistence/sqlalchemy/datastorage.py"; ORM="persistence/sqlalchemy/models/limit_distribution_orm.py"
p("S01","Stored distributions are a durable map: upsert, exact lookup, exact delete",
 "A limit distribution stored under an (experiment, criterion code, parameters, sample size, Monte-Carlo count) key is returned by every later lookup with that code, parameters, size and count, by any storage object on the same database including one opened later, until it is replaced by a store under the same key or deleted. Storing replaces only the record with that key, deleting removes only the records its query matches, lookups never change anything, and a lookup that matches nothing returns None. When several experiments stored the same query key, a lookup still answers with one of them instead of failing, and a delete removes what the query matches.",
 ["histories","inputs"],"every history of stores, lookups, deletes, re-initialisations and re-opens by several storage objects over a shared database",
 "The tests use a fresh in-memory database, one storage object and at most two stores; key collisions, several experiments per query key, interleaved objects and re-opened files are never exercised.",
 [DS,ORM,"persistence/models/limit_distribution.py"],"SQLAlchemy session.merge on a five-column primary key; select ... where on four of them",
 [("db","map key -> payload","get_data / get_data_for_cv / get_bulk_data of a second storage object on the same file")])
p("S02","Critical-value and bulk queries return the best matching simulation",
 "A critical-value query returns a stored record with exactly the requested criterion code and a sample size within the requested tolerance (sample_size_error, default 0) whose Monte-Carlo count is the largest among the matching ones, and None only when nothing matches. A bulk query returns exactly one such best record for each distinct requested code that has a match within the tolerance, and nothing else.",
 ["histories","inputs"],"every database content, list of codes (with duplicates, unknown and empty lists), sample size and tolerance",
 "Tests query one or two codes at the exact size with two Monte-Carlo counts; tolerance windows, ties, duplicates, near-miss codes and insertion order are not covered.",
 [DS,"persistence/models/limit_distribution.py"],"ORDER BY monte_carlo_count DESC LIMIT 1; between(); per-code running maximum",
 [("db","map key -> payload","results of the two query calls")])
p("S03","A bulk store is atomic under faults, crashes and concurrent readers",
 "Storing a batch makes all of its records visible together or none of them: if any record is rejected, an error occurs, or the process dies at any point before the call returns, a later reader (in this process or another) sees either the complete batch or the database exactly as before. A reader that looks while the batch is being stored never sees a part of it, and a failed store leaves the storage object usable.",
 ["crash_points","fault_sequences","histories"],"every batch, every position of an invalid record or injected failure, every crash point between the statements of the batch, and reads between any two of them",
 "Tests store one valid batch of two records in memory; no failure, crash or concurrent reader is exercised.",
 [DS,ORM],"one session and one commit per batch; context-managed session rolls back on error",
 [("db","committed records","a second connection to the same database file"),("tx","records staged by the running batch","statement events of the engine the storage object exposes")])
p("S04","Stored statistics come back complete, in order, to single precision",
 "Whatever list of statistics (any length including empty and very long, any order, repeated, negative or zero values, infinities and NaN) is stored, reading it back yields a list of the same length whose i-th element is the i-th stored value up to single-precision rounding. The column codec itself, with or without the single-precision option, round-trips through its binary format (double precision exactly when the option is off), maps None to None, still reads legacy JSON text, and rejects data with a truncated header or an unknown version with ValueError and a truncated body with an error instead of returning wrong numbers.",
 ["inputs","histories"],"every list of representable numbers, both codec modes, every header corruption",
 "Tests store lists of one element (-4.0, 0.1) only; lengths, precision, codec modes and damaged data are untested.",
 ["persistence/sqlalchemy/alchemy_decorator.py",ORM],"zstd-compressed little-endian array behind a (version, dtype, length) header",
 [("payload","stored sequence of numbers","results_statistics of a lookup; the column type's bind/result methods")])
p("S05","An unavailable database is reported, never half-opened; init keeps data",
 "Safe creation of a storage returns a working storage or None and never raises, whatever the connection string or state of the database behind it; explicit initialisation of an unavailable database raises ConnectionError. Initialising, re-initialising or re-opening an existing database never removes or alters stored records, and a storage that was created successfully has its tables ready for every operation.",
 ["fault_sequences","configurations","histories"],"every connection-string class (missing directory, directory, corrupt file, unknown scheme, missing driver, malformed) interleaved with healthy use",
 "Tests try a single unreachable server and one in-memory database.",
 [DS],"create_safe wraps init; init probes the engine and calls create_all",
 [("env","availability of the database file","return value / exception of create_safe and init")])
p("L01","Loading one criterion leaves the best remote record in the local cache",
 "With a remote storage configured, load(code, size, tolerance) returns True exactly when a matching distribution is available afterwards in the local storage: if the local storage has none it copies the remote storage's best match (largest Monte-Carlo count within the size tolerance) unchanged into the local one, and returns False leaving the local storage unchanged when the remote storage has no match. With no remote storage it returns False and changes nothing. It never modifies the remote storage, never removes or alters other local records, and repeating it changes nothing.",
 ["histories","inputs","fault_sequences"],"every pair of local and remote contents, code, size and tolerance, and every sequence of loads, bulk loads and stores",
 "No test calls load at all.",
 ["hypothesis_testing/critical_values/loader/remote_loader.py"],"local lookup, remote lookup, local insert",
 [("local, remote","contents of the two storages","queries on both storages before and after each call")])
p("L02","Bulk loading fills the cache and reports truthful counts",
 "After load_bulk of distinct codes, each code that had a local match is counted as already cached and its local records are unchanged, each missing code with a remote match has the remote's best match stored locally and is counted as newly cached, and the not-found list is exactly the missing codes without a remote match, so the three counts add up to the number requested. A missing remote storage reports every code as not found, an empty request reports zeros, and codes that could not be written to the local storage are never counted as newly cached.",
 ["histories","inputs","fault_sequences"],"every pair of storages, every list of distinct codes, size and tolerance, with and without failing local writes, over arbitrary call histories",
 "Tests cover seven fixed scenarios at the exact size with tolerance 0 and no failing storage.",
 ["hypothesis_testing/critical_values/loader/remote_loader.py"],"cache-miss detection, one bulk remote query, one bulk local store",
 [("local, remote","contents of the two storages","queries on both storages before and after each call")])
HT="hypothesis_testing/"
p("D01","p-values are the tail frequencies of the limit distribution",
 "For a limit distribution x1..xN and observed statistic t, with F(t) the fraction of the xi that are <= t, the left-tailed p-value is F(t), the right-tailed one is 1-F(t) and the two-sided one is 2*min(F(t), 1-F(t)). This holds with ties, in any order, for any N >= 1 and any t, and every p-value lies in [0,1].",
 ["inputs"],"every finite limit distribution (unsorted, with repeated values) and every observed statistic, including ones outside the simulated range or equal to a simulated value",
 "Three assertions on the distribution [1,2,3,4]; no ties, no unsorted input, no values outside the range.",
 [HT+"p_value/calculator/p_value_calculator.py"],"empirical distribution function evaluated at the statistic")
p("D02","Critical values are the documented quantiles of the limit distribution",
 "For significance level a the left critical value is the a-quantile, the right one the (1-a)-quantile and the two-sided pair the a/2- and (1-a/2)-quantiles of the limit distribution itself, every simulated value counted as often as it occurs, with linear interpolation between order statistics. The values do not depend on the order of the simulated values, lie within their range, and are monotone in the significance level.",
 ["inputs"],"every finite limit distribution, with ties and in any order, and every significance level in [0,1]",
 "Three assertions on the distribution [1,2,3,4] at levels 0.25 and 0.5; discrete statistics, whose simulated values repeat, are not covered.",
 [HT+"critical_values/calculator/critical_value_calculator.py"],"linear-interpolation quantile")
p("D03","The decision follows the alternative, the level and the region boundary",
 "With p-values the null hypothesis is rejected exactly when the p-value is <= the significance level; with critical values exactly when the statistic lies strictly outside the acceptance region (below the left value, above the right value, or outside the closed two-sided interval), using the tail the statistic's alternative names. The result reports the observed statistic, the level, and exactly one of p-value and critical value; a missing limit distribution raises ValueError rather than producing a decision, and raising the level never turns a rejection into an acceptance.",
 ["inputs","configurations"],"every alternative, statistic value (including exact boundary values), level and limit distribution, for both decision methods",
 "Two hand-made cases, both right-tailed; left and two-sided decisions and a missing distribution are never run end to end.",
 [HT+"goodness_of_fit_test/goodness_of_fit_test.py",HT+"alternative_factory/alternative_factories.py",HT+"critical_values/critical_area/critical_areas.py",HT+"model.py","statistics/alternative.py"],"alternative-keyed factory of calculators and regions")
p("D04","A test evaluates the given sample once and delegates the decision",
 "Running a goodness-of-fit test computes the configured statistic on exactly the sample given, passes that value, the significance level and the sample's size to the decision method, returns the decision method's result unchanged and leaves the sample unmodified. Without an explicit method it decides by critical values from 10 000 simulated samples of the observed size; explicitly constructed methods use the limit distribution their resolver returns for that statistic and size, and default to 10 000 simulations when none is given.",
 ["inputs","configurations","histories"],"every sample, level, decision method and resolver, and repeated tests with the same objects",
 "Fakes replace the statistic and the decision method in every test; the default path is replaced by a monkeypatch and never runs.",
 [HT+"goodness_of_fit_test/goodness_of_fit_test.py",HT+"limit_distribution/base.py"],"GoodnessOfFitTest.test -> DecisionMethod.decide -> resolver.resolve")
p("R01","Monte-Carlo limit distributions simulate the hypothesised null",
 "Resolving a statistic's limit distribution by Monte Carlo with count N and sample size n draws N independent fresh samples of exactly n values from the statistic's distribution with the parameters of its hypothesis, evaluates the statistic once on each, and returns the N values in order. Non-positive counts or sizes raise ValueError and nothing is simulated.",
 ["inputs","configurations"],"every statistic with its hypothesis, every N and n, and repeated resolutions",
 "No test runs the Monte-Carlo resolver.",
 [HT+"limit_distribution/base.py","utils/generator.py","generator/generators.py"],"loop over generator.generate(n) and execute_statistic")
p("R02","A stored limit distribution is found for the statistic it was stored for",
 "Resolving from storage returns exactly the values stored for the statistic's code, its hypothesis parameters and the requested sample size, whatever other records the storage holds, and None when there is no such record. It never returns the distribution of another statistic, parameter value or sample size and never modifies the storage.",
 ["histories","inputs","configurations"],"every storage content and history, statistic, parameter values and sample size",
 "No test runs the storage resolver.",
 [HT+"limit_distribution/base.py","persistence/models/limit_distribution.py"],"exact-key lookup by code, parameters, sample size and Monte-Carlo count")
p("M01","Bonferroni and Sidak adjustments equal their definitions",
 "For m p-values, Bonferroni returns min(1, m*p) and Sidak (and the Sidak-Holm method) 1-(1-p)^m for each p in its original position, to floating-point accuracy over the whole range of p including p so small that 1-p rounds to 1. An adjusted p-value is never below the raw one nor above 1.",
 ["inputs"],"every finite list of p-values in [0,1], of any length, order and multiplicity",
 "Three fixed lists per method; tiny p-values, long lists and permutations are not sampled.",
 [HT+"multiple_testing/fwer.py"],"closed-form adjustment")
p("M02","Holm and Benjamini-Yekutieli adjustments equal their step procedures",
 "Holm's adjusted p-value of the k-th smallest of n p-values is min(1, max over j<=k of (n-j+1)*p_(j)) (the step-down running maximum), and Benjamini-Yekutieli's is min(1, min over j>=k of n*c*p_(j)/j) with c the harmonic sum up to n. Each adjusted value is returned at the position of its raw p-value, tied p-values receive equal adjusted values, and for n > 10000 c may be replaced by its logarithmic approximation.",
 ["inputs"],"every finite list of p-values in [0,1], of any length, order and multiplicity",
 "A handful of short, mostly sorted lists; order, ties and the crossing of step values are barely covered.",
 [HT+"multiple_testing/fwer.py",HT+"multiple_testing/fdr.py"],"sort, scale by rank, enforce monotonicity, restore order")
p("M03","Multiple-testing decisions are consistent, ordered and validated",
 "For every correction method, test() rejects exactly the hypotheses whose adjusted p-value is strictly below the threshold and returns the same adjusted values as adjust(); permuting the p-values permutes the results, a smaller raw p-value never gets a larger adjusted one, and the input list is not modified. test() raises ValueError when any p-value lies outside [0,1], and an empty list yields empty results.",
 ["inputs"],"every method, list of p-values (valid or not) and threshold",
 "Fixed examples with thresholds 0.05 and 0; permutations, ties at the threshold and validation of all five methods are not covered.",
 [HT+"multiple_testing/abstract_multiple_testing.py",HT+"multiple_testing/fwer.py",HT+"multiple_testing/fdr.py"],"template method: validate, adjust, compare")
GF="statistics/goodness_of_fit/"
p("T01","Distribution-function (EDF) statistics equal their definitions for every null",
 "For every family that offers them, the Kolmogorov-Smirnov (two-sided and one-sided), Lilliefors, Kuiper, Cramer-von Mises, Watson, Anderson-Darling, Zhang and Min-Toshiyuki statistics equal their textbook formulas in the ordered values of the null distribution function at the sample, with the null parameters given to the constructor or, where the test prescribes it, estimated from the sample. This holds for samples of any size and order.",
 ["inputs","configurations"],"every family, parameter value, alternative, and sample of any size and order inside the support",
 "One to three fixed samples per statistic, mostly with default parameters.",
 [GF+"common.py",GF+"normal.py",GF+"exponent.py",GF+"weibull.py",GF+"gamma.py",GF+"beta.py",GF+"uniform.py",GF+"student.py",GF+"log_normal.py"],"sort, null CDF, EDF functional")
p("T02","Normality statistics equal their published definitions",
 "Each normality test statistic (moment, L-moment, regression/correlation, spacing, characteristic-function, robust and polynomial types) equals its published formula for every sample size and order for which it is defined, including the branches its formula takes for small, medium and large samples.",
 ["inputs"],"every sample of admissible size, in any order, with and without ties",
 "One or two fixed samples per statistic; the sample-size branches (for example n<=25, <=50, >50, n=3,4,5, odd/even) are mostly not reached.",
 [GF+"normal.py"],"direct implementation of each formula")
p("T03","Exponentiality statistics equal their published definitions",
 "Each exponentiality test statistic equals its documented formula for every sample of positive values, every sample size and order, and every value of its tuning parameters.",
 ["inputs","configurations"],"every positive sample, in any order, with and without ties, and every constructor or call parameter",
 "One or two fixed samples per statistic with default tuning parameters.",
 [GF+"exponent.py"],"direct implementation of each formula")
p("T04","Weibull statistics equal their published definitions",
 "Each Weibull test statistic equals its published formula (probability-plot, spacing, Laplace-transform, likelihood and chi-squared types) for every admissible sample, in any order, and every statistic the library offers for the Weibull family can be evaluated.",
 ["inputs","configurations"],"every positive sample of admissible size in any order, with every constructor parameter",
 "One fixed sample per statistic, several skipped or absent.",
 [GF+"weibull.py"],"maximum-likelihood or plotting-position fit followed by the formula")
p("T05","Uniform, beta, gamma and Student statistics equal their definitions",
 "Each further test statistic of the uniform, beta, gamma and Student families (chi-squared and power-divergence, spacing, moment, entropy, mode, smooth, plot-correlation and Stein types) equals its documented formula with the null parameters given to the constructor, for every sample in the support and every number of bins or other tuning parameter.",
 ["inputs","configurations"],"every sample in the support, any order and size, with every constructor parameter",
 "A few fixed samples per statistic, mostly with default parameters.",
 [GF+"uniform.py",GF+"beta.py",GF+"gamma.py",GF+"student.py"],"direct implementation of each formula")
p("T06","Log-normality statistics are normality statistics of the standardised logs",
 "Each log-normality statistic equals the corresponding normality statistic applied to (ln x - ln scale)/s, and its own tests (Kullback-Leibler, Quesenberry-Miller) equal their formulas under the log-normal null with the given s and scale, for every sample of positive values. The critical values the Kullback-Leibler tests offer follow their authors' formulas in size and level, continue each other between levels, and levels outside [0.001, 0.1] raise ValueError.",
 ["inputs","configurations"],"every log-normality statistic, every positive sample, s > 0 and scale > 0",
 "A few fixed samples for seven of the several dozen statistics.",
 [GF+"log_normal.py"],"generated wrapper classes around the normality statistics")
p("T07","Graph statistics equal the graph-theoretic quantities of the proximity graph",
 "For a sample, join two observations when their distance is strictly less than one tenth of the sample's range (divided by the sample variance for the normal family and by the sample mean for the exponential family; for the gamma family distances are between null distribution function values); the graph statistics are then the number of edges, maximum degree, average degree, number of connected components, clique number and independence number of that graph. This holds for every sample as a list or an array, in any order, with or without ties, in every family that offers them.",
 ["inputs","configurations"],"every sample (sequence type, order, ties, equal spacing at the joining distance) and every family",
 "Two fixed ten-element lists per statistic.",
 [GF+"graph_goodness_of_fit.py",GF+"normal.py",GF+"exponent.py",GF+"gamma.py"],"adjacency lists and sorted two-pointer / greedy scans")
p("T08","Evaluating a statistic is pure",
 "Evaluating any statistic leaves the caller's sample (list or array) exactly as it was, gives the same result when repeated on the same sample with the same or an identically configured object, and is not affected by evaluations of other samples or statistics in between.",
 ["histories","inputs","configurations"],"every offered statistic, every sample and every interleaving of evaluations on shared samples and objects",
 "Each test evaluates a fresh literal once and never looks at the sample afterwards.",
 ["statistics/statistic.py",GF+"normal.py",GF+"exponent.py",GF+"weibull.py",GF+"gamma.py",GF+"beta.py",GF+"uniform.py",GF+"student.py",GF+"log_normal.py",GF+"graph_goodness_of_fit.py"],"copies before sorting; no module-level or instance state",
 [("heap","samples owned by the caller","the sample object after each evaluation"),("memo","results already observed per configuration and sample","return values")])
p("T09","Statistics do not depend on the order or container of the sample",
 "For every statistic the value for a sample is the same for each ordering of its observations and whether it is passed as a list, tuple or numpy array, whole numbers as floats or as integers of any type that holds them.",
 ["inputs","configurations"],"every offered statistic, sample, permutation and container",
 "Samples are literals passed once, always as lists.",
 [GF+"normal.py",GF+"exponent.py",GF+"weibull.py",GF+"gamma.py",GF+"beta.py",GF+"uniform.py",GF+"student.py",GF+"log_normal.py",GF+"graph_goodness_of_fit.py"],"sorting or symmetric functions inside each statistic")
p("T10","Composite-null statistics are invariant under location and scale changes",
 "Statistics that test a family with estimated location and scale do not change when the sample is shifted or rescaled by a positive factor (normality tests with estimated mean and variance), and those testing a scale or shape family do not change under rescaling or powers (scale-free exponentiality tests; Weibull and log-normal tests of the logarithms).",
 ["inputs","configurations"],"every composite-null statistic, sample, shift and positive scale factor",
 "No test transforms a sample.",
 [GF+"normal.py",GF+"exponent.py",GF+"weibull.py",GF+"log_normal.py"],"studentisation or scale-free ratios inside each statistic")
p("T11","Simple-null statistics honour the null parameters they are given",
 "A statistic constructed with null parameters tests that null: transforming the sample and the parameters together by the family's own group (shift, scale and reflection for normal, uniform and Student, scale for exponential and gamma, powers for log-normal and Weibull, reflection for beta) leaves the value unchanged (spacing statistics in raw units scale with the sample), and changing the parameters alone changes the null distribution function used. The hypothesis a statistic reports carries exactly the parameters it was constructed with, or those of the standard member of its family when it was constructed without any.",
 ["inputs","configurations"],"every parametrised statistic, parameter value and sample",
 "Almost all tests use default parameters.",
 [GF+"normal.py",GF+"exponent.py",GF+"gamma.py",GF+"beta.py",GF+"uniform.py",GF+"student.py",GF+"log_normal.py",GF+"weibull.py"],"constructor parameters passed to the null CDF")
p("T12","Inadmissible parameters and samples are rejected",
 "Constructors of the gamma, beta, uniform, Student and log-normal statistics raise ValueError exactly for parameters outside their domain (alpha, beta, df, s and scale positive, b greater than a, both parameters above one for the beta mode statistic, at least two gamma bins, Zhang type A, C or K). Uniform and beta statistics raise ValueError exactly for samples with a value outside the null support, bounds included in it. Samples too small or degenerate for a statistic (fewer than 4, 5 or 8 observations for normality and log-normality statistics that need them, empty, constant or tied samples for gamma statistics that say so) never give a number: they raise ValueError or give None. Log-normal statistics of the logarithms give infinity for a sample with a non-positive value. Every other sample of distinct values inside the support is evaluated to a finite number.",
 ["inputs","configurations"],"every statistic of those families, parameter vector and sample, at and around the boundary of the admissible set",
 "A few invalid examples for some statistics.",
 [GF+"gamma.py",GF+"beta.py",GF+"uniform.py",GF+"student.py",GF+"log_normal.py",GF+"normal.py"],"constructor and sample validation")
p("G01","The criterion registry is complete, consistent and unambiguous",
 "For each distribution the registry lists the short code of every concrete statistic of that family (those a program defines itself included) exactly once and no statistic of another family, whatever was imported, asked or done with earlier answers; full codes are the short code followed by the family and kind, so that distinct statistics have distinct codes and the code never depends on the instance. Each listed statistic reports that distribution, an alternative, and a hypothesis whose parameters its family's generator understands.",
 ["configurations"],"every distribution type and every statistic offered",
 "The listing is compared with a fixed list; codes are compared one by one for part of the statistics.",
 ["utils/statistic.py","statistics/goodness_of_fit/__init__.py","statistics/statistic.py"],"walk over concrete subclasses")
p("G02","Distribution descriptors and validators describe what the library accepts",
 "Every distribution type has exactly one descriptor, of that type, whose parameter names are accepted by the generator of the distribution and whose defaults satisfy their own validators; validators accept exactly the positive numbers, the non-negative numbers, or the numbers in [0,1]. The list of distribution types has no duplicates and every type can be looked up by its value.",
 ["configurations","inputs"],"every distribution type, every parameter, every numeric value offered to a validator",
 "Seven descriptors are compared with literals; validators are not tested.",
 ["distribution/distributions.py","distribution/validator.py","distribution/distribution_type.py","utils/distribution.py","utils/generator.py"],"descriptor classes, registry lookups")
p("G03","Generators draw from the distribution and parameters they declare",
 "For every distribution type the registry returns the generator of that type with exactly the given parameters; it reports them (and a code built from type and parameters) unaffected by later changes to the dictionaries passed in or returned, and generate(n) yields n fresh values that follow the declared distribution with those parameters.",
 ["configurations","inputs","histories"],"every distribution type, parameter vector and size, with repeated draws",
 "Only metadata is tested; nothing is ever generated.",
 ["generator/generators.py","generator/model.py","utils/generator.py","core/distributions"],"delegation to core distribution samplers")
p("G04","Null draws used for calibration follow the hypothesis of the statistic",
 "For every statistic offered, the generator found for its distribution with the parameters of its hypothesis draws from the very null distribution the statistic tests, so that every statistic can be calibrated by simulation with non-default parameters as well.",
 ["configurations"],"every statistic offered and every admissible null parameter vector",
 "No test connects a statistic with a generator.",
 ["utils/generator.py","generator/generators.py","statistics/hypothesis.py"],"keyword parameters passed from the hypothesis to the generator")
p("G05","Core density, distribution, moment and sampling functions match their laws",
 "For every documented parameter vector (omitted parameters taking their documented defaults) and every argument, scalar, list or array of any shape, cdf_norm, pdf_norm, cdf_expon and the Weibull cdf, log-cdf and log-survival functions return the values of the exact law in the shape of the argument. moment and central_moment return the mean power of the deviations from the given centre or from the mean, column by column for a table of samples. Every generate_* function returns, in the requested shape (an integer or, for all but the mixtures, a tuple), fresh independent values that follow the law documented for its parameters.",
 ["inputs","configurations"],"every function of core.distributions, every admissible parameter vector, every argument or size",
 "No test calls any of these functions directly.",
 ["core/distributions/norm.py","core/distributions/expon.py","core/distributions/weibull.py","core/distributions/sample.py","core/distributions"],"scipy distributions in the documented parametrisation")
p("E01","Maximised likelihoods equal the likelihood at the maximum-likelihood estimate",
 "For every sample each likelihood function returns the likelihood at the maximum-likelihood parameters of its family (Weibull shapes between 0.1 and 10), whatever the order of the sample and whole numbers written as integers or floats. Student, Fisher and Cauchy likelihoods, which have no closed form, are bounded by the maximum and close to it. A sample outside the support has likelihood 0, and degenerate samples have the documented value (0 where the family has no density for them, 1 for certain counts, infinity for Pareto and Laplace). The search over the families returns one whose likelihood no other family exceeds, and raises ValueError for an empty sample and TypeError for one that is not numeric.",
 ["inputs"],"every sample (continuous or discrete, inside or outside the support) for each of the twenty families",
 "A few fixed samples per family.",
 ["estimation/maximum_likelihood/function_for_maximum_likelihood.py","estimation/maximum_likelihood/maximum_likelihood.py"],"closed-form or scipy-fitted parameters substituted in the likelihood")
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n")
print(len(P))
import re
for x in P:
    n=len(re.findall(r'\.(?=\s+[A-Z])|\.$',x["statement"])); 
    if n>3: print(x["id"],n)
